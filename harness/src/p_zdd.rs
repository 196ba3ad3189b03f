//! C03: ZDD operations are exact set-family algebra and canonical.
use crate::core::*;
use crate::cx::{at, Cx, Res};
use crate::eng::*;
use crate::p_bdd::all_bool;
use crate::p_gc::{zdd_table, zref};
use crate::refm::*;
use bss::prelude::{ZddMgr, ZddNode};

pub const ZOPS: &[Op] = &[Op::Union, Op::Intersect, Op::Setdiff, Op::Product, Op::Divide];

pub fn c03(cx: &mut Cx) {
    let f3 = all_bool(3);
    let f2 = all_bool(2);
    let f1 = all_bool(1);
    cx.section("pairs of all families over 3 elements, 5 operations");
    for l in layouts(&[2, 2, 2], true) {
        pairs::<ZddC>(cx, &l, &f3, &f3, ZOPS, false, false);
    }
    pairs::<ZddC>(cx, &Layout::std(&[2, 2, 2]), &f3, &f3, ZOPS, false, true);
    cx.section("pairs of all families over 3 elements, empty computed tables");
    pairs::<ZddC>(cx, &Layout::std(&[2, 2, 2]), &f3, &f3, ZOPS, true, false);
    cx.section("pairs of all families over 1 and 2 elements");
    for l in layouts(&[2], true) {
        pairs::<ZddC>(cx, &l, &f1, &f1, ZOPS, true, false);
    }
    for l in layouts(&[2, 2], true) {
        pairs::<ZddC>(cx, &l, &f2, &f2, ZOPS, true, false);
        pairs::<ZddC>(cx, &l, &f2, &f2, ZOPS, false, true);
    }
    cx.section("all 65536 families over 4 elements with small operands");
    four(cx);
    cx.section("operation mixes share one computed table");
    mixes(cx);
    cx.section("many elements");
    many(cx);
    cx.section("power sets and chains");
    chains(cx);
    cx.section("handles: pairs of all families over 3 elements, every element order");
    wrapper(cx);
    cx.section("handles: families from lists of sets");
    from_sets(cx);
    cx.section("families from lists of up to 2^17 sets");
    crate::p_lists::many_sets(cx);
    cx.section("names that are easy to confuse");
    crate::p_names::sets(cx);
    cx.section("handle histories with drops, clones and collections");
    crate::eng::sequences::<crate::p_gc::ZddMachine>(cx, 4);
    cx.section("operations across collections: every slot recycled");
    crate::eng::epochs::<ZddC>(cx, &Layout::std(&[2; 3]), &crate::p_gc::shapes_zdd(false), &[0, 2, 6, 12]);
    cx.section("forests of a million families: every family as an operand");
    let n = 1u32 << if cx.thorough { 21 } else { 19 };
    crate::p_long::big::<ZddC>(cx, n, &crate::p_long::zdd_forms());
    crate::p_long::huge::<ZddC>(cx, if cx.thorough { 21 } else { 20 }, crate::p_long::B01, &[Op::Union, Op::Intersect, Op::Setdiff]);
}

/// Reference on 16-bit masks.
pub struct Z4 {
    join: Vec<[u16; 16]>,
    quo: Vec<[u16; 16]>,
}
impl Z4 {
    pub fn new() -> Z4 {
        let n = 1usize << 16;
        let mut join = vec![[0u16; 16]; n];
        let mut quo = vec![[0u16; 16]; n];
        for f in 0..n {
            for s in 0..16usize {
                let (mut j, mut q) = (0u16, 0u16);
                for x in 0..16usize {
                    if f >> x & 1 == 1 {
                        j |= 1 << (x | s);
                    }
                    if x & s == 0 && f >> (x | s) & 1 == 1 {
                        q |= 1 << x;
                    }
                }
                join[f][s] = j;
                quo[f][s] = q;
            }
        }
        Z4 { join, quo }
    }
    pub fn op(&self, op: Op, f: u16, g: u16) -> Option<u16> {
        Some(match op {
            Op::Union => f | g,
            Op::Intersect => f & g,
            Op::Setdiff => f & !g,
            Op::Product => (0..16).filter(|s| g >> s & 1 == 1).fold(0, |a, s| a | self.join[f as usize][s]),
            _ => {
                if g == 0 {
                    return None;
                }
                (0..16).filter(|s| g >> s & 1 == 1).fold(!0, |a, s| a & self.quo[f as usize][s])
            }
        })
    }
}

fn four(cx: &mut Cx) {
    let mut gs: Vec<u16> = vec![];
    let maxp = if cx.thorough { 3 } else { 2 };
    for g in 0..=u16::MAX {
        if g.count_ones() <= maxp || (cx.thorough && g < 256) {
            gs.push(g);
        }
    }
    gs.extend([0xffffu16, 0x8001, 0x0116, 0x6996, 0xfffe, 0x7fff, 0x1248, 0xaaaa, 0xf0f0, 0x8421]);
    let mut st: Option<(ZddC, Vec<usize>, Z4)> = None;
    for hi in 0..256u64 {
        if !cx.mine() {
            continue;
        }
        let gs = &gs;
        cx.case(
            || format!("families {:#04x}00..{:#04x}ff over 4 elements, {} second operands, 5 operations, both operand orders", hi, hi, gs.len()),
            |cx| {
                let (c, ids, z) = st.get_or_insert_with(|| {
                    let mut c = ZddC::new(&Layout::std(&[2; 4]));
                    let ids = (0..1u64 << 16).map(|f| c.build(&Fun::b(bits(16, f))) as usize).collect();
                    (c, ids, Z4::new())
                });
                let und = c.m.undet();
                for lo in 0..256u64 {
                    let f = (hi << 8 | lo) as u16;
                    let t = c.table(ids[f as usize] as u64)?;
                    ensure!(t.t == bits(16, f as u64), "family {:#06x} reads back as {:?}", f, t);
                    for &g in gs.iter() {
                        at(&[f as u64, g as u64]);
                        for &op in ZOPS {
                            for (a, b) in [(f, g), (g, f)] {
                                let (x, y) = (ids[a as usize], ids[b as usize]);
                                let r = match op {
                                    Op::Union => c.m.union(x, y),
                                    Op::Intersect => c.m.intersect(x, y),
                                    Op::Setdiff => c.m.setdiff(x, y),
                                    Op::Product => c.m.product(x, y),
                                    _ => c.m.divide(x, y),
                                };
                                let e = z.op(op, a, b).map_or(und, |e| ids[e as usize]);
                                ensure!(r == e, "{:?}({:#06x}, {:#06x})", op, a, b);
                            }
                        }
                    }
                }
                cx.states(256);
                cx.trans(256 * 10 * gs.len() as u64);
                Ok(())
            },
        );
    }
}

/// All ordered pairs of operations on the same operands, in one fresh manager: an entry of
/// one operation must not answer the other.
fn mixes(cx: &mut Cx) {
    let samples: Vec<u16> = vec![
        0x0001, 0x8000, 0x0116, 0x6996, 0x8421, 0x1248, 0x7ffe, 0xfffe, 0x0356, 0x1f1f, 0xc0de, 0x5a3c, 0x0f80, 0x2d4b, 0xffff, 0x9009,
    ];
    let mut z: Option<Z4> = None;
    for &f in &samples {
        for &g in &samples {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("families {:#06x} {:#06x}: every sequence of 3 operations on a fresh manager", f, g),
                |cx| {
                    let z = z.get_or_insert_with(Z4::new);
                    let k = ZOPS.len();
                    for s in 0..k * k * k {
                        let mut c = ZddC::new(&Layout::std(&[2; 4]));
                        let x = c.build(&Fun::b(bits(16, f as u64)));
                        let y = c.build(&Fun::b(bits(16, g as u64)));
                        for (i, o) in [s % k, s / k % k, s / k / k].into_iter().enumerate() {
                            let op = ZOPS[o];
                            let (a, b, p, q) = if i == 1 { (g, f, y, x) } else { (f, g, x, y) };
                            let r = c.op(op, &[p, q]);
                            let t = c.table(r)?;
                            match z.op(op, a, b) {
                                None => ensure!(t.t == vec![U; 16], "{:?} by the empty family gives {:?}", op, t),
                                Some(e) => ensure!(t.t == bits(16, e as u64), "step {} {:?}({:#06x},{:#06x}) gives {}", i, op, a, b, t.show()),
                            }
                        }
                    }
                    cx.states(1);
                    cx.trans(3 * (k * k * k) as u64);
                    cx.traces((k * k * k) as u64);
                    Ok(())
                },
            );
        }
    }
}

fn many(cx: &mut Cx) {
    if !cx.mine() {
        return;
    }
    cx.case(
        || "70000 elements: singletons and their pairwise operations at power-of-two distances".into(),
        |cx| {
            let n = 70_000usize;
            let mut m = bddcore::prelude::ZddManager::new();
            let h: Vec<usize> = (0..n).map(|i| m.create_header(i, &format!("e{}", i))).collect();
            let (z, o) = (m.zero(), m.one());
            let x: Vec<usize> = h.iter().map(|&h| m.create_node(h, z, o)).collect();
            let mut s = x.clone();
            s.sort();
            s.dedup();
            ensure!(s.len() == n, "two elements share a node");
            let mut cnt = 0;
            for e in 0..17 {
                let dst = 1usize << e;
                for i in (0..n).step_by(997) {
                    let j = i + dst;
                    if j >= n {
                        break;
                    }
                    // {ij} , {i,j} , {i}x{i,j} = {i, ij}
                    let p = m.product(x[j], x[i]);
                    let pe = m.create_node(h[j], z, x[i]);
                    let u = m.union(x[i], x[j]);
                    let ue = m.create_node(h[j], x[i], o);
                    ensure!(p == pe && m.product(x[i], x[j]) == pe, "product of elements {} {}", i, j);
                    ensure!(u == ue && m.union(x[j], x[i]) == ue, "union of elements {} {}", i, j);
                    ensure!(m.intersect(u, x[i]) == x[i] && m.intersect(x[j], u) == x[j] && m.intersect(x[i], x[j]) == z, "intersection of elements {} {}", i, j);
                    ensure!(m.setdiff(u, x[i]) == x[j] && m.setdiff(u, x[j]) == x[i] && m.setdiff(x[i], x[j]) == x[i], "difference of elements {} {}", i, j);
                    ensure!(m.divide(p, x[i]) == x[j] && m.divide(p, x[j]) == x[i] && m.divide(x[i], x[j]) == z, "quotient of elements {} {}", i, j);
                    let q = m.product(u, x[i]);
                    let up = m.union(x[i], p);
                    ensure!(q == up, "product of a family of elements {} {}", i, j);
                    cnt += 13;
                }
            }
            cx.states(n as u64);
            cx.trans(cnt);
            Ok(())
        },
    );
}

fn chains(cx: &mut Cx) {
    for n in [12usize, 40, 64, 65, 200, 257] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{} elements: power sets, singles, full set, even sets", n),
            |cx| {
                let mut c = ZddC::new(&Layout::std(&vec![2; n]));
                let (z, o) = (c.m.zero() as u64, c.m.one() as u64);
                let x: Vec<u64> = (0..n).map(|v| c.mk(BOOL, v, &[z, o])).collect();
                // power set of elements where keep(v)
                let pw = |c: &mut ZddC, keep: &dyn Fn(usize) -> bool| {
                    let mut r = o;
                    for v in 0..n {
                        if keep(v) {
                            r = c.mk(BOOL, v, &[r, r]);
                        }
                    }
                    r
                };
                let all = pw(&mut c, &|_| true);
                let even = pw(&mut c, &|v| v % 2 == 0);
                let odd = pw(&mut c, &|v| v % 2 == 1);
                let opt: Vec<u64> = x.iter().map(|&e| c.op(Op::Union, &[e, o])).collect();
                for up in [true, false] {
                    let mut r = o;
                    for i in 0..n {
                        let v = if up { i } else { n - 1 - i };
                        r = c.op(Op::Product, &[r, opt[v]]);
                    }
                    ensure!(r == all, "product of optional elements is not the power set (up={})", up);
                }
                ensure!(c.op(Op::Product, &[even, odd]) == all, "even x odd");
                ensure!(c.op(Op::Product, &[odd, even]) == all, "odd x even");
                ensure!(c.op(Op::Divide, &[all, even]) == odd, "power set / even");
                ensure!(c.op(Op::Divide, &[all, odd]) == even, "power set / odd");
                ensure!(c.op(Op::Divide, &[all, all]) == o, "power set / itself");
                ensure!(c.op(Op::Divide, &[even, odd]) == if n > 1 { z } else { o }, "even / odd");
                ensure!(c.op(Op::Intersect, &[even, odd]) == o, "even ∩ odd");
                ensure!(c.op(Op::Intersect, &[all, odd]) == odd && c.op(Op::Intersect, &[even, all]) == even, "∩ with the power set");
                ensure!(c.op(Op::Union, &[all, odd]) == all && c.op(Op::Union, &[even, all]) == all, "∪ with the power set");
                ensure!(c.op(Op::Setdiff, &[all, all]) == z && c.op(Op::Setdiff, &[odd, all]) == z, "− the power set");
                let d = c.op(Op::Setdiff, &[all, even]);
                let u = c.op(Op::Union, &[even, d]);
                ensure!(u == all && c.op(Op::Intersect, &[d, even]) == z, "(all − even) ∪ even");
                let (mut singles, mut full) = (z, o);
                for v in 0..n {
                    singles = c.op(Op::Union, &[singles, x[(v * 7) % n]]);
                    full = c.op(Op::Product, &[x[v], full]);
                }
                if (0..n).map(|v| v * 7 % n).collect::<std::collections::HashSet<_>>().len() == n {
                    let mut e = z;
                    for v in 0..n {
                        e = c.mk(BOOL, v, &[e, o]);
                    }
                    ensure!(e == singles, "singles");
                    // dropping any one element from the full set
                    for v in 0..n {
                        let q = c.op(Op::Divide, &[full, x[v]]);
                        ensure!(c.op(Op::Product, &[q, x[v]]) == full, "full / element {}", v);
                        ensure!(c.op(Op::Intersect, &[singles, x[v]]) == x[v], "singles ∩ element {}", v);
                        let w = c.op(Op::Setdiff, &[singles, x[v]]);
                        ensure!(c.op(Op::Union, &[x[v], w]) == singles && c.op(Op::Intersect, &[x[v], w]) == z, "singles − element {}", v);
                    }
                }
                ensure!(c.op(Op::Product, &[all, full]) == full, "power set x full");
                structure(&c, d)?;
                cx.states(8);
                cx.trans(20 + 5 * n as u64);
                Ok(())
            },
        );
    }
}

const E: [&str; 3] = ["a", "b", "c"];

fn names(s: usize) -> Vec<String> {
    (0..3).filter(|i| s >> i & 1 == 1).map(|i| E[i].to_string()).collect()
}

fn zop(f: &ZddNode, op: Op, g: &ZddNode) -> ZddNode {
    match op {
        Op::Union => f.union(g),
        Op::Intersect => f.intersect(g),
        Op::Setdiff => f.setdiff(g),
        Op::Product => f.product(g),
        _ => f.divide(g),
    }
}

/// extract as a mask of subsets
pub fn extract_mask(h: &ZddNode) -> Result<u64, String> {
    let mut o = 0u64;
    for s in h.extract(&[true]) {
        let mut m = 0usize;
        for e in &s {
            let i = E.iter().position(|x| x == e).ok_or_else(|| format!("unknown element {}", e))?;
            ensure!(m >> i & 1 == 0, "set {:?} lists an element twice", s);
            m |= 1 << i;
        }
        ensure!(o >> m & 1 == 0, "set {:?} listed twice", s);
        o |= 1 << m;
    }
    Ok(o)
}

fn wrapper(cx: &mut Cx) {
    for p in perms(3) {
        let mut st: Option<(ZddMgr, Vec<ZddNode>)> = None;
        for f in 0..256usize {
            if !cx.mine() {
                continue;
            }
            let p = &p;
            cx.case(
                || format!("handles, element order {:?}: family {:#04x} with every family", p, f),
                |cx| {
                    let (_m, hs) = st.get_or_insert_with(|| {
                        let mut m = ZddMgr::new();
                        for &v in p {
                            m.singleton(E[v]);
                        }
                        let hs = (0..256usize)
                            .map(|f| {
                                let mut sets: Vec<Vec<String>> = (0..8).filter(|s| f >> s & 1 == 1).map(names).collect();
                                if f % 2 == 1 {
                                    sets.reverse();
                                }
                                m.from_sets(&sets)
                            })
                            .collect();
                        (m, hs)
                    });
                    ensure!(extract_mask(&hs[f])? == f as u64, "extract of from_sets");
                    let t = zdd_table(&hs[f], 3, &|l| p[l])?;
                    ensure!(t == f as u64, "from_sets holds {:#x}", t);
                    ensure!(hs[f].is_zero() == (f == 0) && hs[f].is_one() == (f == 1), "constant tests");
                    for g in 0..256usize {
                        at(&[f as u64, g as u64]);
                        ensure!(hs[f].eq(&hs[g]) == (f == g), "eq with {:#04x}", g);
                        for &op in ZOPS {
                            if op == Op::Divide && g == 0 {
                                continue;
                            }
                            let r = zop(&hs[f], op, &hs[g]);
                            let e = zref(op, f as u8, g as u8).unwrap() as usize;
                            ensure!(r.eq(&hs[e]), "{:?} with {:#04x}", op, g);
                        }
                    }
                    cx.states(1);
                    cx.trans(256 * 6);
                    Ok(())
                },
            );
        }
    }
}

fn from_sets(cx: &mut Cx) {
    // every list of up to 3 sets, each a list of up to 2 elements with repetition
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..3 {
        lists.push(vec![a]);
        for b in 0..3 {
            lists.push(vec![a, b]);
        }
    }
    lists.push(vec![2, 0, 1]);
    lists.push(vec![1, 2, 1, 0, 1]);
    let n = lists.len();
    let nm = |l: &[usize]| -> Vec<String> { l.iter().map(|&i| E[i].to_string()).collect() };
    let mask = |l: &[usize]| -> usize { l.iter().fold(0, |a, &i| a | 1 << i) };
    for i in 0..n {
        for j in 0..n {
            if !cx.mine() {
                continue;
            }
            let lists = &lists;
            cx.case(
                || format!("from_sets of [], [A], [A,B], [A,B,C] with A={:?} B={:?} on a fresh and on a shared manager", lists[i], lists[j]),
                |cx| {
                    let mut shared = ZddMgr::new();
                    let check = |m: &mut ZddMgr, ls: &[&Vec<usize>]| -> Res {
                        let sets: Vec<Vec<String>> = ls.iter().map(|l| nm(l)).collect();
                        let h = m.from_sets(&sets);
                        let e: u64 = ls.iter().fold(0, |a, l| a | 1 << mask(l));
                        let got = extract_mask(&h)?;
                        ensure!(got == e, "from_sets({:?}) is {:#x}", sets, got);
                        let mut r = sets.clone();
                        r.reverse();
                        for s in r.iter_mut() {
                            s.reverse();
                        }
                        ensure!(m.from_sets(&r).eq(&h), "from_sets({:?}) differs from its reverse", sets);
                        Ok(())
                    };
                    let (a, b) = (&lists[i], &lists[j]);
                    check(&mut ZddMgr::new(), &[])?;
                    check(&mut ZddMgr::new(), &[a])?;
                    check(&mut ZddMgr::new(), &[a, b])?;
                    for c in lists.iter() {
                        check(&mut ZddMgr::new(), &[a, b, c])?;
                        check(&mut shared, &[c, a, b])?;
                    }
                    cx.states(n as u64);
                    cx.trans(4 * n as u64);
                    cx.traces(2 * n as u64 + 3);
                    Ok(())
                },
            );
        }
    }
}
