//! C01: BDD operations are exact and canonical.
use crate::core::*;
use crate::cx::{at, Cx};
use crate::eng::*;
use crate::refm::*;
use bss::prelude::{BddMgr, BddNode};
use common::prelude::*;

pub fn all_bool(n: usize) -> Vec<Fun> {
    all_tables(1 << n, &[0, 1]).into_iter().map(Fun::b).collect()
}

const BIN: &[Op] = &[Op::And, Op::Or, Op::Xor, Op::Imp, Op::Nand, Op::Nor, Op::Xnor];

pub fn c01(cx: &mut Cx) {
    let f3 = all_bool(3);
    let f2 = all_bool(2);
    let f1 = all_bool(1);

    cx.section("pairs of all 3-variable functions, 7 operations");
    for l in layouts(&[2, 2, 2], true) {
        pairs::<BddC>(cx, &l, &f3, &f3, BIN, false, false);
    }
    pairs::<BddC>(cx, &Layout::std(&[2, 2, 2]), &f3, &f3, BIN, false, true);
    pairs::<BddC>(cx, &Layout::std(&[2, 2, 2]), &f3, &f3, &[Op::Not], false, false);
    cx.section("pairs of all 3-variable functions, empty computed tables");
    pairs::<BddC>(cx, &Layout::std(&[2, 2, 2]), &f3, &f3, BIN, true, false);
    cx.section("pairs of all 1- and 2-variable functions");
    for l in layouts(&[2], true) {
        pairs::<BddC>(cx, &l, &f1, &f1, BIN, true, false);
    }
    for l in layouts(&[2, 2], true) {
        pairs::<BddC>(cx, &l, &f2, &f2, BIN, true, false);
        pairs::<BddC>(cx, &l, &f2, &f2, BIN, false, true);
    }

    cx.section("ite of all 3-variable function triples");
    triples::<BddC>(cx, &Layout::std(&[2, 2, 2]), &f3, &f3, &f3, false);
    cx.section("ite of all 2-variable function triples, layouts and empty tables");
    for l in layouts(&[2, 2], true) {
        triples::<BddC>(cx, &l, &f2, &f2, &f2, true);
    }
    let u2: Vec<Fun> = all_tables(4, &[0, 1, U]).into_iter().map(Fun::b).collect();
    cx.section("ite with undetermined branches");
    triples::<BddC>(cx, &Layout::std(&[2, 2]), &f2, &u2, &u2, false);
    cx.section("ite with undetermined conditions");
    for l in layouts(&[2, 2], true) {
        ite_partial::<BddC>(cx, &l, &u2, &u2);
    }
    cx.section("not of functions with undetermined points");
    let u3: Vec<Fun> = all_tables(8, &[0, 1, U]).into_iter().map(Fun::b).collect();
    pairs::<BddC>(cx, &Layout::std(&[2, 2, 2]), &u3, &u3, &[Op::Not], false, false);

    cx.section("all 4-variable functions: several constructions, one node");
    four_vars(cx);
    cx.section("more than 2^17 nodes: node identity");
    many_nodes(cx);
    cx.section("more than 2^16 variables");
    many_headers(cx);
    cx.section("arithmetic circuits and weighted bits, every assignment");
    circuits(cx);
    cx.section("long chains");
    chains(cx);
    cx.section("handles: pairs of all 3-variable functions");
    wrapper_pairs(cx);
    cx.section("handle histories with drops, clones and collections");
    crate::eng::sequences::<crate::p_gc::BddMachine>(cx, 4);
    cx.section("operations across collections: every slot recycled");
    crate::eng::epochs::<BddC>(cx, &Layout::std(&[2; 3]), &crate::p_gc::shapes_bdd(false), &[0, 2, 6, 12]);
    cx.section("forests of millions of nodes: every node as an operand");
    let n = 1u32 << if cx.thorough { 22 } else { 20 };
    crate::p_long::big::<BddC>(cx, n, &crate::p_long::bool_forms(crate::p_long::B01));
    crate::p_long::huge::<BddC>(cx, if cx.thorough { 22 } else { 20 }, crate::p_long::B01, &[Op::And, Op::Or, Op::Xor, Op::Imp]);
    if cx.thorough {
        cx.section("pairs of all 4-variable functions");
        pairs4(cx);
        cx.section("ite of 3-variable triples, all layouts");
        for l in layouts(&[2, 2, 2], true).into_iter().skip(1) {
            triples::<BddC>(cx, &l, &f3, &f3, &f3, false);
        }
    }
}

struct Four {
    c: BddC,
    ids: Vec<u64>, // node of every 4-variable function
    x: Vec<u64>,
}
fn four(rev: bool) -> Four {
    let mut c = BddC::new(&Layout::std(&[2, 2, 2, 2]));
    let n = 1u64 << 16;
    let mut ids = vec![0; n as usize];
    for k in 0..n {
        let f = if rev { n - 1 - k } else { k };
        ids[f as usize] = c.build(&Fun::b(bits(16, f)));
    }
    let x = (0..4).map(|v| c.build(&Fun::b(Dom::new(&[2; 4]).var(v)))).collect();
    Four { c, ids, x }
}
fn tt_of(f: &Fun) -> u64 {
    f.t.iter().enumerate().map(|(i, &b)| (b as u64) << i).sum()
}

fn four_vars(cx: &mut Cx) {
    let mut st: Option<Four> = None;
    let d = Dom::new(&[2; 4]);
    let xt: Vec<u64> = (0..4).map(|v| tt_of(&Fun::b(d.var(v)))).collect();
    for hi in 0..256u64 {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("4-variable functions x3 ? {:#x} : every 3-variable function", hi),
            |cx| {
                let s = st.get_or_insert_with(|| four(false));
                for lo in 0..256u64 {
                    let tt = hi << 8 | lo;
                    at(&[tt]);
                    let e = s.ids[tt as usize];
                    let t = s.c.table(e)?;
                    ensure!(tt_of(&t) == tt, "function {:#x} reads back as {:#x}", tt, tt_of(&t));
                    let (f1, f0) = (s.ids[(hi << 8 | hi) as usize], s.ids[(lo << 8 | lo) as usize]);
                    let x3 = s.x[3];
                    let a = s.c.op(Op::Ite, &[x3, f1, f0]);
                    ensure!(a == e, "ite(x3,f1,f0) for {:#x}", tt);
                    let nx = s.c.op(Op::Not, &[x3]);
                    let p = s.c.op(Op::And, &[x3, f1]);
                    let q = s.c.op(Op::And, &[f0, nx]);
                    let o = s.c.op(Op::Or, &[p, q]);
                    ensure!(o == e, "or of cofactors for {:#x}", tt);
                    let o = s.c.op(Op::Xor, &[q, p]);
                    ensure!(o == e, "xor of cofactors for {:#x}", tt);
                    let nn = s.c.op(Op::Not, &[e]);
                    ensure!(nn == s.ids[(!tt & 0xffff) as usize], "not of {:#x}", tt);
                    for v in 0..4 {
                        let x = s.x[v];
                        let m = 0xffff;
                        for (op, r) in [
                            (Op::And, tt & xt[v]),
                            (Op::Or, tt | xt[v]),
                            (Op::Xor, tt ^ xt[v]),
                            (Op::Imp, (!tt | xt[v]) & m),
                            (Op::Nand, !(tt & xt[v]) & m),
                            (Op::Nor, !(tt | xt[v]) & m),
                            (Op::Xnor, !(tt ^ xt[v]) & m),
                        ] {
                            let r1 = s.c.op(op, &[e, x]);
                            ensure!(r1 == s.ids[r as usize], "{:?}({:#x}, x{})", op, tt, v);
                            if op != Op::Imp {
                                let r2 = s.c.op(op, &[x, e]);
                                ensure!(r2 == r1, "{:?}(x{}, {:#x})", op, v, tt);
                            }
                        }
                        for w in 0..4 {
                            let r = s.c.op(Op::Ite, &[e, x, s.x[w]]);
                            let et = (tt & xt[v]) | (!tt & xt[w] & m);
                            ensure!(r == s.ids[et as usize], "ite({:#x}, x{}, x{})", tt, v, w);
                            let r = s.c.op(Op::Ite, &[x, e, s.x[w]]);
                            let et = (xt[v] & tt) | (!xt[v] & xt[w] & m);
                            ensure!(r == s.ids[et as usize], "ite(x{}, {:#x}, x{})", v, tt, w);
                            let r = s.c.op(Op::Ite, &[x, s.x[w], e]);
                            let et = (xt[v] & xt[w]) | (!xt[v] & tt & m);
                            ensure!(r == s.ids[et as usize], "ite(x{}, x{}, {:#x})", v, w, tt);
                        }
                    }
                }
                structure(&s.c, s.ids[(hi << 8 | (hi ^ 0x5a)) as usize])?;
                cx.states(256);
                cx.trans(256 * (5 + 4 * 13 + 48));
                Ok(())
            },
        );
    }
}

/// 4-variable pairs (thorough).
fn pairs4(cx: &mut Cx) {
    let mut st: Option<Four> = None;
    for op in [Op::And, Op::Or, Op::Xor] {
        for blk in 0..256u64 {
            if !cx.mine() {
                continue;
            }
            for lo in 0..256u64 {
                let f = blk << 8 | lo;
                cx.case(
                    || format!("{:?}({:#06x}, every 4-variable function >= it)", op, f),
                    |cx| {
                        let s = st.get_or_insert_with(|| four(f & 256 != 0));
                        for g in f..1 << 16 {
                            let (a, b) = (s.ids[f as usize] as usize, s.ids[g as usize] as usize);
                            let (a, b) = if (f ^ g) & 1 == 0 { (a, b) } else { (b, a) };
                            let (r, e) = match op {
                                Op::And => (s.c.m.and(a, b), f & g),
                                Op::Or => (s.c.m.or(a, b), f | g),
                                _ => (s.c.m.xor(a, b), f ^ g),
                            };
                            ensure!(r as u64 == s.ids[e as usize], "g={:#06x}", g);
                        }
                        cx.trans((1 << 16) - f);
                        Ok(())
                    },
                );
            }
        }
    }
}

fn many_nodes(cx: &mut Cx) {
    if !cx.mine() {
        return;
    }
    cx.case(
        || "5-variable functions x4 ? f : rot(f) over all 4-variable f, in one manager".into(),
        |cx| {
            let l = Layout::std(&[2; 5]);
            let mut c = BddC::new(&l);
            let d = Dom::new(&[2; 5]);
            let x: Vec<u64> = (0..5).map(|v| c.build(&Fun::b(d.var(v)))).collect();
            let n = 1u64 << 16;
            let ids: Vec<u64> = (0..n)
                .map(|f| {
                    let t = bits(16, f);
                    let mut tt = t.clone();
                    tt.extend(t);
                    c.build(&Fun::b(tt))
                })
                .collect();
            let mut seen = FxMap::default();
            let mut roots = vec![];
            for f in 0..n {
                let g = (f * 40503 + 7) & 0xffff;
                let h = ((f << 1) | (f >> 15)) & 0xffff;
                for (hi, lo) in [(f, g), (h, f)] {
                    let r = c.op(Op::Ite, &[x[4], ids[hi as usize], ids[lo as usize]]);
                    let r2 = c.mk(BOOL, 4, &[ids[lo as usize], ids[hi as usize]]);
                    ensure!(r == r2, "x4 ? {:#x} : {:#x} has two nodes", hi, lo);
                    let key = hi << 16 | lo;
                    if let Some(o) = seen.insert(r, key) {
                        ensure!(o == key, "one node for {:#x} and {:#x}", o, key);
                    }
                    roots.push((key, r));
                }
            }
            let total = c.live();
            ensure!(total > 1 << 17, "only {} nodes", total);
            for (key, r) in roots.iter() {
                let t = c.table(*r)?;
                let e: u64 = (key & 0xffff) | (key >> 16) << 16;
                ensure!(tt_of(&t) == e, "{:#x} reads back as {:#x}", e, tt_of(&t));
                // a few operations on high node ids
                let nn = c.op(Op::Not, &[*r]);
                ensure!(c.op(Op::Xor, &[*r, nn]) == c.m.one() as u64, "f xor not f, {:#x}", e);
                ensure!(c.op(Op::And, &[*r, nn]) == c.m.zero() as u64, "f and not f, {:#x}", e);
                ensure!(c.op(Op::Or, &[nn, *r]) == c.m.one() as u64, "f or not f, {:#x}", e);
                ensure!(c.op(Op::Ite, &[*r, x[0], *r]) == c.op(Op::And, &[*r, x[0]]), "ite(f,x,f), {:#x}", e);
            }
            cx.states(roots.len() as u64);
            cx.trans(6 * roots.len() as u64);
            Ok(())
        },
    );
}

fn many_headers(cx: &mut Cx) {
    if !cx.mine() {
        return;
    }
    cx.case(
        || "70000 variables: literals and their pairwise operations at power-of-two distances".into(),
        |cx| {
            let n = 70_000usize;
            let mut m = bddcore::prelude::BddManager::new();
            let h: Vec<usize> = (0..n).map(|i| m.create_header(i, &format!("v{}", i))).collect();
            let (z, o) = (m.zero(), m.one());
            let x: Vec<usize> = h.iter().map(|&h| m.create_node(h, z, o)).collect();
            let mut s: Vec<usize> = x.clone();
            s.sort();
            s.dedup();
            ensure!(s.len() == n, "two variables share a node");
            for i in 0..n {
                ensure!(m.level(&x[i]) == Some(i), "level of variable {}", i);
                ensure!(m.create_node(h[i], z, o) == x[i], "literal {} not shared", i);
            }
            let mut cnt = 0;
            for e in 0..17 {
                let dst = 1usize << e;
                for i in (0..n).step_by(997) {
                    let j = i + dst;
                    if j >= n {
                        break;
                    }
                    let a = m.and(x[i], x[j]);
                    let b = m.or(x[j], x[i]);
                    let c = m.xor(x[i], x[j]);
                    let f = m.ite(x[i], x[j], z);
                    ensure!(a == f, "and/ite of variables {} and {}", i, j);
                    for p in 0..4usize {
                        let (vi, vj) = (p & 1, p >> 1);
                        let ev = |id: usize| -> usize {
                            let mut id = id;
                            loop {
                                match m.get_node(&id).unwrap() {
                                    bddcore::prelude::Node::Zero => return 0,
                                    bddcore::prelude::Node::One => return 1,
                                    bddcore::prelude::Node::Undet => return 2,
                                    bddcore::prelude::Node::NonTerminal(n) => {
                                        let l = m.level(&id).unwrap();
                                        id = if l == i {
                                            n.edge(vi)
                                        } else if l == j {
                                            n.edge(vj)
                                        } else {
                                            return 3;
                                        }
                                    }
                                }
                            }
                        };
                        ensure!(ev(a) == vi & vj && ev(b) == vi | vj && ev(c) == vi ^ vj, "operations on variables {} and {} at {}{}", i, j, vi, vj);
                    }
                    cnt += 4;
                }
            }
            cx.states(n as u64);
            cx.trans(cnt);
            Ok(())
        },
    );
}

/// Evaluate by walking (levels = variable numbers).
pub fn eval_bdd(m: &bddcore::prelude::BddManager, mut id: usize, val: impl Fn(usize) -> bool) -> i64 {
    loop {
        match m.get_node(&id).unwrap() {
            bddcore::prelude::Node::Zero => return 0,
            bddcore::prelude::Node::One => return 1,
            bddcore::prelude::Node::Undet => return U,
            bddcore::prelude::Node::NonTerminal(n) => {
                let l = m.level(&id).unwrap();
                id = n.edge(val(l) as usize);
            }
        }
    }
}

/// Functions with large diagrams, so that the computed table grows and collides in real use.
fn circuits(cx: &mut Cx) {
    let w = if cx.thorough { 8usize } else { 6 };
    for mode in 0..2 {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{}x{} bit multiplier, operands {}", w, w, if mode == 0 { "separate" } else { "interleaved" }),
            |cx| {
                let n = 2 * w;
                let mut c = BddC::new(&Layout::std(&vec![2; n]));
                let (z, o) = (c.m.zero() as u64, c.m.one() as u64);
                let lit: Vec<u64> = (0..n).map(|v| c.mk(BOOL, v, &[z, o])).collect();
                let av = |i: usize| if mode == 0 { i } else { 2 * i };
                let bv = |i: usize| if mode == 0 { w + i } else { 2 * i + 1 };
                let mut acc = vec![z; 2 * w];
                let mut cnt = 0u64;
                for i in 0..w {
                    let mut carry = z;
                    for j in 0..w {
                        let pp = c.op(Op::And, &[lit[av(j)], lit[bv(i)]]);
                        let s = c.op(Op::Xor, &[acc[i + j], pp]);
                        let s2 = c.op(Op::Xor, &[s, carry]);
                        let c1 = c.op(Op::And, &[acc[i + j], pp]);
                        // maj via ite and via or
                        let c2 = c.op(Op::And, &[s, carry]);
                        let co = c.op(Op::Or, &[c1, c2]);
                        let co2 = c.op(Op::Ite, &[s, carry, pp]);
                        ensure!(co == co2, "carry of bit {},{} has two nodes", i, j);
                        acc[i + j] = s2;
                        carry = co;
                        cnt += 7;
                    }
                    acc[i + w] = carry;
                }
                for a in 0..1usize << w {
                    for b in 0..1usize << w {
                        let p = a * b;
                        for (k, r) in acc.iter().enumerate() {
                            let v = eval_bdd(&c.m, *r as usize, |l| {
                                if mode == 0 {
                                    if l < w { a >> l & 1 == 1 } else { b >> (l - w) & 1 == 1 }
                                } else if l % 2 == 0 {
                                    a >> (l / 2) & 1 == 1
                                } else {
                                    b >> (l / 2) & 1 == 1
                                }
                            });
                            ensure!(v == (p >> k & 1) as i64, "bit {} of {}*{} is {}", k, a, b, v);
                        }
                    }
                }
                for r in acc {
                    structure(&c, r)?;
                }
                cx.states(2 * w as u64);
                cx.trans(cnt);
                Ok(())
            },
        );
    }
    for n in [10usize, if cx.thorough { 16 } else { 13 }] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("hidden weighted bit, {} variables", n),
            |cx| {
                let mut c = BddC::new(&Layout::std(&vec![2; n]));
                let (z, o) = (c.m.zero() as u64, c.m.one() as u64);
                let x: Vec<u64> = (0..n).map(|v| c.mk(BOOL, v, &[z, o])).collect();
                // exactly-k functions
                let mut ex = vec![z; n + 1];
                ex[0] = o;
                for v in 0..n {
                    let nx = c.op(Op::Not, &[x[v]]);
                    for k in (0..=n).rev() {
                        let a = c.op(Op::And, &[ex[k], nx]);
                        let b = if k > 0 { c.op(Op::And, &[ex[k - 1], x[v]]) } else { z };
                        ex[k] = c.op(Op::Or, &[a, b]);
                    }
                }
                let mut f = z;
                let mut g = z;
                for k in 1..=n {
                    let t = c.op(Op::And, &[ex[k], x[k - 1]]);
                    f = c.op(Op::Or, &[f, t]);
                    g = c.op(Op::Ite, &[ex[k], x[k - 1], g]);
                }
                ensure!(f == g, "two nodes for the hidden weighted bit function");
                for p in 0..1usize << n {
                    let k = p.count_ones() as usize;
                    let e = k > 0 && p >> (k - 1) & 1 == 1;
                    let v = eval_bdd(&c.m, f as usize, |l| p >> l & 1 == 1);
                    ensure!(v == e as i64, "assignment {:#x}", p);
                }
                cx.states(1);
                cx.trans((3 * n * (n + 1) + 3 * n) as u64);
                Ok(())
            },
        );
    }
}

fn chains(cx: &mut Cx) {
    for n in [20usize, 63, 64, 65, 127, 255, 256, 257, 300] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{} variables: conjunction, disjunction, parity, alternation; assignments within two flips of constant", n),
            |cx| {
                let mut c = BddC::new(&Layout::std(&vec![2; n]));
                let (z, o) = (c.m.zero() as u64, c.m.one() as u64);
                let x: Vec<u64> = (0..n).map(|v| c.mk(BOOL, v, &[z, o])).collect();
                let fold = |c: &mut BddC, op: Op, init: u64, up: bool| {
                    let mut r = init;
                    for i in 0..n {
                        let v = if up { i } else { n - 1 - i };
                        r = c.op(op, &[r, x[v]]);
                    }
                    r
                };
                let a = fold(&mut c, Op::And, o, true);
                let b = fold(&mut c, Op::Or, z, true);
                let p = fold(&mut c, Op::Xor, z, true);
                ensure!(a == fold(&mut c, Op::And, o, false), "conjunction depends on order");
                ensure!(b == fold(&mut c, Op::Or, z, false), "disjunction depends on order");
                ensure!(p == fold(&mut c, Op::Xor, z, false), "parity depends on order");
                let na = c.op(Op::Not, &[a]);
                let mut nb = z;
                for i in 0..n {
                    let y = c.op(Op::Not, &[x[i]]);
                    nb = c.op(Op::Or, &[y, nb]);
                }
                ensure!(na == nb, "De Morgan over {} variables", n);
                let w = c.op(Op::Ite, &[p, a, b]);
                for base in [false, true] {
                    for i in 0..=n {
                        for j in i..=n {
                            let val = |l: usize| base ^ (l == i) ^ (l == j && j != i);
                            let flips = (i < n) as usize + (j < n && j != i) as usize;
                            let ones = if base { n - flips } else { flips };
                            let (ea, eb, ep) = (ones == n, ones > 0, ones % 2 == 1);
                            ensure!(eval_bdd(&c.m, a as usize, val) == ea as i64, "conjunction at flips {} {} of {}", i, j, base);
                            ensure!(eval_bdd(&c.m, b as usize, val) == eb as i64, "disjunction at flips {} {} of {}", i, j, base);
                            ensure!(eval_bdd(&c.m, p as usize, val) == ep as i64, "parity at flips {} {} of {}", i, j, base);
                            let e = if ep { ea } else { eb };
                            ensure!(eval_bdd(&c.m, w as usize, val) == e as i64, "ite at flips {} {} of {}", i, j, base);
                        }
                    }
                }
                cx.states(4);
                cx.trans(8 * n as u64);
                Ok(())
            },
        );
    }
}

/// Build a handle for a truth table through the public node constructor.
pub fn build_h(m: &BddMgr, x: &[BddNode], t: &[i64]) -> BddNode {
    if t.len() == 1 {
        return if t[0] == 1 { m.one() } else { m.zero() };
    }
    let v = t.len().trailing_zeros() as usize - 1;
    let h = t.len() / 2;
    let lo = build_h(m, x, &t[..h]);
    let hi = build_h(m, x, &t[h..]);
    m.create_node(x[v].get_header().unwrap(), &lo, &hi)
}
pub fn table_h(h: &BddNode, n: usize) -> Vec<i64> {
    let m = h.get_mgr();
    let m = m.borrow();
    (0..1usize << n).map(|p| eval_bdd(&m, h.get_id(), |l| p >> l & 1 == 1)).collect()
}

fn wrapper_pairs(cx: &mut Cx) {
    let mut st: Option<(BddMgr, Vec<BddNode>, Vec<BddNode>)> = None;
    let f3: Vec<Vec<i64>> = all_tables(8, &[0, 1]);
    for i in 0..256usize {
        if !cx.mine() {
            continue;
        }
        let f3 = &f3;
        cx.case(
            || format!("handles: f={:#04x} with every g: and or xor not ite eq", i),
            |cx| {
                let (m, x, hs) = st.get_or_insert_with(|| {
                    let mut m = BddMgr::new();
                    let x: Vec<BddNode> = (0..3).map(|v| m.defvar(&nm(v))).collect();
                    let hs = f3.iter().map(|t| build_h(&m, &x, t)).collect();
                    (m, x, hs)
                });
                let f = hs[i].clone();
                ensure!(table_h(&f, 3) == f3[i], "table of handle");
                ensure!(f.not().eq(&hs[255 - i]), "not");
                ensure!(f.is_zero() == (i == 0) && f.is_one() == (i == 255) && !f.is_undet(), "constant tests");
                for j in 0..256usize {
                    at(&[i as u64, j as u64]);
                    let g = &hs[j];
                    ensure!(f.eq(g) == (i == j), "eq with {:#04x}", j);
                    ensure!(f.and(g).eq(&hs[i & j]), "and with {:#04x}", j);
                    ensure!(f.or(g).eq(&hs[i | j]), "or with {:#04x}", j);
                    ensure!(f.xor(g).eq(&hs[i ^ j]), "xor with {:#04x}", j);
                    for (v, xv) in x.iter().enumerate() {
                        let t = [0xaausize, 0xcc, 0xf0][v];
                        ensure!(f.ite(g, xv).eq(&hs[(i & j) | (!i & t & 255)]), "ite(f,{:#04x},x{})", j, v);
                        ensure!(xv.ite(&f, g).eq(&hs[(t & i) | (!t & j & 255)]), "ite(x{},f,{:#04x})", v, j);
                    }
                }
                let _ = m;
                cx.states(1);
                cx.trans(256 * 10);
                Ok(())
            },
        );
    }
}
