//! Size and age: forests of millions of nodes (node numbers beyond every plausible key width),
//! histories of more than 2^16 collections, tens of thousands of handles and clones.
use crate::core::*;
use crate::cx::{at, Cx, Res};
use crate::eng::*;
use crate::p_bdd::eval_bdd;
use crate::p_gc::{mss_table, zdd_table};
use crate::refm::*;
use bss::prelude::*;
use mss::prelude::{MddMgr, MddNode, MssMgr, ZmddNode};
use std::collections::{HashMap, HashSet};

/// A pointwise operation on functions of five two-state variables written as 32-bit masks.
/// Operand `pos` runs over the whole forest, the others are the constants `aux`.
pub struct Form {
    pub op: Op,
    pub pos: usize,
    /// (kind, value of a 0 bit, value of a 1 bit) of the running operand
    pub f: Alpha,
    pub aux: Vec<(Alpha, u32)>,
    pub r: Alpha,
    pub spec: fn(u32, &[u32]) -> u32,
}
pub type Alpha = (u8, i64, i64);
pub const B01: Alpha = (BOOL, 0, 1);
pub const V01: Alpha = (VALUE, 0, 1);
pub const VU1: Alpha = (VALUE, U, 1);
pub const VU0: Alpha = (VALUE, U, 0);
const K1: u32 = 0x9d2c_5680;
const K2: u32 = 0x6a09_e667;

pub fn form(op: Op, pos: usize, f: Alpha, aux: &[(Alpha, u32)], r: Alpha, spec: fn(u32, &[u32]) -> u32) -> Form {
    Form { op, pos, f, aux: aux.to_vec(), r, spec }
}

pub fn bool_forms(a: Alpha) -> Vec<Form> {
    let k = [(a, K1)];
    let kk = [(a, K1), (a, K2)];
    vec![
        form(Op::And, 0, a, &k, a, |f, c| f & c[0]),
        form(Op::Or, 1, a, &k, a, |f, c| f | c[0]),
        form(Op::Xor, 0, a, &k, a, |f, c| f ^ c[0]),
        form(Op::Ite, 0, a, &kk, a, |f, c| f & c[0] | !f & c[1]),
        form(Op::Ite, 1, a, &kk, a, |f, c| c[0] & f | !c[0] & c[1]),
        form(Op::Ite, 2, a, &kk, a, |f, c| c[0] & c[1] | !c[0] & f),
        form(Op::Not, 0, a, &[], a, |f, _| !f),
    ]
}

struct Big<C: Core> {
    c: C,
    base: HashMap<Alpha, Vec<u64>>,
}
impl<C: Core> Big<C> {
    /// node of the four-variable function `m` (16-bit mask) over the alphabet
    fn id4(&mut self, a: Alpha, m: u32) -> u64 {
        if !self.base.contains_key(&a) {
            let n = self.c.layout().dom.n();
            let v: Vec<u64> = (0..1u64 << 16)
                .map(|f| {
                    let t: Vec<i64> = (0..16).map(|p| if f >> p & 1 == 1 { a.2 } else { a.1 }).collect();
                    let sizes = self.c.layout().dom.sizes.clone();
                    let _ = n;
                    let fun = Fun { k: a.0, t };
                    self.c.build_rec(&fun, &sizes, 4, 0)
                })
                .collect();
            self.base.insert(a, v);
        }
        self.base[&a][m as usize]
    }
    fn id5(&mut self, a: Alpha, m: u32) -> u64 {
        let (lo, hi) = (self.id4(a, m & 0xffff), self.id4(a, m >> 16));
        self.c.mk(a.0, 4, &[lo, hi])
    }
}

/// The i-th of 2^20 (or more) distinct 32-bit masks.
fn mask(i: u32) -> u32 {
    let (a, b) = (i & 0xffff, ((i >> 16).wrapping_mul(0x9e37).wrapping_add(i.wrapping_mul(40503)).wrapping_add(7)) & 0xffff);
    a | b << 16
}

/// Every node of a forest of `n` functions as an operand of each form.
pub fn big<C: Core>(cx: &mut Cx, n: u32, forms: &[Form]) {
    for fm in forms {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{}: {:?} with operand {} running over a forest of {} functions", C::NAME, fm.op, fm.pos, n),
            |cx| {
                let l = Layout::std(&[2; 5]);
                let mut b = Big { c: C::new(&l), base: HashMap::new() };
                let ids: Vec<u64> = (0..n).map(|i| b.id5(fm.f, mask(i))).collect();
                let mut s = ids.clone();
                s.sort_unstable();
                s.dedup();
                ensure!(s.len() == n as usize, "{} functions share {} nodes", n, s.len());
                drop(s);
                let aux: Vec<u64> = fm.aux.iter().map(|(a, m)| b.id5(*a, *m)).collect();
                let am: Vec<u32> = fm.aux.iter().map(|x| x.1).collect();
                for i in 0..n {
                    let m = mask(i);
                    let mut a = aux.clone();
                    a.insert(fm.pos, ids[i as usize]);
                    let r = b.c.op(fm.op, &a);
                    let e = (fm.spec)(m, &am);
                    let x = b.id5(fm.r, e);
                    ensure!(r == x, "{:?} of function {:#x}: not the node of {:#x}", fm.op, m, e);
                    if i % 64 == 0 {
                        let t = b.c.table(r)?;
                        let w: Vec<i64> = (0..32).map(|p| if e >> p & 1 == 1 { fm.r.2 } else { fm.r.1 }).collect();
                        ensure!(t.t == w, "{:?} of function {:#x} reads back as {}", fm.op, m, t.show());
                    }
                    if i % 4096 == 0 {
                        ensure!(b.id5(fm.f, m) == ids[i as usize], "function {:#x} has a second node", m);
                    }
                }
                for i in (0..n).step_by(977) {
                    let t = b.c.table(ids[i as usize])?;
                    let m = mask(i);
                    let w: Vec<i64> = (0..32).map(|p| if m >> p & 1 == 1 { fm.f.2 } else { fm.f.1 }).collect();
                    ensure!(t.t == w, "function {:#x} reads back as {}", m, t.show());
                }
                cx.states(n as u64);
                cx.trans(n as u64);
                Ok(())
            },
        );
    }
}

/// A forest whose node numbers exceed every packed key width up to `bits` bits: three layers
/// over the `2^bits` (and more) functions of five variables, every node read back as made,
/// then operations on operands whose numbers differ in exactly one high bit, then a collection.
pub fn huge<C: Core>(cx: &mut Cx, bits: u32, a: Alpha, ops: &[Op]) {
    if !cx.mine() {
        return;
    }
    cx.case(
        || format!("{}: more than {} x 2^{} nodes", C::NAME, 3, bits),
        |cx| {
            let l = Layout::std(&[2; 7]);
            let mut b = Big { c: C::new(&l), base: HashMap::new() };
            b.id4(a, 0);
            let base = b.base[&a].clone();
            let mut c = b.c;
            let n = (1usize << bits) + 70_000;
            // i-th function: x4 ? base[hi] : base[lo], all different, hi neither 0 nor lo
            let halves = |i: usize| {
                let (d, lo) = (i / 65_535 + 1, i % 65_535);
                (lo, 1 + (lo + d) % 65_535)
            };
            let even = |x: usize| (x * 2) & 0xffff | x >> 15;
            let mut ids: Vec<u64> = Vec::with_capacity(n);
            for i in 0..n {
                let (lo, hi) = halves(i);
                if lo == hi {
                    continue;
                }
                let ch = [base[even(lo)], base[even(hi).max(1)]];
                let r = c.mk(a.0, 4, &ch);
                if ch[0] == ch[1] {
                    ensure!(r == ch[0], "equal branches make a node");
                    continue;
                }
                ids.push(r);
            }
            let mut s = ids.clone();
            s.sort_unstable();
            s.dedup();
            let distinct = s.len();
            drop(s);
            ensure!(distinct == ids.len(), "{} functions share {} nodes", ids.len(), distinct);
            let is = |c: &C, r: u64, x: u64, y: u64| -> bool {
                match c.view(r) {
                    Ok(View::Node(lv, ch)) => l.var_of_level(lv) == Some(5) && ch[..] == [x, y],
                    _ => false,
                }
            };
            let k = base[0xa53];
            let made = |i: usize, m: usize| -> (u64, u64) {
                match m {
                    0 => (ids[i], ids[i + 1]),
                    1 => (ids[i], k),
                    _ => (k, ids[i]),
                }
            };
            let mut first: Vec<u64> = vec![];
            let mut all: Vec<u64> = ids.clone();
            for m in 0..3 {
                for i in 0..ids.len() - 1 {
                    let (x, y) = made(i, m);
                    let r = c.mk(a.0, 5, &[x, y]);
                    ensure!(is(&c, r, x, y), "node {} of shape {} with branches {} and {} is not what was asked for", i, m, x, y);
                    all.push(r);
                    if i % 61 == 0 {
                        first.push(r);
                    }
                }
            }
            let again = |c: &mut C, first: &[u64], step: usize| -> Res {
                let mut j = 0;
                for m in 0..3 {
                    for i in (0..ids.len() - 1).step_by(61) {
                        if j % step == 0 {
                            let (x, y) = made(i, m);
                            let r = c.mk(a.0, 5, &[x, y]);
                            ensure!(r == first[j] && is(c, r, x, y), "node {} of shape {} was made twice", i, m);
                        }
                        j += 1;
                    }
                }
                Ok(())
            };
            again(&mut c, &first, 1)?;
            let total = c.live();
            ensure!(total > 4 * (1 << bits), "{} live nodes", total);
            // operands and children whose numbers differ in one bit, one right after the other
            all.sort_unstable();
            let mut nops = 0u64;
            let z = base[0x3c0f];
            let tz = c.table(z)?;
            for bit in 8..40 {
                let mut last = None;
                for i in (0..all.len()).step_by(all.len() / 5000 + 1) {
                    let (x, y) = (all[i], all[i] ^ 1 << bit);
                    if y < x || all.binary_search(&y).is_err() || last.map_or(false, |l| i < l + all.len() / 24) {
                        continue;
                    }
                    last = Some(i);
                    let (tx, ty) = (c.table(x)?, c.table(y)?);
                    ensure!(tx.t != ty.t, "two nodes, one function {}", tx.show());
                    for op in ops {
                        for sw in [false, true] {
                            for (o, t) in [(x, &tx), (y, &ty)] {
                                let (args, ts) = if sw { ([z, o], [&tz, t]) } else { ([o, z], [t, &tz]) };
                                let r = c.op(*op, &args);
                                let g = c.table(r)?;
                                let e = refop(*op, &ts);
                                ensure!(g.t == e.t, "{:?} of functions {} and {}: {} instead of {}", op, ts[0].show(), ts[1].show(), g.show(), e.show());
                                nops += 1;
                            }
                        }
                    }
                    for sw in [false, true] {
                        for o in [x, y] {
                            let ch = if sw { [k, o] } else { [o, k] };
                            let r = c.mk(a.0, 6, &ch);
                            ensure!(
                                matches!(c.view(r), Ok(View::Node(lv, c2)) if l.var_of_level(lv) == Some(6) && c2[..] == ch),
                                "a node with branches {:?} is not what was asked for", ch
                            );
                        }
                    }
                }
            }
            // keep one node in 61 of each shape
            let mut roots = first.clone();
            roots.extend(&ids);
            roots.extend(&base);
            c.gc(&roots);
            ensure!(c.live() < total / 2, "{} of {} nodes are live after the collection", c.live(), total);
            again(&mut c, &first, 1)?;
            for m in [2usize, 0] {
                for i in (0..ids.len() - 1).step_by(7) {
                    let (x, y) = made(i, m);
                    let r = c.mk(a.0, 5, &[x, y]);
                    ensure!(is(&c, r, x, y), "after a collection: node {} of shape {} is not what was asked for", i, m);
                }
            }
            again(&mut c, &first, 1)?;
            cx.states(total as u64);
            cx.trans(nops + total as u64);
            Ok(())
        },
    );
}

/// One manager, `rounds` collections: build, combine, collect; everything kept stays exact.
pub fn ages<C: Core>(cx: &mut Cx, sizes: &[usize], shapes: &[Shape], rounds: usize) {
    for every in [1usize, 3] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{}: {} rounds, a collection every {} rounds, the last 3 results kept", C::NAME, rounds, every),
            |cx| {
                let l = Layout::std(sizes);
                let mut c = C::new(&l);
                let mut held: Vec<(u64, Fun)> = vec![];
                for r in 0..rounds {
                    at(&[r as u64]);
                    let sh = &shapes[r % shapes.len()];
                    let f = &sh.fs[(r * 29 + r / shapes.len()) % sh.fs.len()];
                    let fid = c.build(f);
                    let mut a: Vec<u64> = sh.aux.iter().map(|x| c.build(x)).collect();
                    a.insert(sh.pos, fid);
                    let rid = c.op(sh.op, &a);
                    let e = refop(sh.op, &sh.args(f));
                    let t = c.table(rid)?;
                    ensure!(t == e, "round {}: {:?}({}) is {} instead of {}", r, sh.op, f.show(), t.show(), e.show());
                    held.push((rid, e));
                    if held.len() > 3 {
                        held.remove(0);
                    }
                    if r % every == 0 {
                        let roots: Vec<u64> = held.iter().map(|x| x.0).collect();
                        c.gc(&roots);
                    }
                    for (id, e) in &held {
                        let t = c.table(*id)?;
                        ensure!(t == *e, "round {}: a kept function became {} instead of {}", r, t.show(), e.show());
                    }
                    if r % 64 == 0 {
                        for (id, e) in held.clone() {
                            ensure!(c.build(&e) == id, "round {}: {} has a second node", r, e.show());
                        }
                    }
                }
                cx.states(rounds as u64);
                cx.trans(rounds as u64);
                Ok(())
            },
        );
    }
}

const X3: [u8; 3] = [0xaa, 0xcc, 0xf0];

/// Handles: many collections, many clones of one handle, many handles.
pub fn bdd_handles(cx: &mut Cx) {
    if cx.mine() {
        cx.case(
            || "BddMgr: 9000 rounds of 10 operations, each followed by a collection".into(),
            |cx| {
                let mut m = BddMgr::new();
                let x: Vec<BddNode> = (0..3).map(|v| m.defvar(&nm(v))).collect();
                m.set_gc_threshold(1);
                let (mut h, mut t) = (x[0].clone(), X3[0]);
                let keep = (x[0].and(&x[1]).xor(&x[2]), (X3[0] & X3[1]) ^ X3[2]);
                let mut w = 12345u32;
                for r in 0..9000 {
                    at(&[r]);
                    for _ in 0..10 {
                        w = w.wrapping_mul(1664525).wrapping_add(1013904223);
                        let v = (w >> 20) as usize % 3;
                        (h, t) = match (w >> 24) % 6 {
                            0 => (h.and(&x[v]), t & X3[v]),
                            1 => (h.or(&x[v]), t | X3[v]),
                            2 => (h.xor(&x[v]), t ^ X3[v]),
                            3 => (h.not(), !t),
                            4 => (x[v].ite(&h.not(), &keep.0), X3[v] & !t | !X3[v] & keep.1),
                            _ => (h.xor(&keep.0), t ^ keep.1),
                        };
                    }
                    for (h, t) in [(&h, t), (&keep.0, keep.1)] {
                        let mm = h.get_mgr();
                        let mm = mm.borrow();
                        for q in 0..8u8 {
                            ensure!(eval_bdd(&mm, h.get_id(), |l| q >> l & 1 == 1) == (t >> q & 1) as i64, "round {}: {:#04x} is wrong at {:03b}", r, t, q);
                        }
                    }
                }
                cx.states(9000);
                cx.trans(90_000);
                Ok(())
            },
        );
    }
    for n in [200usize, 300, 70_000] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("BddMgr: {} clones of one handle, all but one dropped", n),
            |cx| {
                for keep in [0, n / 2, n - 1] {
                    let mut m = BddMgr::new();
                    let x: Vec<BddNode> = (0..3).map(|v| m.defvar(&nm(v))).collect();
                    let h = x[0].and(&x[1]).xor(&x[2]);
                    let base = m.live_node_count();
                    let mut cl: Vec<BddNode> = (0..n).map(|_| h.clone()).collect();
                    drop(h);
                    m.gc(&[]);
                    let one = cl.swap_remove(keep);
                    for cut in [n / 2, 256, 1, 0] {
                        cl.truncate(cut);
                        m.gc(&[]);
                        let _junk = x[2].or(&x[0]).and(&x[1]);
                        let mm = one.get_mgr();
                        let mm = mm.borrow();
                        let e = (X3[0] & X3[1]) ^ X3[2];
                        for q in 0..8u8 {
                            ensure!(eval_bdd(&mm, one.get_id(), |l| q >> l & 1 == 1) == (e >> q & 1) as i64, "{} clones left: the value changed", cut + 1);
                        }
                    }
                    drop(one);
                    m.gc(&[]);
                    ensure!(m.live_node_count() <= base, "{} nodes live after the last clone was dropped", m.live_node_count());
                    cx.traces(1);
                }
                cx.states(3);
                cx.trans(15);
                Ok(())
            },
        );
    }
    for part in 0..4u64 {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("BddMgr: handles to all 65536 4-variable functions, collections, every fourth handle (from {}) kept", part),
            |cx| {
                let mut m = BddMgr::new();
                let x: Vec<BddNode> = (0..4).map(|v| m.defvar(&nm(v))).collect();
                let hd: Vec<usize> = x.iter().map(|h| h.get_header().unwrap()).collect();
                let mut lv: Vec<BddNode> = vec![m.zero(), m.one()];
                for v in 0..4 {
                    let mut nx = Vec::with_capacity(lv.len() * lv.len());
                    for hi in 0..lv.len() {
                        for lo in 0..lv.len() {
                            nx.push(m.create_node(hd[v], &lv[lo], &lv[hi]));
                        }
                    }
                    lv = nx;
                }
                m.gc(&[]);
                let kept: Vec<(u64, BddNode)> = lv.into_iter().enumerate().filter(|(i, _)| *i as u64 % 4 == part).map(|(i, h)| (i as u64, h)).collect();
                m.gc(&[]);
                let y = m.defvar("late");
                let _junk: Vec<BddNode> = (0..3000).map(|i| y.and(&kept[i].1)).collect();
                for (i, h) in &kept {
                    let mm = h.get_mgr();
                    let mm = mm.borrow();
                    for q in 0..16u64 {
                        ensure!(eval_bdd(&mm, h.get_id(), |l| q >> l & 1 == 1) == (i >> q & 1) as i64, "function {:#06x} is wrong at {:04b}", i, q);
                    }
                }
                cx.states(65536);
                cx.trans(65536);
                Ok(())
            },
        );
    }
}

pub fn zdd_handles(cx: &mut Cx) {
    const E: [u8; 3] = [1 << 1, 1 << 2, 1 << 4];
    let zt = |h: &ZddNode| -> Result<u8, String> { Ok(zdd_table(h, 3, &|l| l)? as u8) };
    if cx.mine() {
        cx.case(
            || "ZddMgr: 9000 rounds of 10 operations, each followed by a collection".into(),
            |cx| {
                let mut m = ZddMgr::new();
                let e: Vec<ZddNode> = (0..3).map(|v| m.singleton(&nm(v))).collect();
                m.set_gc_threshold(1);
                let (mut h, mut t) = (e[0].clone(), E[0]);
                let keep = (e[0].product(&e[1]).union(&e[2]), 1u8 << 3 | E[2]);
                let mut w = 4711u32;
                for r in 0..9000 {
                    at(&[r]);
                    for _ in 0..10 {
                        w = w.wrapping_mul(1664525).wrapping_add(1013904223);
                        let v = (w >> 20) as usize % 3;
                        (h, t) = match (w >> 24) % 6 {
                            0 => (h.union(&e[v]), t | E[v]),
                            1 => (h.union(&keep.0), t | keep.1),
                            2 => (h.setdiff(&e[v]), t & !E[v]),
                            3 => (h.product(&e[v]), crate::p_gc::zref(Op::Product, t, E[v]).unwrap()),
                            4 => (h.union(&m.base()).union(&keep.0), t | 1 | keep.1),
                            _ => (h.setdiff(&keep.0.intersect(&e[v].union(&h))), t & !(keep.1 & (E[v] | t))),
                        };
                    }
                    ensure!(zt(&h)? == t && zt(&keep.0)? == keep.1, "round {}: {:#04x} or the kept family changed", r, t);
                }
                cx.states(9000);
                cx.trans(90_000);
                Ok(())
            },
        );
    }
    for n in [200usize, 300, 70_000] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("ZddMgr: {} clones of one handle, all but one dropped", n),
            |cx| {
                for keep in [0, n / 2, n - 1] {
                    let mut m = ZddMgr::new();
                    let e: Vec<ZddNode> = (0..3).map(|v| m.singleton(&nm(v))).collect();
                    let h = e[0].product(&e[1]).union(&e[2]);
                    let mut cl: Vec<ZddNode> = (0..n).map(|_| h.clone()).collect();
                    drop(h);
                    m.set_gc_threshold(1);
                    let one = cl.swap_remove(keep);
                    for cut in [n / 2, 256, 1, 0] {
                        cl.truncate(cut);
                        let _junk = e[2].product(&e[0]).union(&e[1]).product(&e[2]);
                        ensure!(zt(&one)? == 1u8 << 3 | E[2], "{} clones left: the family changed", cut + 1);
                    }
                    cx.traces(1);
                }
                cx.states(3);
                cx.trans(15);
                Ok(())
            },
        );
    }
    for part in 0..4u64 {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("ZddMgr: handles to all 65536 families over 4 elements, collections, every fourth handle (from {}) kept", part),
            |cx| {
                let mut m = ZddMgr::new();
                let e: Vec<ZddNode> = (0..4).map(|v| m.singleton(&nm(v))).collect();
                let mut lv: Vec<ZddNode> = vec![m.empty(), m.base()];
                for v in 0..4 {
                    let with: Vec<ZddNode> = lv.iter().map(|h| h.product(&e[v])).collect();
                    let mut nx = Vec::with_capacity(lv.len() * lv.len());
                    for hi in 0..lv.len() {
                        for lo in 0..lv.len() {
                            nx.push(lv[lo].union(&with[hi]));
                        }
                    }
                    lv = nx;
                }
                let kept: Vec<(u64, ZddNode)> = lv.into_iter().enumerate().filter(|(i, _)| *i as u64 % 4 == part).map(|(i, h)| (i as u64, h)).collect();
                m.set_gc_threshold(1);
                let y = m.singleton("late");
                let _junk: Vec<ZddNode> = (0..500).map(|i| y.product(&kept[i].1)).collect();
                for (i, h) in &kept {
                    let t = zdd_table(h, 4, &|l| l)?;
                    ensure!(t == *i, "family {:#06x} became {:#06x}", i, t);
                }
                cx.states(65536);
                cx.trans(65536);
                Ok(())
            },
        );
    }
}

pub fn mdd_handles(cx: &mut Cx) {
    let sz = [2usize, 3];
    let d = Dom::new(&sz);
    if cx.mine() {
        let d = d.clone();
        cx.case(
            || "MddMgr: 9000 rounds of 8 operations over both forests, each followed by a collection".into(),
            |cx| {
                let mut m: MddMgr<i64> = MddMgr::new();
                let x: Vec<MddNode<i64>> = (0..2).map(|v| m.defvar(&nm(v), sz[v])).collect();
                let xt: Vec<Fun> = (0..2).map(|v| Fun::v(d.var(v))).collect();
                m.set_gc_threshold(1);
                let kt = [Fun::v(vec![3, 1, 4, 1, 5, 9]), Fun::b(vec![0, 1, 1, 0, 0, 1])];
                let keep: Vec<MddNode<i64>> = kt.iter().map(|f| crate::p_gc::mss_build(&m, &x, f, &sz)).collect();
                let (mut h, mut t) = (x[1].clone(), xt[1].clone());
                let (mut b, mut bt) = (keep[1].clone(), kt[1].clone());
                let mut w = 99u32;
                for r in 0..9000 {
                    at(&[r]);
                    for _ in 0..8 {
                        w = w.wrapping_mul(1664525).wrapping_add(1013904223);
                        let v = (w >> 20) as usize % 2;
                        let (k, ke) = (&keep[0], &kt[0]);
                        match (w >> 24) % 8 {
                            0 => { h = h.add(&x[v]); t = refop(Op::Add, &[&t, &xt[v]]); }
                            1 => { h = h.min(k); t = refop(Op::Min, &[&t, ke]); }
                            2 => { h = h.max(&x[v]).sub(&x[1 - v]); t = refop(Op::Sub, &[&refop(Op::Max, &[&t, &xt[v]]), &xt[1 - v]]); }
                            3 => { b = h.lt(k).xor(&b); bt = refop(Op::Xor, &[&refop(Op::Lt, &[&t, ke]), &bt]); }
                            4 => { b = b.and(&keep[1]).not(); bt = refop(Op::Not, &[&refop(Op::And, &[&bt, &kt[1]])]); }
                            5 => { h = b.ite(&h, k); t = refop(Op::Ite, &[&bt, &t, ke]); }
                            6 => { b = h.eq(&x[v]).or(&b); bt = refop(Op::Or, &[&refop(Op::Eq, &[&t, &xt[v]]), &bt]); }
                            _ => { b = b.ite(&keep[1], &h.ge(&x[v])); bt = refop(Op::Ite, &[&bt, &kt[1], &refop(Op::Gte, &[&t, &xt[v]])]); }
                        }
                    }
                    ensure!(mss_table(&h, &sz)? == t && mss_table(&b, &sz)? == bt, "round {}: {} or {} is wrong", r, t.show(), bt.show());
                    for i in 0..2 {
                        ensure!(mss_table(&keep[i], &sz)? == kt[i], "round {}: kept {} changed", r, kt[i].show());
                    }
                }
                cx.states(9000);
                cx.trans(72_000);
                Ok(())
            },
        );
    }
    for n in [200usize, 300, 70_000] {
        for kind in 0..2 {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("MddMgr: {} clones of one {} handle, all but one dropped", n, ["Boolean", "value"][kind]),
                |cx| {
                    for keep in [0, n / 2, n - 1] {
                        let mut m: MddMgr<i64> = MddMgr::new();
                        let x: Vec<MddNode<i64>> = (0..2).map(|v| m.defvar(&nm(v), sz[v])).collect();
                        let f = if kind == 0 { Fun::b(vec![0, 1, 1, 0, 0, 1]) } else { Fun::v(vec![3, 1, 4, 1, 5, 9]) };
                        let h = crate::p_gc::mss_build(&m, &x, &f, &sz);
                        let mut cl: Vec<MddNode<i64>> = (0..n).map(|_| h.clone()).collect();
                        drop(h);
                        m.set_gc_threshold(1);
                        let one = cl.swap_remove(keep);
                        for cut in [n / 2, 256, 1, 0] {
                            cl.truncate(cut);
                            m.gc(&[]);
                            let _junk = (x[0].add(&x[1]).mul(&x[1]), x[0].lt(&x[1]).xor(&x[1].ge(&m.value(1))));
                            ensure!(mss_table(&one, &sz)? == f, "{} clones left: the function changed", cut + 1);
                        }
                        cx.traces(1);
                    }
                    cx.states(3);
                    cx.trans(15);
                    Ok(())
                },
            );
        }
    }
    for kind in 0..2 {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("MddMgr: handles to all {} functions over (2,2,2,2), collections, every fourth kept", ["Boolean", "two-valued"][kind]),
            |cx| {
                let mut m: MddMgr<i64> = MddMgr::new();
                let x: Vec<MddNode<i64>> = (0..4).map(|v| m.defvar(&nm(v), 2)).collect();
                let hd: Vec<usize> = x.iter().map(|h| h.get_header().unwrap()).collect();
                let mut lv = if kind == 0 { vec![m.boolean(false), m.boolean(true)] } else { vec![m.value(-5), m.value(70_001)] };
                for v in 0..4 {
                    let mut nx = Vec::with_capacity(lv.len() * lv.len());
                    for hi in 0..lv.len() {
                        for lo in 0..lv.len() {
                            nx.push(m.create_node(hd[v], &[lv[lo].clone(), lv[hi].clone()]));
                        }
                    }
                    lv = nx;
                }
                m.gc(&[]);
                let kept: Vec<(u64, MddNode<i64>)> = lv.into_iter().enumerate().filter(|(i, _)| i % 4 == 1).map(|(i, h)| (i as u64, h)).collect();
                m.gc(&[]);
                let y = m.defvar("late", 3);
                let _junk: Vec<MddNode<i64>> = (0..3000).map(|i| if kind == 0 { y.ge(&m.value(1)).and(&kept[i].1) } else { y.add(&kept[i].1) }).collect();
                for (i, h) in &kept {
                    let t = mss_table(h, &[2; 4])?;
                    let w: Vec<i64> = (0..16).map(|p| if kind == 0 { (i >> p & 1) as i64 } else if i >> p & 1 == 1 { 70_001 } else { -5 }).collect();
                    ensure!(t.t == w, "function {:#06x} became {}", i, t.show());
                }
                cx.states(65536);
                cx.trans(65536);
                Ok(())
            },
        );
    }
    for n in [200usize, 300, 70_000] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("MssMgr: {} clones of one family handle, all but one dropped, the family forest collected", n),
            |cx| {
                let mut m: MssMgr<i64> = MssMgr::new();
                let x: Vec<MddNode<i64>> = (0..6).map(|v| m.defvar(&nm(v), 4)).collect();
                let s = x[0].add(&x[1]);
                let f = m.minpath(&s).ok_or("no answer for a monotone function")?;
                let mut cl: Vec<ZmddNode<i64>> = (0..n).map(|_| f.clone()).collect();
                drop(f);
                let one = cl.swap_remove(n / 3);
                for cut in [n / 2, 256, 1, 0] {
                    cl.truncate(cut);
                    // fill the family forest past its fixed trigger
                    let mut k = 0u64;
                    let before = m.zmdd().size().1;
                    // kept, so that the collection rearms above the arena and freed places are used again
                    let mut hold = vec![];
                    while k < 140 && m.zmdd().size().1 < before + 80_000 {
                        k += 1;
                        // 1024 values of its own: a family of more than 1300 nodes
                        let mut t = m.value((k + 1000 * cut as u64) as i64 * 10_000);
                        for v in 0..5 {
                            t = t.add(&x[1 + v].mul(&m.value(1 << (2 * v))));
                        }
                        hold.push(m.minpath(&t).ok_or("no answer for a monotone function")?);
                    }
                    let mut got: Vec<(i64, usize, usize)> = vec![];
                    for v in 0..=6i64 {
                        let ss: HashSet<i64> = [v].into_iter().collect();
                        for p in one.extract(&ss) {
                            got.push((v, p[&nm(0)], p[&nm(1)]));
                        }
                    }
                    got.sort();
                    let mut want: Vec<(i64, usize, usize)> = (0..16).map(|p| ((p % 4 + p / 4) as i64, p % 4, p / 4)).collect();
                    want.sort();
                    ensure!(got == want, "{} clones left: the family is {:?}", cut + 1, got);
                }
                cx.states(1);
                cx.trans(4);
                Ok(())
            },
        );
    }
}

fn distinct(cx: &mut Cx, what: &str, got: usize, want: usize) -> Res {
    ensure!(got == want, "{}: {} distinct items instead of {}", what, got, want);
    cx.states(want as u64);
    cx.trans(want as u64);
    Ok(())
}

/// Iterators with more than 2^16 items.
pub fn long_paths_bss(cx: &mut Cx) {
    for (sel, n) in [(&[true][..], 18usize), (&[false][..], 18), (&[true, false][..], 17)] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("parity of {} variables: all assignments with value in {:?}", n, sel),
            |cx| {
                let mut m = BddMgr::new();
                let mut f = m.zero();
                for v in 0..n {
                    let x = m.defvar(&nm(v));
                    f = f.xor(&x);
                }
                let want = if sel.len() == 2 { 1usize << n } else { 1 << (n - 1) };
                let mut it = f.bdd_extract(sel);
                ensure!(it.len() == want as u64, "length {} instead of {}", it.len(), want);
                ensure!(f.bdd_count(sel) == want as u64, "count {} instead of {}", f.bdd_count(sel), want);
                let mut seen = vec![false; 1 << n];
                let mut k = 0;
                for p in it.by_ref() {
                    let mut q = 0usize;
                    ensure!(p.len() == n, "item {} has {} literals", k, p.len());
                    for l in &p {
                        let (neg, s) = l.strip_prefix('~').map_or((false, l.as_str()), |r| (true, r));
                        let v = vi(s).ok_or("odd literal")?;
                        if !neg {
                            q |= 1 << v;
                        }
                    }
                    ensure!(!seen[q], "assignment {:#x} twice", q);
                    seen[q] = true;
                    ensure!(sel.contains(&(q.count_ones() % 2 == 1)), "assignment {:#x} has another value", q);
                    k += 1;
                }
                ensure!(it.next().is_none(), "items after the end");
                distinct(cx, "parity", k, want)
            },
        );
    }
    for n in [16usize, 17] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("power set of {} elements and the sets of odd size", n),
            |cx| {
                let mut m = ZddMgr::new();
                let e: Vec<ZddNode> = (0..n).map(|v| m.singleton(&nm(v))).collect();
                let mut all = m.base();
                let (mut odd, mut even) = (m.empty(), m.base());
                for x in &e {
                    all = all.union(&all.product(x));
                    let (o2, e2) = (odd.union(&even.product(x)), even.union(&odd.product(x)));
                    odd = o2;
                    even = e2;
                }
                for (h, want, par) in [(&all, 1usize << n, None), (&odd, 1 << (n - 1), Some(1)), (&even, 1 << (n - 1), Some(0))] {
                    ensure!(h.count(&[true]) == want as u64, "count {} instead of {}", h.count(&[true]), want);
                    let mut seen = vec![false; 1 << n];
                    let mut k = 0;
                    for p in h.extract(&[true]) {
                        let mut q = 0usize;
                        for l in &p {
                            q |= 1 << vi(l).ok_or("odd element")?;
                        }
                        ensure!(p.len() == q.count_ones() as usize && !seen[q], "set {:#x} twice or malformed", q);
                        seen[q] = true;
                        ensure!(par.is_none_or(|x| p.len() % 2 == x), "set {:#x} is not a member", q);
                        k += 1;
                    }
                    distinct(cx, "sets", k, want)?;
                }
                Ok(())
            },
        );
    }
}

pub fn long_paths_mss(cx: &mut Cx) {
    let n = 11usize; // 3^11 = 177147 vectors
    for part in 0..3i64 {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("sum of {} three-state variables: all vectors with a sum = {} mod 3", n, part),
            |cx| {
                let mut m: MddMgr<i64> = MddMgr::new();
                let mut f = m.value(0);
                for v in 0..n {
                    let x = m.defvar(&nm(v), 3);
                    f = f.add(&x);
                }
                let ss: HashSet<i64> = (0..=2 * n as i64).filter(|v| v % 3 == part).collect();
                let want = 3usize.pow(n as u32) / 3;
                ensure!(f.mdd_count(&ss) == want as u64, "count {} instead of {}", f.mdd_count(&ss), want);
                let mut it = f.mdd_extract(&ss);
                ensure!(it.len() == want as u64, "length {} instead of {}", it.len(), want);
                let mut seen = vec![false; 3usize.pow(n as u32)];
                let mut k = 0;
                for p in it.by_ref() {
                    ensure!(p.len() == n, "item {} has {} variables", k, p.len());
                    let (mut q, mut s) = (0usize, 0i64);
                    for v in (0..n).rev() {
                        let d = *p.get(&nm(v)).ok_or("missing variable")?;
                        q = q * 3 + d;
                        s += d as i64;
                    }
                    ensure!(!seen[q], "vector {} twice", q);
                    seen[q] = true;
                    ensure!(ss.contains(&s), "vector {} has sum {}", q, s);
                    k += 1;
                }
                ensure!(it.next().is_none(), "items after the end");
                distinct(cx, "vectors", k, want)
            },
        );
    }
}

/// Families with more than 2^16 members.
pub fn long_families(cx: &mut Cx) {
    let n = 11usize;
    for cut in [false, true] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("sum of {} three-state variables: minimal {} vectors of every value", n, if cut { "cut" } else { "path" }),
            |cx| {
                let mut m: MssMgr<i64> = MssMgr::new();
                let mut f = m.value(0);
                for v in 0..n {
                    let x = m.defvar(&nm(v), 3);
                    f = f.add(&x);
                }
                let z = if cut { m.mincut(&f) } else { m.minpath(&f) }.ok_or("no answer for a monotone function")?;
                let all: HashSet<i64> = (0..=2 * n as i64).collect();
                let tot = 3usize.pow(n as u32);
                ensure!(z.count(&all) == tot as u64, "count {} instead of {}", z.count(&all), tot);
                let mut seen = vec![false; tot];
                let mut k = 0;
                for p in z.extract(&all) {
                    let mut q = 0usize;
                    for v in (0..n).rev() {
                        q = q * 3 + *p.get(&nm(v)).ok_or("missing variable")?;
                    }
                    ensure!(!seen[q], "vector {} twice", q);
                    seen[q] = true;
                    k += 1;
                }
                ensure!(k == tot, "{} vectors instead of {}", k, tot);
                for v in [0i64, 1, 11, 21, 22] {
                    let ss: HashSet<i64> = [v].into_iter().collect();
                    let want = seen.iter().enumerate().filter(|(q, _)| { let mut q = *q; let mut s = 0; while q > 0 { s += q % 3; q /= 3; } s as i64 == v }).count();
                    ensure!(z.count(&ss) == want as u64, "count of value {}", v);
                    // (the level query is quadratic in the vectors beyond the level)
                    let lv = if cut == (v <= 1) && (v <= 1 || v >= 21) { z.extract_level(v) } else { vec![] };
                    ensure!(lv.is_empty() || lv.len() == want, "{} vectors of level {} instead of {}", lv.len(), v, want);
                    for p in z.extract(&ss).into_iter().chain(lv) {
                        let s: usize = (0..n).map(|v| p[&nm(v)]).sum();
                        ensure!(s as i64 == v, "a vector of value {} has sum {}", v, s);
                    }
                }
                distinct(cx, "vectors", k, tot)
            },
        );
    }
}

pub fn zdd_forms() -> Vec<Form> {
    let k = [(B01, K1)];
    vec![
        form(Op::Union, 0, B01, &k, B01, |f, c| f | c[0]),
        form(Op::Union, 1, B01, &k, B01, |f, c| f | c[0]),
        form(Op::Intersect, 0, B01, &k, B01, |f, c| f & c[0]),
        form(Op::Intersect, 1, B01, &k, B01, |f, c| f & c[0]),
        form(Op::Setdiff, 0, B01, &k, B01, |f, c| f & !c[0]),
        form(Op::Setdiff, 1, B01, &k, B01, |f, c| c[0] & !f),
        // with the family { {} }: every set times the empty set
        form(Op::Product, 0, B01, &[(B01, 1)], B01, |f, _| f),
        form(Op::Product, 1, B01, &[(B01, 1 << 16)], B01, |f, _| (f | f >> 16) << 16),
        form(Op::Divide, 0, B01, &[(B01, 1 << 16)], B01, |f, _| f >> 16),
    ]
}

pub fn mdd_forms() -> Vec<Form> {
    let mut v = bool_forms(B01);
    v.push(form(Op::Replace, 0, (BOOL, U, 1), &[((BOOL, 1, 0), K1)], B01, |f, c| f | !c[0]));
    v.push(form(Op::Replace, 1, B01, &[((BOOL, U, 1), K1)], B01, |f, c| c[0] | f));
    v
}

pub fn val_forms() -> Vec<Form> {
    let k = [(V01, K1)];
    vec![
        form(Op::Mul, 0, V01, &k, V01, |f, c| f & c[0]),
        form(Op::Mul, 1, V01, &k, V01, |f, c| f & c[0]),
        form(Op::Max, 0, V01, &k, V01, |f, c| f | c[0]),
        form(Op::Max, 1, V01, &k, V01, |f, c| f | c[0]),
        form(Op::Min, 0, V01, &k, V01, |f, c| f & c[0]),
        form(Op::Min, 1, V01, &k, V01, |f, c| f & c[0]),
        form(Op::Add, 0, V01, &[((VALUE, 5, 5), 0)], (VALUE, 5, 6), |f, _| f),
        form(Op::Add, 1, V01, &[((VALUE, 5, 5), 0)], (VALUE, 5, 6), |f, _| f),
        form(Op::Sub, 0, V01, &[((VALUE, 5, 5), 0)], (VALUE, -5, -4), |f, _| f),
        form(Op::Sub, 1, V01, &[((VALUE, 5, 5), 0)], (VALUE, 5, 4), |f, _| f),
        form(Op::Div, 0, (VALUE, 12, 8), &[((VALUE, 4, 4), 0)], (VALUE, 3, 2), |f, _| f),
        form(Op::Div, 1, (VALUE, 3, 2), &[((VALUE, 6, 6), 0)], (VALUE, 2, 3), |f, _| f),
    ]
}
pub fn replace_forms() -> Vec<Form> {
    vec![
        form(Op::Replace, 0, VU1, &[((VALUE, 1, 0), K1)], V01, |f, c| f | !c[0]),
        form(Op::Replace, 1, V01, &[(VU1, K1)], V01, |f, c| c[0] | f),
        form(Op::Rem, 0, (VALUE, 12, 9), &[((VALUE, 4, 4), 0)], V01, |f, _| f),
    ]
}
pub fn cmp_forms() -> Vec<Form> {
    let k = [(V01, K1)];
    let mut v = vec![
        form(Op::Eq, 0, V01, &k, B01, |f, c| !(f ^ c[0])),
        form(Op::Eq, 1, V01, &k, B01, |f, c| !(f ^ c[0])),
        form(Op::Neq, 0, V01, &k, B01, |f, c| f ^ c[0]),
        form(Op::Neq, 1, V01, &k, B01, |f, c| f ^ c[0]),
        form(Op::Lt, 0, V01, &k, B01, |f, c| !f & c[0]),
        form(Op::Lt, 1, V01, &k, B01, |f, c| f & !c[0]),
        form(Op::Lte, 0, V01, &k, B01, |f, c| !f | c[0]),
        form(Op::Lte, 1, V01, &k, B01, |f, c| f | !c[0]),
        form(Op::Gt, 0, V01, &k, B01, |f, c| f & !c[0]),
        form(Op::Gt, 1, V01, &k, B01, |f, c| !f & c[0]),
        form(Op::Gte, 0, V01, &k, B01, |f, c| f | !c[0]),
        form(Op::Gte, 1, V01, &k, B01, |f, c| !f | c[0]),
        form(Op::Ite, 0, B01, &[(V01, K1), (V01, K2)], V01, |f, c| f & c[0] | !f & c[1]),
        form(Op::Ite, 1, V01, &[(B01, K1), (V01, K2)], V01, |f, c| c[0] & f | !c[0] & c[1]),
        form(Op::Ite, 2, V01, &[(B01, K1), (V01, K2)], V01, |f, c| c[0] & c[1] | !c[0] & f),
        form(Op::Vif, 0, B01, &[((VALUE, 1, 1), 0)], VU1, |f, _| f),
        form(Op::Vif, 1, (VALUE, U, 1), &[(B01, K1)], VU1, |f, c| c[0] & f),
    ];
    v.extend(bool_forms(B01));
    v
}
pub fn label_forms() -> Vec<Form> {
    let k = [(VU1, K1)];
    vec![
        form(Op::LIntersect, 0, VU1, &k, VU1, |f, c| f & c[0]),
        form(Op::LIntersect, 1, VU1, &k, VU1, |f, c| f & c[0]),
        form(Op::LSetdiff, 0, VU1, &k, VU1, |f, c| f & !c[0]),
        form(Op::LSetdiff, 1, VU1, &k, VU1, |f, c| c[0] & !f),
    ]
}
