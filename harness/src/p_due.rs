//! C20: every kind of operation on its own keeps the garbage bounded. A large pile of garbage is
//! made while the trigger is out of reach, the trigger is lowered, and then one kind of operation
//! alone is repeated a few times: the pile must be gone.
use crate::core::*;
use crate::cx::Cx;
use crate::refm::*;
use bss::prelude::*;
use mss::prelude::{MddMgr, MddNode, MssMgr, ZmddNode};
use std::collections::{HashMap, HashSet};

const PILE: usize = 30_000;
const WORK: usize = 6_000;
const REPS: usize = 8;

fn reach_bdd(mm: &bddcore::prelude::BddManager, roots: &[usize]) -> usize {
    let mut s: HashSet<usize> = [mm.zero(), mm.one(), mm.undet()].into_iter().collect();
    let mut st = roots.to_vec();
    while let Some(k) = st.pop() {
        if s.insert(k) {
            if let Some(bddcore::prelude::Node::NonTerminal(f)) = mm.get_node(&k) {
                st.extend(f.iter());
            }
        }
    }
    s.len()
}
fn reach_zdd(mm: &bddcore::prelude::ZddManager, roots: &[usize]) -> usize {
    let mut s: HashSet<usize> = [mm.zero(), mm.one(), mm.undet()].into_iter().collect();
    let mut st = roots.to_vec();
    while let Some(k) = st.pop() {
        if s.insert(k) {
            if let Some(bddcore::prelude::Node::NonTerminal(f)) = mm.get_node(&k) {
                st.extend(f.iter());
            }
        }
    }
    s.len()
}
fn reach_mdd(roots: &[&MddNode<i64>]) -> Result<usize, String> {
    let rc = roots[0].get_mgr();
    let mm = rc.borrow();
    let mut s: HashSet<u64> = [enc2(mm.zero()), enc2(mm.one()), enc2(mm.undet_boolean()), enc2(mm.undet_value())].into_iter().collect();
    let mut st: Vec<u64> = roots.iter().map(|h| enc2(h.get_node())).collect();
    while let Some(i) = st.pop() {
        if s.insert(i) {
            if let View::Node(_, ch) = view2(&mm, i)? {
                st.extend(ch);
            }
        }
    }
    Ok(s.len())
}
fn reach_zm(mm: &mddcore::prelude::ZmddManager<i64>, roots: &[usize]) -> Result<usize, String> {
    let mut s: HashSet<usize> = [mm.undet()].into_iter().collect();
    let mut st = roots.to_vec();
    while let Some(n) = st.pop() {
        if s.insert(n) {
            if let View::Node(_, ch) = view_zm(mm, n)? {
                st.extend(ch.into_iter().map(|c| c as usize));
            }
        }
    }
    Ok(s.len())
}

struct Lcg(u64);
impl Lcg {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.0 >> 33
    }
}

fn due(live: usize, reach: usize, thr: usize, pile: usize) -> Result<(), String> {
    ensure!(live >= reach, "{} live nodes, {} reachable", live, reach);
    ensure!(
        live <= thr.max(2 * reach) + WORK,
        "after {} operations at threshold {} {} nodes are live, {} reachable ({} before)",
        REPS, thr, live, reach, pile
    );
    Ok(())
}

// ------------------------------------------------------------------ BDD
/// a fixed pseudo-random function of all variables
fn bfun(x: &[BddNode], r: &mut Lcg) -> BddNode {
    let mut layer: Vec<BddNode> = (0..1usize << (x.len() - 2))
        .map(|_| {
            let (a, b) = (&x[0], &x[1]);
            match r.next() % 8 {
                0 => a.and(b),
                1 => a.or(b),
                2 => a.xor(b),
                3 => a.clone(),
                4 => b.clone(),
                5 => a.not(),
                6 => a.and(&b.not()),
                _ => b.and(&a.not()),
            }
        })
        .collect();
    for v in &x[2..] {
        layer = layer.chunks(2).map(|c| v.ite(&c[0], &c[1])).collect();
    }
    layer.pop().unwrap()
}
type BOp = (&'static str, fn(&mut BddMgr, &[BddNode], &[BddNode], usize) -> BddNode);
const BOPS: [BOp; 12] = [
    ("and", |_, _, f, i| f[i].and(&f[i + 1])),
    ("or", |_, _, f, i| f[i].or(&f[i + 1])),
    ("xor", |_, _, f, i| f[i].xor(&f[i + 1])),
    ("not", |_, _, f, i| f[i].not()),
    ("ite", |_, _, f, i| f[i].ite(&f[i + 1], &f[i + 2])),
    ("dual", |_, _, f, i| f[i].dual()),
    ("manager and", |m, _, f, i| m.and(&f[i..i + 3])),
    ("manager or", |m, _, f, i| m.or(&f[i..i + 3])),
    ("manager kofn", |m, _, f, i| m.kofn(2, &f[i..i + 4])),
    ("manager rpn", |m, _, _, i| m.rpn(["x0 x1 & x2 |", "x3 x4 ^ x5 &", "x0 x1 x2 ?", "x4 ~ x5 |"][i % 4]).unwrap()),
    ("manager create_node", |m, x, _, i| m.create_node(x[5].get_header().unwrap(), &x[i % 5], &x[(i + 1) % 5])),
    ("children", |_, _, f, i| f[i].get_children().unwrap().0.and(&f[i])),
];
fn bdd(cx: &mut Cx) {
    for (name, op) in BOPS {
        for thr in [1usize, 500] {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("BDD: a pile of garbage, then {} alone at threshold {}", name, thr),
                |cx| {
                    let mut m = BddMgr::new();
                    let x: Vec<BddNode> = (0..9).map(|v| m.defvar(&format!("x{}", v))).collect();
                    m.set_gc_threshold(usize::MAX / 4);
                    let mut r = Lcg(7);
                    let f: Vec<BddNode> = (0..REPS + 4).map(|_| bfun(&x, &mut r)).collect();
                    while m.live_node_count() < PILE {
                        bfun(&x, &mut r);
                        cx.states(1);
                    }
                    m.set_gc_threshold(thr);
                    let mut out = vec![];
                    for i in 0..REPS {
                        out.push(op(&mut m, &x, &f, i));
                        cx.trans(1);
                    }
                    let roots: Vec<usize> = x.iter().chain(&f).chain(&out).map(|h| h.get_id()).collect();
                    let reach = reach_bdd(&x[0].get_mgr().borrow(), &roots);
                    due(m.live_node_count(), reach, thr, PILE)
                },
            );
        }
    }
}

// ------------------------------------------------------------------ ZDD
fn zfun(x: &[ZddNode], base: &ZddNode, r: &mut Lcg) -> ZddNode {
    let mut layer: Vec<ZddNode> = (0..1usize << (x.len() - 2))
        .map(|_| {
            let (a, b) = (&x[0], &x[1]);
            match r.next() % 8 {
                0 => a.union(b),
                1 => a.product(b),
                2 => a.product(b).union(base),
                3 => a.clone(),
                4 => b.clone(),
                5 => a.union(base),
                6 => b.union(base),
                _ => base.clone(),
            }
        })
        .collect();
    for v in &x[2..] {
        layer = layer.chunks(2).map(|c| v.product(&c[0]).union(&c[1])).collect();
    }
    layer.pop().unwrap()
}
type ZOp = (&'static str, fn(&mut ZddMgr, &[ZddNode], &[ZddNode], usize) -> ZddNode);
const ZOPS: [ZOp; 7] = [
    ("union", |_, _, f, i| f[i].union(&f[i + 1])),
    ("intersect", |_, _, f, i| f[i].intersect(&f[i + 1])),
    ("setdiff", |_, _, f, i| f[i].setdiff(&f[i + 1])),
    ("product", |_, x, f, i| f[i].product(&x[i % 6])),
    ("divide", |_, x, f, i| f[i].divide(&x[i % 6])),
    ("from_sets", |m, _, _, i| m.from_sets(&[vec![nm(i % 6)], vec![nm(5), nm((i + 1) % 4)]])),
    ("singleton", |m, _, _, i| m.singleton(&nm(i % 6))),
];
fn zdd(cx: &mut Cx) {
    for (name, op) in ZOPS {
        for thr in [1usize, 500] {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("ZDD: a pile of garbage, then {} alone at threshold {}", name, thr),
                |cx| {
                    let mut m = ZddMgr::new();
                    let x: Vec<ZddNode> = (0..8).map(|v| m.singleton(&nm(v))).collect();
                    let base = m.base();
                    m.set_gc_threshold(usize::MAX / 4);
                    let mut r = Lcg(9);
                    let f: Vec<ZddNode> = (0..REPS + 4).map(|_| zfun(&x, &base, &mut r)).collect();
                    while m.live_node_count() < PILE {
                        zfun(&x, &base, &mut r);
                        cx.states(1);
                    }
                    m.set_gc_threshold(thr);
                    let mut out = vec![];
                    for i in 0..REPS {
                        out.push(op(&mut m, &x, &f, i));
                        cx.trans(1);
                    }
                    let roots: Vec<usize> = x.iter().chain(&f).chain(&out).map(|h| h.get_id()).collect();
                    let reach = reach_zdd(&x[0].get_mgr().borrow(), &roots);
                    due(m.live_node_count(), reach, thr, PILE)
                },
            );
        }
    }
    // families produced from structure functions
    for thr in [1usize, 500] {
        for cut in [false, true] {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("ZDD: a pile of garbage, then {} alone at threshold {}", if cut { "mincut" } else { "minpath" }, thr),
                |cx| {
                    let mut m = BssMgr::new();
                    let x: Vec<BddNode> = (0..12).map(|v| m.defvar(&nm(v))).collect();
                    m.zdd().set_gc_threshold(usize::MAX / 4);
                    // garbage in the family forest: the families of k-of-n systems, dropped at once
                    let mut r = Lcg(3);
                    let mut n = 0;
                    while m.zdd().live_node_count() < PILE {
                        let w: Vec<BddNode> = (0..9).map(|_| m.and(&[x[r.next() as usize % 12].clone(), x[r.next() as usize % 12].clone()])).collect();
                        let phi = m.kofn(3 + r.next() as usize % 3, &w);
                        let mut z = m.minpath(&phi).ok_or("None for a monotone function")?;
                        for _ in 0..4 {
                            let w: Vec<BddNode> = (0..9).map(|_| x[r.next() as usize % 12].clone()).collect();
                            z = z.union(&m.minpath(&m.kofn(4, &w)).ok_or("None for a monotone function")?);
                        }
                        n += 1;
                        ensure!(n < 20_000, "cannot make garbage: {}", m.zdd().live_node_count());
                        cx.states(1);
                    }
                    let phi: Vec<BddNode> = (0..REPS).map(|i| m.kofn(3, &x[i % 4..i % 4 + 5 + i / 4])).collect();
                    m.zdd().set_gc_threshold(thr);
                    let mut out: Vec<ZddNode> = vec![];
                    for p in &phi {
                        out.push(if cut { m.mincut(p) } else { m.minpath(p) }.ok_or("None for a monotone function")?);
                        cx.trans(1);
                    }
                    let roots: Vec<usize> = out.iter().map(|h| h.get_id()).collect();
                    let reach = reach_zdd(&out[0].get_mgr().borrow(), &roots);
                    due(m.zdd().live_node_count(), reach, thr, PILE)
                },
            );
        }
    }
}

// ------------------------------------------------------------------ MDD
type H = MddNode<i64>;
fn mfun(m: &MddMgr<i64>, x: &[H], r: &mut Lcg) -> H {
    let mut f = m.value(0);
    for (v, h) in x.iter().enumerate() {
        let w = h.mul(&m.value(1 + (r.next() % 7) as i64));
        f = match r.next() % 4 {
            0 => f.max(&w),
            1 => f.add(&w),
            _ => f.add(&w.mul(&m.value(v as i64 + 1))),
        };
    }
    f
}
type MOp = (&'static str, fn(&mut MddMgr<i64>, &[H], &[H], &[H], usize) -> H);
const MOPS: [MOp; 26] = [
    ("add", |_, _, f, _, i| f[i].add(&f[i + 1])),
    ("sub", |_, _, f, _, i| f[i].sub(&f[i + 1])),
    ("mul", |_, x, f, _, i| f[i].mul(&x[i % 4])),
    ("div", |m, _, f, _, i| f[i].div(&m.value(2))),
    ("min", |_, _, f, _, i| f[i].min(&f[i + 1])),
    ("max", |_, _, f, _, i| f[i].max(&f[i + 1])),
    ("eq", |_, _, f, _, i| f[i].eq(&f[i + 1])),
    ("ne", |_, _, f, _, i| f[i].ne(&f[i + 1])),
    ("lt", |_, _, f, _, i| f[i].lt(&f[i + 1])),
    ("le", |_, _, f, _, i| f[i].le(&f[i + 1])),
    ("gt", |_, _, f, _, i| f[i].gt(&f[i + 1])),
    ("ge", |_, _, f, _, i| f[i].ge(&f[i + 1])),
    ("and", |_, _, _, g, i| g[i].and(&g[i + 1])),
    ("or", |_, _, _, g, i| g[i].or(&g[i + 1])),
    ("xor", |_, _, _, g, i| g[i].xor(&g[i + 1])),
    ("not", |_, _, _, g, i| g[i].not()),
    ("ite of values", |_, _, f, g, i| g[i].ite(&f[i], &f[i + 1])),
    ("ite of Booleans", |_, _, _, g, i| g[i].ite(&g[i + 1], &g[i + 2])),
    ("manager and", |m, _, _, g, i| m.and(&g[i..i + 3])),
    ("manager or", |m, _, _, g, i| m.or(&g[i..i + 3])),
    ("manager min", |m, _, f, _, i| m.min(&f[i..i + 3])),
    ("manager max", |m, _, f, _, i| m.max(&f[i..i + 3])),
    ("manager rpn", |m, _, _, _, i| m.rpn(["x0 x1 +", "x0 x1 * x2 +", "x0 x1 >= x2 x3 ?", "x2 x3 max 1 -"][i % 4], &ranges()).unwrap()),
    ("manager rpn giving Booleans", |m, _, _, _, i| m.rpn(["x0 x1 <", "x0 1 == x2 1 >= &&", "x0 x1 != !", "x2 x3 > x0 1 == ||"][i % 4], &ranges()).unwrap()),
    ("manager create_node", |m, x, f, _, i| m.create_node(x[4].get_header().unwrap(), &[x[i % 3].clone(), x[(i + 1) % 3].clone(), f[0].value().map(|v| m.value(v)).unwrap_or(x[3].clone())])),
    ("manager value", |m, _, _, _, i| m.value(1_000_000 + i as i64)),
];
fn ranges() -> HashMap<String, usize> {
    (0..5).map(|v| (format!("x{}", v), 3)).collect()
}
fn mdd(cx: &mut Cx) {
    for (name, op) in MOPS {
        for (thr, values) in [(1usize, true), (500, true), (1, false), (500, false)] {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("MDD: a pile of {} garbage, then {} alone at threshold {}", if values { "value" } else { "Boolean" }, name, thr),
                |cx| {
                    let mut m: MddMgr<i64> = MddMgr::new();
                    let x: Vec<H> = (0..5).map(|v| m.defvar(&format!("x{}", v), 3)).collect();
                    m.set_gc_threshold(usize::MAX / 4);
                    let mut r = Lcg(5);
                    let f: Vec<H> = (0..REPS + 4).map(|_| mfun(&m, &x, &mut r)).collect();
                    let g: Vec<H> = (0..REPS + 4).map(|_| mfun(&m, &x, &mut r).lt(&mfun(&m, &x, &mut r))).collect();
                    m.gc(&[]);
                    while m.live_node_count() < PILE {
                        let (a, b) = (mfun(&m, &x, &mut r), mfun(&m, &x, &mut r));
                        if !values {
                            for k in 1..25 {
                                let h = a.add(&m.value(k)).lt(&b);
                                for g in &g {
                                    h.xor(g);
                                }
                            }
                        }
                        cx.states(1);
                    }
                    m.set_gc_threshold(thr);
                    let mut out = vec![];
                    for i in 0..REPS {
                        out.push(op(&mut m, &x, &f, &g, i));
                        cx.trans(1);
                    }
                    let roots: Vec<&H> = x.iter().chain(&f).chain(&g).chain(&out).collect();
                    let reach = reach_mdd(&roots)?;
                    due(m.live_node_count(), reach, thr, PILE)
                },
            );
        }
    }
}

// ------------------------------------------------------------------ families of a system manager
fn zmdd(cx: &mut Cx) {
    for cut in [false, true] {
        for (name, op) in [
            ("intersect", (|a, b| a.intersect(b)) as fn(&ZmddNode<i64>, &ZmddNode<i64>) -> ZmddNode<i64>),
            ("setdiff", |a, b| a.setdiff(b)),
        ] {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("{} families: {} alone, every result dropped", if cut { "cut" } else { "path" }, name),
                |cx| {
                    let mut m: MssMgr<i64> = MssMgr::new();
                    let x: Vec<H> = (0..6).map(|v| m.defvar(&nm(v), 4)).collect();
                    let mut r = Lcg(11);
                    let fam: Vec<ZmddNode<i64>> = (0..30)
                        .map(|_| {
                            let mut s = m.value(0);
                            for h in &x {
                                s = s.add(&h.mul(&m.value(1 + (r.next() % 3) as i64)));
                            }
                            if cut { m.mincut(&s) } else { m.minpath(&s) }.ok_or("None for a monotone function")
                        })
                        .collect::<Result<_, _>>()?;
                    let roots: Vec<usize> = fam.iter().map(|h| h.get_id()).collect();
                    let reach = reach_zm(&fam[0].get_mgr().borrow(), &roots)?;
                    let mut made = 0;
                    let mut prev = fam[0].get_mgr().borrow().live_node_count();
                    for a in &fam {
                        for b in &fam {
                            let c = op(a, b);
                            for d in [&fam[1], &fam[7], &fam[13], &fam[22]] {
                                op(d, &c);
                                let live = fam[0].get_mgr().borrow().live_node_count();
                                made += live.saturating_sub(prev);
                                prev = live;
                                ensure!(live <= (1usize << 16).max(2 * (reach + WORK)) + WORK, "{} nodes live, {} reachable from the kept families; {} nodes made", live, reach, made);
                            }
                            cx.trans(5);
                        }
                    }
                    cx.states(made as u64);
                    Ok(())
                },
            );
        }
    }
}

pub fn due_after_each(cx: &mut Cx) {
    bdd(cx);
    zdd(cx);
    mdd(cx);
    zmdd(cx);
}
