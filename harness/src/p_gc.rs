//! Garbage-collection histories: C02 (BDD), C04 (ZDD), C08 (multi-valued), C20 (exactness and
//! bounds of collection).
use crate::core::*;
use crate::cx::{at, Cx, Res};
use crate::eng::*;
use crate::p_bdd::{all_bool, build_h, eval_bdd, table_h};
use crate::refm::*;
use bss::prelude::{BddMgr, BddNode, ZddMgr, ZddNode};
use common::prelude::*;
use mss::prelude::{MddMgr, MddNode, MssMgr, ZmddNode};
use std::collections::{HashMap, HashSet, VecDeque};
use std::rc::Rc;

// ------------------------------------------------------------------ BDD handle machine
pub struct BddMachine {
    m: BddMgr,
    x: Vec<BddNode>,
    r: [Option<(BddNode, u8)>; 2],
    it: Option<(bss::prelude::BddPath, u8, usize, Vec<Vec<String>>)>,
    extra: usize,
    gced: bool,
}

const XT: [u8; 3] = [0xaa, 0xcc, 0xf0];

fn cof(t: u8, v: usize, d: bool) -> u8 {
    // cofactor of a 3-variable truth table
    let st = 1 << v;
    let mut o = 0;
    for p in 0..8 {
        let q = if d { p | st } else { p & !st };
        o |= (t >> q & 1) << p;
    }
    o
}
fn topv(t: u8) -> Option<usize> {
    (0..3).rev().find(|&v| cof(t, v, false) != cof(t, v, true))
}

/// Reference enumeration: the assignments of the variables up to the topmost one the function
/// depends on.
fn ref_paths(t: u8, sel: &[bool]) -> Vec<Vec<String>> {
    let n = topv(t).map_or(0, |v| v + 1);
    (0..1u8 << n)
        .filter(|q| sel.contains(&(t >> q & 1 == 1)))
        .map(|q| (0..n).map(|v| format!("{}{}", if q >> v & 1 == 1 { "" } else { "~" }, nm(v))).collect())
        .collect()
}

/// A reference point covered by a reported path?
fn path_points(p: &[String]) -> Option<u8> {
    let mut o = 0u8;
    'pt: for q in 0..8u8 {
        for l in p {
            let (neg, n) = match l.strip_prefix('~') {
                Some(r) => (true, r),
                None => (false, l.as_str()),
            };
            let v: usize = vi(n)?;
            if (q >> v & 1 == 1) == neg {
                continue 'pt;
            }
        }
        o |= 1 << q;
    }
    Some(o)
}

impl BddMachine {
    fn set(&mut self, i: usize, h: BddNode, t: u8) -> bool {
        self.r[i] = Some((h, t));
        true
    }
}

impl Machine for BddMachine {
    const NAME: &'static str = "BddMgr";
    fn new() -> Self {
        let mut m = BddMgr::new();
        let x = (0..3).map(|v| m.defvar(&nm(v))).collect();
        BddMachine { m, x, r: [None, None], it: None, extra: 0, gced: false }
    }
    fn n_actions() -> usize {
        26
    }
    fn name(a: usize) -> &'static str {
        [
            "r0=x0&x1", "r0=x1^x2", "r0=r0|r1", "r0=r0&x2", "r1=r0^x0", "r1=!r0", "r1=ite(r0,x1,r1)",
            "r1=clone r0", "r0=clone r1", "drop r0", "drop r1", "r0=high child of r0",
            "r1=low child of r0", "gc()", "gc(keep r0)", "gc threshold 1", "gc threshold 2^20",
            "clear_cache", "temporary 2-of-3", "r1=rpn(x0 x1 & x2 |)", "analyses of r0",
            "r0=ite(x0,r1,x2)", "defvar new", "iterate r0 from here", "r1=create_node(x2,r0,r1)", "r0=dual r0",
        ][a]
    }
    fn act(&mut self, a: usize) -> Result<bool, String> {
        let (a0, a1) = (self.r[0].clone(), self.r[1].clone());
        macro_rules! need { ($x:expr) => { match $x { Some(v) => v, None => return Ok(false) } } }
        let x = |i: usize| self.x[i].clone();
        Ok(match a {
            0 => { let h = x(0).and(&x(1)); self.set(0, h, XT[0] & XT[1]) }
            1 => { let h = x(1).xor(&x(2)); self.set(0, h, XT[1] ^ XT[2]) }
            2 => { let ((p, s), (q, t)) = (need!(a0), need!(a1)); let h = p.or(&q); self.set(0, h, s | t) }
            3 => { let (p, s) = need!(a0); let h = p.and(&x(2)); self.set(0, h, s & XT[2]) }
            4 => { let (p, s) = need!(a0); let h = p.xor(&x(0)); self.set(1, h, s ^ XT[0]) }
            5 => { let (p, s) = need!(a0); let h = p.not(); self.set(1, h, !s) }
            6 => { let ((p, s), (q, t)) = (need!(a0), need!(a1)); let h = p.ite(&x(1), &q); self.set(1, h, (s & XT[1]) | (!s & t)) }
            7 => { let (p, s) = need!(a0); self.set(1, p, s) }
            8 => { let (p, s) = need!(a1); self.set(0, p, s) }
            9 => { need!(a0); self.r[0] = None; true }
            10 => { need!(a1); self.r[1] = None; true }
            11 => { let (p, s) = need!(a0); let v = need!(topv(s)); let c = p.get_children().ok_or("no children")?; self.set(0, c.1, cof(s, v, true)) }
            12 => { let (p, s) = need!(a0); let v = need!(topv(s)); let c = p.get_children().ok_or("no children")?; self.set(1, c.0, cof(s, v, false)) }
            13 => { drop((a0, a1)); self.m.gc(&[]); self.gced = true; true }
            14 => { let (p, _) = need!(a0); drop(a1); self.m.gc(&[&p]); true }
            15 => { self.m.set_gc_threshold(1); true }
            16 => { self.m.set_gc_threshold(1 << 20); true }
            17 => { self.m.clear_cache(); true }
            18 => { let h = self.m.kofn(2, &[x(0), x(1), x(2)]); ensure!(table_h(&h, 3) == bits(8, 0b11101000), "2-of-3"); true }
            19 => { let h = self.m.rpn(&format!("{} {} & {} |", nm(0), nm(1), nm(2)))?; self.set(1, h, (XT[0] & XT[1]) | XT[2]) }
            20 => {
                let (p, s) = need!(a0);
                let pv: HashMap<String, f64> = (0..3).map(|v| (nm(v), 0.5)).collect();
                let pr: f64 = p.prob(&pv, &[true]);
                ensure!(pr == s.count_ones() as f64 / 8.0, "prob {} of {:#x}", pr, s);
                let _ = p.bmeas(&pv, &[true]);
                let _ = p.bdd_count(&[true]);
                let _ = p.size();
                let _ = p.dot();
                let du = p.dual();
                let mut e = 0u8;
                for q in 0..8 { e |= (1 - (s >> (7 - q) & 1)) << q; }
                ensure!(table_h(&du, 3) == bits(8, e as u64), "dual of {:#x}", s);
                true
            }
            21 => { let (q, t) = need!(a1); let h = x(0).ite(&q, &x(2)); self.set(0, h, (XT[0] & t) | (!XT[0] & XT[2])) }
            22 => { self.extra += 1; let n = format!("new{}", self.extra); let y = self.m.defvar(&n); ensure!(y.get_label() == Some(n), "label of new variable"); true }
            23 => { let (p, s) = need!(a0); if self.it.is_some() { return Ok(false); } self.it = Some((p.bdd_extract(&[true]), s, 0, vec![])); true }
            24 => {
                let ((p, s), (q, t)) = (need!(a0), need!(a1));
                // only legal when both are below x2
                if topv(s) == Some(2) || topv(t) == Some(2) { return Ok(false); }
                let h = self.m.create_node(x(2).get_header().unwrap(), &p, &q);
                self.set(1, h, (s & !XT[2]) | (t & XT[2]))
            }
            25 => {
                let (p, s) = need!(a0);
                let mut e = 0u8;
                for q in 0..8 { e |= (1 - (s >> (7 - q) & 1)) << q; }
                let h = p.dual();
                self.set(0, h, e)
            }
            _ => unreachable!(),
        })
    }
    fn check(&mut self) -> Res {
        if let Some((it, _, _, got)) = &mut self.it {
            if let Some(p) = it.next() {
                got.push(p);
            }
        }
        for (v, x) in self.x.iter().enumerate() {
            ensure!(table_h(x, 3) == bits(8, XT[v] as u64), "variable x{} changed", v);
        }
        for (i, r) in self.r.iter().enumerate() {
            if let Some((h, t)) = r {
                let g = table_h(h, 3);
                ensure!(g == bits(8, *t as u64), "handle r{} denotes {:?} instead of {:?}", i, g, bits(8, *t as u64));
                for (v, x) in self.x.iter().enumerate() {
                    ensure!(h.eq(x) == (*t == XT[v]), "r{} == x{}", i, v);
                }
            }
        }
        if let [Some((a, s)), Some((b, t))] = &self.r {
            ensure!(a.eq(b) == (s == t), "r0 == r1 although functions {:#x} and {:#x}", s, t);
        }
        Ok(())
    }
    fn reset(&mut self) {
        self.r = [None, None];
        self.it = None;
        self.m.set_gc_threshold(1 << 20);
        self.m.gc(&[]);
    }
    fn finish(&mut self) -> Res {
        if let Some((mut it, t, _, mut got)) = self.it.take() {
            for p in it.by_ref() {
                got.push(p);
            }
            let mut pts = 0u8;
            for p in &got {
                let c = path_points(p).ok_or_else(|| format!("odd path {:?}", p))?;
                ensure!(pts & c == 0, "overlapping paths {:?}", got);
                pts |= c;
            }
            ensure!(pts == t, "paths of {:#x} extracted across the history: {:?}", t, got);
            ensure!(got.len() == ref_paths(t, &[true]).len(), "paths of {:#x}: {:?}", t, got);
        }
        for r in self.r.iter().flatten() {
            let h = build_h(&self.m, &self.x, &bits(8, r.1 as u64));
            ensure!(h.eq(&r.0), "rebuilding {:#x} gives another node", r.1);
        }
        let ex = self.exact();
        self.m.set_gc_threshold(1 << 20);
        self.m.gc(&[]);
        ensure!(self.m.live_node_count() == ex, "{} live after gc, {} reachable", self.m.live_node_count(), ex);
        self.check()
    }
}

impl BddMachine {
    fn exact(&self) -> usize {
        let rc = self.x[0].get_mgr();
        let m = rc.borrow();
        let mut s: HashSet<usize> = [m.zero(), m.one(), m.undet()].into_iter().collect();
        let mut st: Vec<usize> = self.x.iter().map(|h| h.get_id()).collect();
        st.extend(self.r.iter().flatten().map(|h| h.0.get_id()));
        let mut n = 0;
        while let Some(i) = st.pop() {
            if s.insert(i) {
                if let Some(bddcore::prelude::Node::NonTerminal(f)) = m.get_node(&i) {
                    st.extend(f.iter());
                }
            }
        }
        n += s.len();
        n + self.extra
    }
}

pub fn bool_shapes(fs: Rc<Vec<Fun>>, aux: &[Fun], ite: bool) -> Vec<Shape> {
    let mut v = vec![];
    let n = aux.len();
    for (i, a) in aux.iter().enumerate() {
        let b = &aux[(i + 1) % n];
        for op in [Op::And, Op::Or, Op::Xor] {
            v.push(Shape { op, pos: i % 2, aux: vec![a.clone()], fs: fs.clone() });
        }
        if ite {
            for pos in 0..3 {
                v.push(Shape { op: Op::Ite, pos, aux: vec![a.clone(), b.clone()], fs: fs.clone() });
            }
        }
    }
    v.push(Shape { op: Op::Not, pos: 0, aux: vec![], fs });
    v
}

/// Which of the nodes just built are kept by a collection (bits: F, R, operands, new manager).
pub fn masks(thorough: bool) -> &'static [u32] {
    if thorough {
        &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]
    } else {
        &[0, 2, 6, 12]
    }
}

pub fn shapes_bdd(thorough: bool) -> Vec<Shape> {
    let dom = Dom::new(&[2; 3]);
    let lits: Vec<Fun> = (0..3).map(|v| Fun::b(dom.var(v))).collect();
    let sh = bool_shapes(Rc::new(all_bool(3)), &lits, true);
    if thorough {
        sh
    } else {
        sh.into_iter().enumerate().filter(|(i, _)| i % 2 == 0 || *i > 12).map(|x| x.1).collect()
    }
}

pub fn shapes_zdd(thorough: bool) -> Vec<Shape> {
    let f3 = Rc::new(all_bool(3));
    let aux: Vec<Fun> = [0x02u64, 0x14, 0x01, 0x86].iter().map(|&x| Fun::b(bits(8, x))).collect();
    let mut sh = vec![];
    for (i, a) in aux.iter().enumerate() {
        for op in ZddC::OPS {
            for pos in 0..2 {
                if *op == Op::Divide && pos == 1 {
                    continue;
                }
                if thorough || (i + pos) % 2 == 0 {
                    sh.push(Shape { op: *op, pos, aux: vec![a.clone()], fs: f3.clone() });
                }
            }
        }
    }
    // division with every divisor (the empty one excluded)
    let nz = Rc::new(f3[1..].to_vec());
    sh.push(Shape { op: Op::Divide, pos: 1, aux: vec![Fun::b(bits(8, 0xee))], fs: nz });
    sh
}

fn mdd_funs() -> (Rc<Vec<Fun>>, Vec<Fun>) {
    let fb = Rc::new(all_tables(6, &[0, 1]).into_iter().map(Fun::b).collect::<Vec<_>>());
    let bl = [0b101010u64, 0b111100, 0b001100, 0b010110].iter().map(|&x| Fun::b(bits(6, x))).collect();
    (fb, bl)
}

fn mt_funs() -> (Rc<Vec<Fun>>, Vec<Fun>) {
    let d = Dom::new(&[2, 3]);
    let fv = Rc::new(all_tables(6, &[0, 3]).into_iter().map(Fun::v).collect::<Vec<_>>());
    (fv, vec![Fun::v(d.var(0)), Fun::v(d.var(1)), Fun::v(vec![1, 0, 5, 2, 2, 7])])
}

/// Over (2, 3), as the shapes below.
pub fn shapes_mdd() -> Vec<Shape> {
    let (fb, bl) = mdd_funs();
    let mut sh = bool_shapes(fb, &bl, true);
    // replace over partial functions
    let part = Rc::new(all_tables(6, &[0, U]).into_iter().map(Fun::b).collect::<Vec<_>>());
    sh.push(Shape { op: Op::Replace, pos: 0, aux: vec![bl[3].clone()], fs: part });
    sh
}

pub fn shapes_mt() -> Vec<Shape> {
    let (fv, vl) = mt_funs();
    let mut sh = vec![];
    for a in &vl {
        for (i, op) in MtC::OPS.iter().enumerate() {
            sh.push(Shape { op: *op, pos: i % 2, aux: vec![a.clone()], fs: fv.clone() });
        }
    }
    sh
}

pub fn shapes_mt2() -> Vec<Shape> {
    let (fb, bl) = mdd_funs();
    let (fv, vl) = mt_funs();
    let mut sh = vec![];
    for a in &vl {
        for (i, op) in Mt2C::OPS.iter().enumerate() {
            sh.push(Shape { op: *op, pos: i % 2, aux: vec![a.clone()], fs: fv.clone() });
        }
    }
    for a in &bl[..2] {
        for op in [Op::And, Op::Or, Op::Xor] {
            sh.push(Shape { op, pos: 0, aux: vec![a.clone()], fs: fb.clone() });
        }
        sh.push(Shape { op: Op::Ite, pos: 0, aux: vec![vl[1].clone(), vl[2].clone()], fs: fb.clone() });
        sh.push(Shape { op: Op::Ite, pos: 0, aux: vec![bl[2].clone(), bl[3].clone()], fs: fb.clone() });
        sh.push(Shape { op: Op::Ite, pos: 1, aux: vec![a.clone(), vl[2].clone()], fs: fv.clone() });
        sh.push(Shape { op: Op::Ite, pos: 2, aux: vec![a.clone(), vl[2].clone()], fs: fv.clone() });
        sh.push(Shape { op: Op::Vif, pos: 1, aux: vec![a.clone()], fs: fv.clone() });
    }
    sh.push(Shape { op: Op::Vif, pos: 0, aux: vec![vl[2].clone()], fs: fb.clone() });
    sh.push(Shape { op: Op::Not, pos: 0, aux: vec![], fs: fb.clone() });
    sh
}

pub fn shapes_zm() -> Vec<Shape> {
    let fz = Rc::new(all_tables(6, &[U, 4]).into_iter().map(Fun::v).collect::<Vec<_>>());
    let zl = [Fun::v(vec![4, U, 1, 4, U, 4]), Fun::v(vec![U, 4, 4, 1, 1, U])];
    let mut sh = vec![];
    for a in &zl {
        for op in ZmC::OPS {
            for pos in 0..2 {
                sh.push(Shape { op: *op, pos, aux: vec![a.clone()], fs: fz.clone() });
            }
        }
    }
    sh
}

pub fn c02(cx: &mut Cx) {
    cx.section("all handle histories on a fresh manager");
    let d = if cx.thorough { 5 } else { 4 };
    sequences::<BddMachine>(cx, d);
    cx.section("longer handle histories on one long-lived manager");
    sequences_on::<BddMachine>(cx, &[0, 1, 2, 3, 4, 6, 7, 9, 10, 13, 15, 21], if cx.thorough { 7 } else { 6 });

    cx.section("core: compute, collect, recompute on recycled slots");
    let f3 = Rc::new(all_bool(3));
    let l = Layout::std(&[2; 3]);
    let masks = masks(cx.thorough);
    let sh = shapes_bdd(cx.thorough);
    epochs::<BddC>(cx, &l, &sh, masks);

    cx.section("core: gc with every pair of roots");
    gc_roots::<BddC>(cx, &l, &f3, &[Op::And, Op::Or, Op::Xor, Op::Ite, Op::Not]);

    cx.section("handles: automatic collection at every threshold");
    auto_bdd(cx);
    cx.section("handles: path iterators across collections");
    iter_bdd(cx);
    cx.section("handles: clone and drop counts");
    clones_bdd(cx);
    cx.section("old managers: more than 2^16 collections, clones and handles");
    crate::p_long::bdd_handles(cx);
    crate::p_large::deep_gc::<BddC>(cx, BOOL, 0, 1);
    crate::p_long::ages::<BddC>(cx, &[2; 3], &sh, 66_500);
}

/// Every function is built bottom-up by handle operations while the collector fires at the
/// given live count; everything held must stay exact.
fn auto_bdd(cx: &mut Cx) {
    for thr in 1..24usize {
        for blk in 0..16usize {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("threshold {}: functions {}..{}", thr, blk * 16, blk * 16 + 16),
                |cx| {
                    let mut m = BddMgr::new();
                    let x: Vec<BddNode> = (0..3).map(|v| m.defvar(&nm(v))).collect();
                    m.set_gc_threshold(thr);
                    let mut held: Vec<(BddNode, usize)> = vec![];
                    for f in blk * 16..blk * 16 + 16 {
                        // sum of minterms with handles only
                        let mut s = m.zero();
                        for p in 0..8 {
                            if f >> p & 1 == 1 {
                                let mut t = m.one();
                                for v in 0..3 {
                                    t = if p >> v & 1 == 1 { t.and(&x[v]) } else { t.and(&x[v].not()) };
                                }
                                s = s.or(&t);
                            }
                        }
                        ensure!(table_h(&s, 3) == bits(8, f as u64), "sum of minterms {:#x}", f);
                        let n = s.not();
                        let k = m.kofn(2, &[s.clone(), n.clone(), x[f % 3].clone()]);
                        ensure!(k.eq(&x[f % 3]), "2-of-(f, !f, x) for {:#x}", f);
                        let (a, o) = (m.and(&[s.clone(), x[0].clone(), x[1].clone()]), m.or(&[s.clone(), x[0].clone(), x[1].clone()]));
                        ensure!(table_h(&a, 3) == bits(8, (f & 0x88) as u64), "and with {:#x}", f);
                        ensure!(table_h(&o, 3) == bits(8, (f | 0xee) as u64), "or with {:#x}", f);
                        let i = s.ite(&n, &x[2]);
                        ensure!(i.eq(&n.and(&x[2])), "ite(f,!f,x2) for {:#x}", f);
                        let dd = s.dual().dual();
                        ensure!(dd.eq(&s), "double dual of {:#x}", f);
                        if f % 3 == 0 {
                            held.push((s, f));
                        }
                        for (h, g) in &held {
                            ensure!(table_h(h, 3) == bits(8, *g as u64), "held {:#x} after building {:#x}", g, f);
                        }
                    }
                    cx.states(16);
                    cx.trans(16 * 40);
                    Ok(())
                },
            );
        }
    }
}

fn iter_bdd(cx: &mut Cx) {
    for f in 0..256usize {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("extract of {:#04x}: handle dropped, collections and new nodes after every k-th path", f),
            |cx| {
                for sel in [&[true][..], &[false][..], &[true, false][..]] {
                    let want = ref_paths(f as u8, sel);
                    for k in 0..=want.len() {
                        let mut m = BddMgr::new();
                        let x: Vec<BddNode> = (0..3).map(|v| m.defvar(&nm(v))).collect();
                        let h = build_h(&m, &x, &bits(8, f as u64));
                        let mut it = h.bdd_extract(sel);
                        drop(h);
                        let mut got = vec![];
                        for step in 0.. {
                            if step == k {
                                m.gc(&[]);
                                m.set_gc_threshold(1);
                                for g in [0x96u64, 0xe8, 0x1b, 0x35] {
                                    let _ = build_h(&m, &x, &bits(8, g ^ f as u64));
                                }
                            }
                            match it.next() {
                                Some(p) => got.push(p),
                                None => break,
                            }
                        }
                        let norm = |mut v: Vec<Vec<String>>| {
                            for p in v.iter_mut() {
                                p.sort();
                            }
                            v.sort();
                            v
                        };
                        ensure!(norm(got.clone()) == norm(want.clone()), "collection after {} paths, select {:?}: got {:?}", k, sel, got);
                        cx.traces(1);
                    }
                }
                cx.states(1);
                cx.trans(12);
                Ok(())
            },
        );
    }
}

/// A handle keeps its diagram alive exactly as long as any clone of it lives.
fn clones_bdd(cx: &mut Cx) {
    for n in 1..=6usize {
        for mask in 0..1usize << n {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("{} clones, dropping those in {:#b}, then gc", n, mask),
                |cx| {
                    for drop_orig in [false, true] {
                        let mut m = BddMgr::new();
                        let x: Vec<BddNode> = (0..3).map(|v| m.defvar(&nm(v))).collect();
                        let base = m.live_node_count();
                        let h = x[0].and(&x[1]).xor(&x[2]);
                        let mut cl: Vec<Option<BddNode>> = (0..n).map(|_| Some(h.clone())).collect();
                        for i in 0..n {
                            if mask >> i & 1 == 1 {
                                cl[i] = None;
                            }
                        }
                        let keep = if drop_orig { drop(h); None } else { Some(h) };
                        m.gc(&[]);
                        let alive = cl.iter().flatten().next().or(keep.as_ref());
                        match alive {
                            Some(a) => {
                                ensure!(table_h(a, 3) == bits(8, 0x78), "value lost");
                                // x2 ^ (x0&x1): 2 x0-level.. nodes reachable
                                ensure!(m.live_node_count() > base, "kept nodes not counted");
                            }
                            None => ensure!(m.live_node_count() == base, "{} live, {} expected", m.live_node_count(), base),
                        }
                        let g = x[2].or(&x[0]).and(&x[1]);
                        for c in cl.iter().flatten().chain(keep.iter()) {
                            ensure!(table_h(c, 3) == bits(8, 0x78), "clone changed after new nodes");
                            ensure!(!c.eq(&g), "clone aliases a new node");
                        }
                        ensure!(table_h(&g, 3) == bits(8, (0xf0 | 0xaa) & 0xcc), "new node");
                        cx.traces(1);
                    }
                    cx.trans(2);
                    cx.states(1);
                    Ok(())
                },
            );
        }
    }
}

// ------------------------------------------------------------------ ZDD handle machine
pub fn zdd_table(h: &ZddNode, n: usize, order: &dyn Fn(usize) -> usize) -> Result<u64, String> {
    // order: level -> element bit
    let rc = h.get_mgr();
    let m = rc.borrow();
    fn rec(m: &bddcore::prelude::ZddManager, id: usize, pre: u64, order: &dyn Fn(usize) -> usize, out: &mut u64, top: usize) -> Res {
        match m.get_node(&id) {
            None => return Err("dangling node".into()),
            Some(bddcore::prelude::Node::Zero) => {}
            Some(bddcore::prelude::Node::One) => *out |= 1 << pre,
            Some(bddcore::prelude::Node::Undet) => return Err("undet inside a family".into()),
            Some(bddcore::prelude::Node::NonTerminal(f)) => {
                let l = m.level(&id).ok_or("no level")?;
                ensure!(l < top, "order broken");
                rec(m, f.edge(0), pre, order, out, l)?;
                rec(m, f.edge(1), pre | 1 << order(l), order, out, l)?;
            }
        }
        Ok(())
    }
    let mut out = 0;
    let _ = n;
    rec(&m, h.get_id(), 0, order, &mut out, usize::MAX)?;
    Ok(out)
}
fn zt(h: &ZddNode) -> Result<u8, String> {
    Ok(zdd_table(h, 3, &|l| l)? as u8)
}
/// reference operations on families of subsets of 3 elements, as 8-bit masks
pub fn zref(op: Op, a: u8, b: u8) -> Option<u8> {
    let f = |x: u8| Fun::b(bits(8, x as u64));
    let r = refop(op, &[&f(a), &f(b)]);
    if r.t.iter().any(|&x| x == U) {
        return None;
    }
    Some(r.t.iter().enumerate().map(|(i, &x)| (x as u8) << i).sum())
}

pub struct ZddMachine {
    m: ZddMgr,
    e: Vec<ZddNode>,
    r: [Option<(ZddNode, u8)>; 2],
    it: Option<(bss::prelude::ZddPath, u8, Vec<Vec<String>>)>,
}
const ET: [u8; 3] = [1 << 1, 1 << 2, 1 << 4];

impl Machine for ZddMachine {
    const NAME: &'static str = "ZddMgr";
    fn new() -> Self {
        let mut m = ZddMgr::new();
        let e = (0..3).map(|v| m.singleton(&nm(v))).collect();
        ZddMachine { m, e, r: [None, None], it: None }
    }
    fn n_actions() -> usize {
        25
    }
    fn name(a: usize) -> &'static str {
        [
            "r0={x0}+{x1}", "r0={x1}*{x2}", "r0=r0+r1", "r0=r0*{x2}", "r1=r0-{x0}", "r1=r0/{x1}",
            "r1=r0&r1", "r1=clone r0", "r0=clone r1", "drop r0", "drop r1", "r0=high child of r0",
            "r1=low child of r0", "base + collect now", "gc threshold 1", "gc threshold 2^20",
            "clear_cache", "temporary family", "r1=from_sets", "count/size/dot of r0",
            "iterate r0", "drop singletons", "r1=r1+base", "r0=r1-r0", "r1=r0*r1",
        ][a]
    }
    fn act(&mut self, a: usize) -> Result<bool, String> {
        let (a0, a1) = (self.r[0].clone(), self.r[1].clone());
        macro_rules! need { ($x:expr) => { match $x { Some(v) => v, None => return Ok(false) } } }
        if self.e.is_empty() && matches!(a, 0 | 1 | 3 | 4 | 5) {
            // re-declare the elements
            self.e = (0..3).map(|v| self.m.singleton(&nm(v))).collect();
        }
        let e = |i: usize| self.e[i].clone();
        let z = |op, s, t| zref(op, s, t).unwrap();
        match a {
            0 => { let h = e(0).union(&e(1)); self.r[0] = Some((h, ET[0] | ET[1])); }
            1 => { let h = e(1).product(&e(2)); self.r[0] = Some((h, z(Op::Product, ET[1], ET[2]))); }
            2 => { let ((p, s), (q, t)) = (need!(a0), need!(a1)); self.r[0] = Some((p.union(&q), s | t)); }
            3 => { let (p, s) = need!(a0); let h = p.product(&e(2)); self.r[0] = Some((h, z(Op::Product, s, ET[2]))); }
            4 => { let (p, s) = need!(a0); let h = p.setdiff(&e(0)); self.r[1] = Some((h, s & !ET[0])); }
            5 => { let (p, s) = need!(a0); let h = p.divide(&e(1)); self.r[1] = Some((h, z(Op::Divide, s, ET[1]))); }
            6 => { let ((p, s), (q, t)) = (need!(a0), need!(a1)); self.r[1] = Some((p.intersect(&q), s & t)); }
            7 => { self.r[1] = Some(need!(a0)); }
            8 => { self.r[0] = Some(need!(a1)); }
            9 => { need!(a0); self.r[0] = None; }
            10 => { need!(a1); self.r[1] = None; }
            11 | 12 => {
                let (p, s) = need!(a0);
                // top element of the family
                let v = need!((0..3).rev().find(|&v| (0..8).any(|q| s >> q & 1 == 1 && q >> v & 1 == 1)));
                let (mut lo, mut hi) = (0u8, 0u8);
                for q in 0..8u8 {
                    if s >> q & 1 == 1 {
                        if q >> v & 1 == 1 { hi |= 1 << (q & !(1 << v)) } else { lo |= 1 << q }
                    }
                }
                let c = p.get_children().ok_or("no children")?;
                if a == 11 { self.r[0] = Some((c.1, hi)) } else { self.r[1] = Some((c.0, lo)) }
            }
            13 => { drop((a0, a1)); self.collect()?; }
            14 => self.m.set_gc_threshold(1),
            15 => self.m.set_gc_threshold(1 << 20),
            16 => self.m.clear_cache(),
            17 => { let h = self.m.from_sets(&[vec![nm(2), nm(0)], vec![], vec![nm(1)]]); ensure!(zt(&h)? == 0b100101, "from_sets"); }
            18 => { let h = self.m.from_sets(&[vec![nm(0)], vec![nm(1), nm(0)], vec![nm(2), nm(1), nm(0)]]); self.r[1] = Some((h, 1 << 1 | 1 << 3 | 1 << 7)); }
            19 => { let (p, s) = need!(a0); ensure!(p.count(&[true]) == s.count_ones() as u64, "count of {:#x}", s); let _ = p.size(); let _ = p.dot(); }
            20 => { let (p, s) = need!(a0); if self.it.is_some() { return Ok(false); } self.it = Some((p.extract(&[true]), s, vec![])); }
            21 => { if self.e.is_empty() { return Ok(false); } self.e.clear(); }
            22 => { let (q, t) = need!(a1); self.r[1] = Some((q.union(&self.m.base()), t | 1)); }
            23 => { let ((p, s), (q, t)) = (need!(a0), need!(a1)); self.r[0] = Some((q.setdiff(&p), t & !s)); }
            24 => { let ((p, s), (q, t)) = (need!(a0), need!(a1)); self.r[1] = Some((p.product(&q), z(Op::Product, s, t))); }
            _ => unreachable!(),
        }
        Ok(true)
    }
    fn check(&mut self) -> Res {
        if let Some((it, _, got)) = &mut self.it {
            if let Some(p) = it.next() {
                got.push(p);
            }
        }
        for (v, e) in self.e.iter().enumerate() {
            ensure!(zt(e)? == ET[v], "singleton x{} changed", v);
        }
        for (i, r) in self.r.iter().enumerate() {
            if let Some((h, t)) = r {
                let g = zt(h)?;
                ensure!(g == *t, "handle r{} denotes {:#010b} instead of {:#010b}", i, g, t);
            }
        }
        if let [Some((a, s)), Some((b, t))] = &self.r {
            ensure!(a.eq(b) == (s == t), "r0 == r1 although families {:#x} and {:#x}", s, t);
        }
        Ok(())
    }
    fn reset(&mut self) {
        self.r = [None, None];
        self.it = None;
        self.m.set_gc_threshold(1);
        let _ = self.m.base();
        self.m.set_gc_threshold(1 << 20);
        self.e = (0..3).map(|v| self.m.singleton(&nm(v))).collect();
    }
    fn finish(&mut self) -> Res {
        if let Some((mut it, t, mut got)) = self.it.take() {
            for p in it.by_ref() {
                got.push(p);
            }
            let mut out = 0u8;
            for p in &got {
                let mut q = 0;
                for l in p {
                    q |= 1 << l[1..].parse::<u8>().map_err(|_| format!("odd label {}", l))?;
                }
                ensure!(out >> q & 1 == 0, "set reported twice {:?}", got);
                out |= 1 << q;
            }
            ensure!(out == t, "sets of {:#010b} extracted across the history: {:?}", t, got);
        }
        for i in 0..2 {
            if let Some((h, t)) = self.r[i].clone() {
                let sets: Vec<Vec<String>> = (0..8u8)
                    .filter(|q| t >> q & 1 == 1)
                    .map(|q| (0..3).filter(|v| q >> v & 1 == 1).map(|v| nm(v)).collect())
                    .collect();
                let f = self.m.from_sets(&sets);
                ensure!(f.eq(&h), "rebuilding {:#010b} gives another node", t);
            }
        }
        self.m.set_gc_threshold(1 << 20);
        self.collect()?;
        self.check()
    }
}

impl ZddMachine {
    fn collect(&mut self) -> Res {
        // no explicit collection on this manager: force the automatic one
        self.m.set_gc_threshold(1);
        let b = self.m.base();
        self.m.set_gc_threshold(1 << 20);
        let rc = b.get_mgr();
        let m = rc.borrow();
        let mut s: HashSet<usize> = [m.zero(), m.one(), m.undet()].into_iter().collect();
        let mut st: Vec<usize> = self.e.iter().map(|h| h.get_id()).collect();
        st.extend(self.r.iter().flatten().map(|h| h.0.get_id()));
        while let Some(i) = st.pop() {
            if s.insert(i) {
                if let Some(bddcore::prelude::Node::NonTerminal(f)) = m.get_node(&i) {
                    st.extend(f.iter());
                }
            }
        }
        if self.it.is_none() {
            ensure!(m.live_node_count() == s.len(), "{} live after gc, {} reachable", m.live_node_count(), s.len());
        }
        Ok(())
    }
}

/// A set iterator alone keeps its family: its handle is dropped, then after every k-th set the
/// collector runs at each operation while other families take every free slot.
fn iter_zdd(cx: &mut Cx) {
    for f in 0..256usize {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("extract of family {:#010b}: handle dropped, collections and new families after every k-th set", f),
            |cx| {
                let sets = |q: u8| -> Vec<Vec<String>> {
                    (0..8u8).filter(|s| q >> s & 1 == 1).map(|s| (0..3).filter(|v| s >> v & 1 == 1).map(|v| nm(v)).collect()).collect()
                };
                for sel in [&[true][..], &[false][..], &[true, false][..]] {
                    let want: Vec<Vec<String>> = {
                        let mut m = ZddMgr::new();
                        for v in 0..3 {
                            m.singleton(&nm(v));
                        }
                        let h = m.from_sets(&sets(f as u8));
                        h.extract(sel).collect()
                    };
                    for k in 0..=want.len() {
                        let mut m = ZddMgr::new();
                        for v in 0..3 {
                            m.singleton(&nm(v));
                        }
                        let h = m.from_sets(&sets(f as u8));
                        let mut it = h.extract(sel);
                        drop(h);
                        let mut got = vec![];
                        for step in 0.. {
                            if step == k {
                                m.set_gc_threshold(1);
                                for g in [0x96u8, 0xe8, 0x1b, 0x35] {
                                    let _ = m.from_sets(&sets(g ^ f as u8));
                                }
                            }
                            match it.next() {
                                Some(p) => got.push(p),
                                None => break,
                            }
                        }
                        cx.traces(1);
                        let norm = |mut v: Vec<Vec<String>>| {
                            v.iter_mut().for_each(|p| p.sort());
                            v.sort();
                            v
                        };
                        ensure!(
                            norm(got.clone()) == norm(want.clone()) && it.len() == want.len() as u64,
                            "collection after {} sets, select {:?}: got {:?} (length {}) instead of {:?}",
                            k,
                            sel,
                            got,
                            it.len(),
                            want
                        );
                    }
                }
                cx.states(8);
                cx.trans(40);
                Ok(())
            },
        );
    }
}

pub fn c04(cx: &mut Cx) {
    cx.section("all handle histories on a fresh manager");
    let d = if cx.thorough { 5 } else { 4 };
    sequences::<ZddMachine>(cx, d);
    cx.section("longer handle histories on one long-lived manager");
    sequences_on::<ZddMachine>(cx, &[0, 1, 2, 3, 4, 5, 6, 9, 10, 13, 14, 23], if cx.thorough { 7 } else { 6 });
    cx.section("core: compute, collect, recompute on recycled slots");
    let f3 = Rc::new(all_bool(3));
    let masks = masks(cx.thorough);
    let sh = shapes_zdd(cx.thorough);
    epochs::<ZddC>(cx, &Layout::std(&[2; 3]), &sh, masks);
    cx.section("old managers: more than 2^16 collections, clones and handles");
    crate::p_long::zdd_handles(cx);
    crate::p_large::deep_gc::<ZddC>(cx, BOOL, 0, 1);
    crate::p_long::ages::<ZddC>(cx, &[2; 3], &sh, 66_500);
    cx.section("handles: set iterators across collections");
    iter_zdd(cx);
    cx.section("core: gc with every pair of roots");
    gc_roots::<ZddC>(cx, &Layout::std(&[2; 3]), &f3, &[Op::Union, Op::Intersect, Op::Setdiff, Op::Product]);
    cx.section("handles: automatic collection at every threshold");
    for thr in 1..24usize {
        for blk in 0..16usize {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("threshold {}: families {}..{}", thr, blk * 16, blk * 16 + 16),
                |cx| {
                    let mut m = ZddMgr::new();
                    for v in 0..3 {
                        m.singleton(&nm(v));
                    }
                    m.set_gc_threshold(thr);
                    let mut held: Vec<(ZddNode, u8)> = vec![];
                    for f in blk * 16..blk * 16 + 16 {
                        let f = f as u8;
                        let sets: Vec<Vec<String>> = (0..8u8)
                            .filter(|q| f >> q & 1 == 1)
                            .map(|q| (0..3).filter(|v| q >> v & 1 == 1).map(|v| nm(v)).collect())
                            .collect();
                        let h = m.from_sets(&sets);
                        ensure!(zt(&h)? == f, "from_sets {:#010b} gives {:#010b}", f, zt(&h)?);
                        let g = f.rotate_left(3) ^ 0x35;
                        let gs: Vec<Vec<String>> = (0..8u8)
                            .filter(|q| g >> q & 1 == 1)
                            .map(|q| (0..3).rev().filter(|v| q >> v & 1 == 1).map(|v| nm(v)).collect())
                            .collect();
                        let k = m.from_sets(&gs);
                        for (op, r) in [
                            (Op::Union, h.union(&k)),
                            (Op::Intersect, h.intersect(&k)),
                            (Op::Setdiff, h.setdiff(&k)),
                            (Op::Product, h.product(&k)),
                        ] {
                            ensure!(zt(&r)? == zref(op, f, g).unwrap(), "{:?}({:#x},{:#x})", op, f, g);
                        }
                        if g != 0 {
                            ensure!(zt(&h.divide(&k))? == zref(Op::Divide, f, g).unwrap(), "divide({:#x},{:#x})", f, g);
                        }
                        if f % 3 == 0 {
                            held.push((h, f));
                        }
                        for (h, g) in &held {
                            ensure!(zt(h)? == *g, "held {:#x} after building {:#x}", g, f);
                        }
                    }
                    cx.states(16);
                    cx.trans(16 * 12);
                    Ok(())
                },
            );
        }
    }
}

// ------------------------------------------------------------------ MSS handle machine
/// Table of an MSS handle over the domain (x0: 2 states, x1: 3 states).
pub fn mss_table(h: &MddNode<i64>, sizes: &[usize]) -> Result<Fun, String> {
    let rc = h.get_mgr();
    let m = rc.borrow();
    let d = Dom::new(sizes);
    let id = enc2(h.get_node());
    let mut t = vec![];
    for p in 0..d.points() {
        let dg = d.digits(p);
        let mut x = id;
        loop {
            match view2(&m, x)? {
                View::Term(v) => {
                    t.push(v);
                    break;
                }
                View::Node(l, ch) => {
                    ensure!(l < dg.len() && ch.len() == sizes[l], "odd node at level {}", l);
                    x = ch[dg[l]];
                }
            }
        }
    }
    Ok(Fun { k: (id % 2 == 1) as u8 ^ 1, t })
}

/// Build an MSS handle from a table through the public constructors.
pub fn mss_build(m: &MddMgr<i64>, x: &[MddNode<i64>], f: &Fun, sizes: &[usize]) -> MddNode<i64> {
    fn rec(m: &MddMgr<i64>, x: &[MddNode<i64>], f: &Fun, sizes: &[usize], v: usize, base: usize) -> MddNode<i64> {
        if v == 0 {
            return match (f.k, f.t[base]) {
                (BOOL, U) => m.undet_boolean(),
                (BOOL, b) => m.boolean(b == 1),
                (_, U) => m.undet_value(),
                (_, c) => m.value(c),
            };
        }
        let st: usize = sizes[..v - 1].iter().product();
        let ch: Vec<MddNode<i64>> = (0..sizes[v - 1]).map(|d| rec(m, x, f, sizes, v - 1, base + d * st)).collect();
        m.create_node(x[v - 1].get_header().unwrap(), &ch)
    }
    rec(m, x, f, sizes, sizes.len(), 0)
}

pub struct MssMachine {
    m: MddMgr<i64>,
    x: Vec<MddNode<i64>>,
    r: [Option<(MddNode<i64>, Fun)>; 2],
}
const MS: [usize; 2] = [2, 3];

impl MssMachine {
    fn xt(v: usize) -> Fun {
        Fun::v(Dom::new(&MS).var(v))
    }
}

impl Machine for MssMachine {
    const NAME: &'static str = "MddMgr";
    fn new() -> Self {
        let mut m = MddMgr::new();
        let x = vec![m.defvar(&nm(0), 2), m.defvar(&nm(1), 3)];
        MssMachine { m, x, r: [None, None] }
    }
    fn n_actions() -> usize {
        26
    }
    fn name(a: usize) -> &'static str {
        [
            "r0=x0+x1", "r0=x0<x1", "r0=r0 op r1", "r0=r0*x1 | r0&(x1>=1)", "r1=r0-x0 | r0^(x0==x1)",
            "r1=max(r0,2) | !r0", "r1=ite(x0>=1,r0,r1)", "r1=clone r0", "r0=clone r1", "drop r0",
            "drop r1", "r0=child 1 of r0", "r1=child 0 of r0", "gc()", "gc(keep r0)", "gc threshold 1",
            "gc threshold 2^20", "clear_cache", "temporaries", "r1=rpn", "analyses of r0",
            "r1=ite(r0,x1,x0)", "defvar new", "r0=value 7", "r1=r0==r1", "r0=x1/x0",
        ][a]
    }
    fn act(&mut self, a: usize) -> Result<bool, String> {
        let (a0, a1) = (self.r[0].clone(), self.r[1].clone());
        macro_rules! need { ($x:expr) => { match $x { Some(v) => v, None => return Ok(false) } } }
        let (x0, x1) = (self.x[0].clone(), self.x[1].clone());
        let (t0, t1) = (Self::xt(0), Self::xt(1));
        let hasu = |f: &Fun| f.t.contains(&U);
        let k = |c: i64| Fun::v(vec![c; 6]);
        match a {
            0 => self.r[0] = Some((x0.add(&x1), refop(Op::Add, &[&t0, &t1]))),
            1 => self.r[0] = Some((x0.lt(&x1), refop(Op::Lt, &[&t0, &t1]))),
            2 => {
                let ((p, s), (q, t)) = (need!(a0), need!(a1));
                if s.k != t.k {
                    return Ok(false);
                }
                if s.k == BOOL {
                    if hasu(&s) || hasu(&t) {
                        return Ok(false);
                    }
                    self.r[0] = Some((p.or(&q), refop(Op::Or, &[&s, &t])));
                } else {
                    self.r[0] = Some((p.min(&q), refop(Op::Min, &[&s, &t])));
                }
            }
            3 => {
                let (p, s) = need!(a0);
                if s.k == BOOL {
                    if hasu(&s) {
                        return Ok(false);
                    }
                    let c = refop(Op::Gte, &[&t1, &k(1)]);
                    let ch = x1.ge(&self.m.value(1));
                    self.r[0] = Some((p.and(&ch), refop(Op::And, &[&s, &c])));
                } else {
                    self.r[0] = Some((p.mul(&x1), refop(Op::Mul, &[&s, &t1])));
                }
            }
            4 => {
                let (p, s) = need!(a0);
                if s.k == BOOL {
                    if hasu(&s) {
                        return Ok(false);
                    }
                    let c = refop(Op::Eq, &[&t0, &t1]);
                    let ch = x0.eq(&x1);
                    self.r[1] = Some((p.xor(&ch), refop(Op::Xor, &[&s, &c])));
                } else {
                    self.r[1] = Some((p.sub(&x0), refop(Op::Sub, &[&s, &t0])));
                }
            }
            5 => {
                let (p, s) = need!(a0);
                if s.k == BOOL {
                    self.r[1] = Some((p.not(), refop(Op::Not, &[&s])));
                } else {
                    let h = p.max(&self.m.value(2));
                    self.r[1] = Some((h, refop(Op::Max, &[&s, &k(2)])));
                }
            }
            6 => {
                let ((p, s), (q, t)) = (need!(a0), need!(a1));
                if s.k != t.k {
                    return Ok(false);
                }
                let c = refop(Op::Gte, &[&t0, &k(1)]);
                let ch = x0.ge(&self.m.value(1));
                self.r[1] = Some((ch.ite(&p, &q), refop(Op::Ite, &[&c, &s, &t])));
            }
            7 => self.r[1] = Some(need!(a0)),
            8 => self.r[0] = Some(need!(a1)),
            9 => { need!(a0); self.r[0] = None; }
            10 => { need!(a1); self.r[1] = None; }
            11 | 12 => {
                let (p, s) = need!(a0);
                let d = Dom::new(&MS);
                let v = need!(d.top_var(&s.t));
                let st: usize = MS[..v].iter().product();
                let c = if a == 11 { 1 } else { 0 };
                let t: Vec<i64> = (0..6).map(|q| { let dg = (q / st) % MS[v]; s.t[q - dg * st + c * st] }).collect();
                let ch = p.get_children().ok_or("no children")?;
                ensure!(ch.len() == MS[v], "{} children", ch.len());
                let h = ch[c].clone();
                if a == 11 { self.r[0] = Some((h, Fun { k: s.k, t })) } else { self.r[1] = Some((h, Fun { k: s.k, t })) }
            }
            13 => { drop((a0, a1)); self.m.gc(&[]); }
            14 => { let (p, _) = need!(a0); drop(a1); self.m.gc(&[&p]); }
            15 => self.m.set_gc_threshold(1),
            16 => self.m.set_gc_threshold(1 << 20),
            17 => self.m.clear_cache(),
            18 => {
                let h = self.m.min(&[x1.clone(), self.m.value(1), x0.clone()]);
                ensure!(mss_table(&h, &MS)? == Fun::v(vec![0, 0, 0, 1, 0, 1]), "min of list");
                let b = self.m.or(&[x0.eq(&x1), x1.gt(&self.m.value(1))]);
                ensure!(mss_table(&b, &MS)? == Fun::b(vec![1, 0, 0, 1, 1, 1]), "or of list");
            }
            19 => {
                let vars: HashMap<String, usize> = [(nm(0), 2), (nm(1), 3)].into_iter().collect();
                let h = self.m.rpn(&format!("{0} {1} < {1} {0} 5 + ?", nm(0), nm(1)), &vars)?;
                let c = refop(Op::Lt, &[&t0, &t1]);
                let e = refop(Op::Add, &[&t0, &k(5)]);
                self.r[1] = Some((h, refop(Op::Ite, &[&c, &t1, &e])));
            }
            20 => {
                let (mut p, s) = need!(a0);
                let pv: HashMap<String, Vec<f64>> = [(nm(0), vec![0.5, 0.5]), (nm(1), vec![0.25, 0.25, 0.5])].into_iter().collect();
                let w = [0.125, 0.125, 0.125, 0.125, 0.25, 0.25];
                let pr: f64 = p.prob(&pv, &[1]);
                let e: f64 = (0..6).filter(|&i| s.t[i] == 1).map(|i| w[i]).sum();
                ensure!(pr == e, "prob {} instead of {}", pr, e);
                let _ = p.bmeas(&pv, &[1]);
                let _ = p.mdd_count(&[1].into_iter().collect());
                let _ = p.size();
                let _ = p.dot();
            }
            21 => {
                let (p, s) = need!(a0);
                if s.k != BOOL || hasu(&s) {
                    return Ok(false);
                }
                self.r[1] = Some((p.ite(&x1, &x0), refop(Op::Ite, &[&s, &t1, &t0])));
            }
            22 => {
                let n = format!("new{}", self.m.get_varorder().len());
                self.m.defvar(&n, 2);
            }
            23 => self.r[0] = Some((self.m.value(7), k(7))),
            24 => {
                let ((p, s), (q, t)) = (need!(a0), need!(a1));
                if s.k != VALUE || t.k != VALUE || hasu(&s) || hasu(&t) {
                    return Ok(false);
                }
                self.r[1] = Some((p.eq(&q), refop(Op::Eq, &[&s, &t])));
            }
            25 => self.r[0] = Some((x1.div(&x0), refop(Op::Div, &[&t1, &t0]))),
            _ => unreachable!(),
        }
        Ok(true)
    }
    fn check(&mut self) -> Res {
        for (v, x) in self.x.iter().enumerate() {
            ensure!(mss_table(x, &MS)? == Self::xt(v), "variable x{} changed", v);
        }
        for (i, r) in self.r.iter().enumerate() {
            if let Some((h, t)) = r {
                let g = mss_table(h, &MS)?;
                ensure!(g == *t, "handle r{} denotes {} instead of {}", i, g.show(), t.show());
            }
        }
        if let [Some((a, s)), Some((b, t))] = &self.r {
            ensure!((a.get_node() == b.get_node()) == (s == t), "node identity of r0={} and r1={}", s.show(), t.show());
        }
        Ok(())
    }
    fn reset(&mut self) {
        self.r = [None, None];
        self.m.set_gc_threshold(1 << 20);
        self.m.gc(&[]);
    }
    fn finish(&mut self) -> Res {
        for (h, t) in self.r.iter().flatten() {
            let b = mss_build(&self.m, &self.x, t, &MS);
            ensure!(b.get_node() == h.get_node(), "rebuilding {} gives another node", t.show());
        }
        let ex = self.exact()?;
        self.m.set_gc_threshold(1 << 20);
        self.m.gc(&[]);
        ensure!(self.m.live_node_count() == ex, "{} live after gc, {} reachable", self.m.live_node_count(), ex);
        self.check()
    }
}

impl MssMachine {
    fn exact(&self) -> Result<usize, String> {
        let rc = self.x[0].get_mgr();
        let m = rc.borrow();
        let mut s: HashSet<u64> = [
            enc2(m.zero()),
            enc2(m.one()),
            enc2(mddcore::prelude::Node::Bool(m.mdd().undet())),
            enc2(m.undet_value()),
        ]
        .into_iter()
        .collect();
        let mut st: Vec<u64> = self.x.iter().map(|h| enc2(h.get_node())).collect();
        st.extend(self.r.iter().flatten().map(|h| enc2(h.0.get_node())));
        while let Some(i) = st.pop() {
            if s.insert(i) {
                if let View::Node(_, ch) = view2(&m, i)? {
                    st.extend(ch);
                }
            }
        }
        Ok(s.len() + self.m.get_varorder().len() - 2)
    }
}

/// Histories over minimal path / cut families: conversions, label-wise operations, iteration,
/// with collection pressure on the source forest.
fn mss_families(cx: &mut Cx) {
    let d = Dom::new(&[2, 3]);
    let mono: Vec<Vec<i64>> = all_tables(6, &[0, 1, 2]).into_iter().filter(|t| monotone(&d, t)).collect();
    for (i, f) in mono.iter().enumerate() {
        if !cx.mine() {
            continue;
        }
        let (mono, d) = (&mono, &d);
        cx.case(
            || format!("families of {:?} and every monotone g, source collected in between", f),
            |cx| {
                let mut m: MssMgr<i64> = MssMgr::new();
                let x = vec![m.defvar(&nm(0), 2), m.defvar(&nm(1), 3)];
                let fh = mss_build(m.mdd(), &x, &Fun::v(f.clone()), &[2, 3]);
                let a = m.minpath(&fh).ok_or("None for a monotone function")?;
                let ca = m.mincut(&fh).ok_or("None for a monotone function")?;
                drop(fh);
                let strata = |g: &[i64], cut: bool| -> Vec<i64> {
                    // label at members, U elsewhere
                    (0..6)
                        .map(|p| {
                            let dom = (0..6).any(|q| q != p && g[q] == g[p] && if cut { d.leq(p, q) } else { d.leq(q, p) });
                            if dom { U } else { g[p] }
                        })
                        .collect()
                };
                let fam = |n: &ZmddNode<i64>| -> Result<Vec<i64>, String> {
                    let mut t = vec![U; 6];
                    for l in n.labels() {
                        for v in n.extract(&[l].into_iter().collect()) {
                            let p = d.point(&[v[&nm(0)], v[&nm(1)]]);
                            ensure!(t[p] == U, "vector {:?} reported twice", v);
                            t[p] = l;
                        }
                    }
                    Ok(t)
                };
                m.set_gc_threshold(if i % 2 == 0 { 1 } else { 1 << 20 });
                for (j, g) in mono.iter().enumerate() {
                    at(&[i as u64, j as u64]);
                    let gh = mss_build(m.mdd(), &x, &Fun::v(g.clone()), &[2, 3]);
                    let b = m.minpath(&gh).ok_or("None")?;
                    let cb = m.mincut(&gh).ok_or("None")?;
                    drop(gh);
                    m.gc(&[]);
                    let (sa, sb) = (strata(f, false), strata(g, false));
                    let (sca, scb) = (strata(f, true), strata(g, true));
                    let lw = |x: &[i64], y: &[i64], diff: bool| -> Vec<i64> {
                        x.iter().zip(y).map(|(&u, &v)| if (u == v) != diff { u } else { U }).collect()
                    };
                    ensure!(fam(&b)? == sb, "minpath of {:?}: {:?}", g, fam(&b)?);
                    ensure!(fam(&cb)? == scb, "mincut of {:?}: {:?}", g, fam(&cb)?);
                    ensure!(fam(&a.intersect(&b))? == lw(&sa, &sb, false), "path intersect with {:?}", g);
                    ensure!(fam(&a.setdiff(&b))? == lw(&sa, &sb, true), "path setdiff with {:?}", g);
                    ensure!(fam(&ca.intersect(&cb))? == lw(&sca, &scb, false), "cut intersect with {:?}", g);
                    ensure!(fam(&cb.setdiff(&ca))? == lw(&scb, &sca, true), "cut setdiff with {:?}", g);
                    ensure!((a.get_id() == b.get_id()) == (sa == sb), "node identity of equal families, {:?}", g);
                    ensure!(fam(&a)? == sa && fam(&ca)? == sca, "families of f changed after {:?}", g);
                }
                cx.states(1);
                cx.trans(6 * mono.len() as u64);
                cx.traces(1);
                Ok(())
            },
        );
    }
}

/// Enough families to fill the family forest past its (fixed) trigger several times.
fn mss_many_families(cx: &mut Cx) {
    let sizes = [4usize; 6];
    let d = Dom::new(&sizes);
    let np = 4096usize;
    let strata = |f: &[i64], cut: bool| -> Vec<i64> {
        // f is monotone, so comparing with the direct neighbours decides minimality in a stratum
        (0..np)
            .map(|p| {
                let dominated = (0..6).any(|v| {
                    let st = 1 << (2 * v);
                    let x = p >> (2 * v) & 3;
                    if cut { x < 3 && f[p + st] == f[p] } else { x > 0 && f[p - st] == f[p] }
                });
                if dominated { U } else { f[p] }
            })
            .collect()
    };
    fn table(n: &ZmddNode<i64>, cut: bool) -> Result<Vec<i64>, String> {
        fn rec(mm: &mddcore::prelude::ZmddManager<i64>, id: usize, v: usize, base: usize, cut: bool, t: &mut [i64]) -> Res {
            let vw = view_zm(mm, id)?;
            if let View::Term(x) = vw {
                // everything further down is unrecorded
                let p = if cut { base | ((1 << (2 * v)) - 1) } else { base };
                t[p] = x;
                return Ok(());
            }
            if let View::Node(l, ch) = vw {
                ensure!(l < v && ch.len() == 4, "level {} with {} edges below level {}", l, ch.len(), v);
                let mut b = base;
                if cut {
                    for w in l + 1..v {
                        b |= 3 << (2 * w);
                    }
                }
                for (e, c) in ch.into_iter().enumerate() {
                    let x = if cut { 3 - e } else { e };
                    rec(mm, c as usize, l, b | x << (2 * l), cut, t)?;
                }
            }
            Ok(())
        }
        let mut t = vec![U; 4096];
        let rc = n.get_mgr();
        let mm = rc.borrow();
        rec(&mm, n.get_id(), 6, 0, cut, &mut t)?;
        Ok(t)
    }
    for pattern in [1usize, 3, 5, 6, 7, 10, 12, 15] {
        for cut in [false, true] {
            if !cx.mine() {
                continue;
            }
            let d = &d;
            cx.case(
                || format!("40 {} families, keeping pattern {:#06b}", if cut { "cut" } else { "path" }, pattern),
                |cx| {
                    let mut m: MssMgr<i64> = MssMgr::new();
                    let x: Vec<MddNode<i64>> = (0..6).map(|v| m.defvar(&nm(v), 4)).collect();
                    let mut sum = m.value(0);
                    for v in 0..6 {
                        sum = sum.add(&x[v].mul(&m.value(1 << (2 * v))));
                    }
                    let mut kept: Vec<(ZmddNode<i64>, Vec<i64>)> = vec![];
                    let mut it: Option<(mss::prelude::ZmddPath<i64>, HashSet<usize>)> = None;
                    for t in 0..40usize {
                        at(&[pattern as u64, cut as u64, t as u64]);
                        let off = 100_000 * (t - (t % 4 == 1) as usize) as i64;
                        let lim = off + [4095, 3900, 4000][t % 3];
                        let f: Vec<i64> = (0..np as i64).map(|p| (p + off).min(lim)).collect();
                        let phi = sum.add(&m.value(off)).min(&m.value(lim));
                        let z = if cut { m.mincut(&phi) } else { m.minpath(&phi) }.ok_or("None for a monotone function")?;
                        let e = strata(&f, cut);
                        if pattern >> (t % 4) & 1 == 1 && kept.len() < 5 {
                            if t % 2 == 0 {
                                kept.push((z.clone(), e.clone()));
                            } else if let Some((k, ke)) = kept.last() {
                                let lw = |diff: bool| -> Vec<i64> { e.iter().zip(ke).map(|(&u, &v)| if (u == v) != diff { u } else { U }).collect() };
                                let (i, ie) = (z.intersect(k), lw(false));
                                let (s, se) = (z.setdiff(k), lw(true));
                                kept.push((i, ie));
                                kept.push((s, se));
                            } else {
                                kept.push((z.clone(), e.clone()));
                            }
                        }
                        if t == 3 {
                            // an iterator over a family nobody else holds
                            let labels: HashSet<i64> = [lim, off + 17, off + 1500].into_iter().collect();
                            let want: HashSet<usize> = (0..np).filter(|&p| labels.contains(&e[p])).collect();
                            let mut i = z.extract(&labels);
                            let mut want = want;
                            for _ in 0..want.len() / 2 {
                                let v = i.next().ok_or("iterator ended early")?;
                                let p = d.point(&(0..6).map(|k| v[&nm(k)]).collect::<Vec<_>>());
                                ensure!(want.remove(&p), "vector {:?} is no member or came twice", v);
                            }
                            it = Some((i, want));
                        }
                        drop(z);
                        if t % 8 == 7 {
                            for (k, (n, e)) in kept.iter().enumerate() {
                                ensure!(table(n, cut)? == *e, "after family {}: kept family {} changed", t, k);
                                cx.traces(1);
                            }
                        }
                        if kept.len() >= 5 && t % 3 == 0 {
                            kept.remove(t / 3 % 5);
                        }
                    }
                    let (i, mut want) = it.unwrap();
                    for v in i {
                        let p = d.point(&(0..6).map(|k| v[&nm(k)]).collect::<Vec<_>>());
                        ensure!(want.remove(&p), "vector {:?} is no member or came twice", v);
                    }
                    ensure!(want.is_empty(), "the iterator missed {} vectors", want.len());
                    cx.states(40);
                    cx.trans(40 * 2);
                    Ok(())
                },
            );
        }
    }
}

pub fn c08(cx: &mut Cx) {
    cx.section("all MddMgr handle histories on a fresh manager");
    let dep = if cx.thorough { 5 } else { 4 };
    sequences::<MssMachine>(cx, dep);
    cx.section("longer handle histories on one long-lived manager");
    sequences_on::<MssMachine>(cx, &[0, 1, 2, 3, 4, 6, 9, 10, 13, 15, 21, 24], if cx.thorough { 7 } else { 6 });

    let sz = [2, 3];
    let l = Layout::std(&sz);
    let fb: Vec<Fun> = all_tables(6, &[0, 1]).into_iter().map(Fun::b).collect();
    let fvv: Vec<Fun> = all_tables(6, &[1, 2]).into_iter().map(Fun::v).collect();
    let fz: Vec<Fun> = all_tables(6, &[U, 4]).into_iter().map(Fun::v).collect();
    let masks = masks(cx.thorough);
    cx.section("MDD core: compute, collect, recompute");
    let sh0 = shapes_mdd();
    epochs::<MddC>(cx, &l, &sh0, masks);
    gc_roots::<MddC>(cx, &l, &fb, &[Op::And, Op::Or, Op::Xor, Op::Ite, Op::Not]);

    cx.section("MTMDD core: compute, collect, recompute");
    let sh1 = shapes_mt();
    epochs::<MtC>(cx, &l, &sh1, masks);
    gc_roots::<MtC>(cx, &l, &fvv, &[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Min, Op::Max, Op::Rem]);

    cx.section("MTMDD2 core: compute, collect, recompute");
    let sh2 = shapes_mt2();
    epochs::<Mt2C>(cx, &l, &sh2, if cx.thorough { masks } else { &[0, 2, 6, 12, 14] });
    gc_roots::<Mt2C>(cx, &l, &fvv, &[Op::Add, Op::Eq, Op::Lt, Op::Max, Op::Gte]);

    cx.section("ZMDD core: compute, collect, recompute");
    let sh = shapes_zm();
    epochs::<ZmC>(cx, &l, &sh, masks);
    gc_roots::<ZmC>(cx, &l, &fz, ZmC::OPS);

    cx.section("old managers: more than 2^16 collections, clones and handles");
    crate::p_long::mdd_handles(cx);
    crate::p_large::deep_gc::<MddC>(cx, BOOL, 0, 1);
    crate::p_large::deep_gc::<MtC>(cx, VALUE, 3, 8);
    crate::p_large::deep_gc::<Mt2C>(cx, VALUE, 3, 8);
    crate::p_large::deep_gc::<Mt2C>(cx, BOOL, 0, 1);
    crate::p_large::deep_gc::<ZmC>(cx, VALUE, U, 2);
    crate::p_long::ages::<ZmC>(cx, &sz, &sh, 66_500);
    crate::p_long::ages::<Mt2C>(cx, &sz, &sh2, 66_500);
    crate::p_long::ages::<MtC>(cx, &sz, &sh1, 66_500);
    crate::p_long::ages::<MddC>(cx, &sz, &sh0, 66_500);

    cx.section("MssMgr: path and cut families under collection");
    mss_families(cx);
    cx.section("MssMgr: families across the automatic collections of the family forest");
    mss_many_families(cx);
    cx.section("MddMgr: automatic collection at every threshold");
    auto_mss(cx);
    cx.section("MddMgr: path iterators across collections");
    iter_mss(cx);
}

fn auto_mss(cx: &mut Cx) {
    let tabs = all_tables(6, &[0, 1, 2]);
    for thr in 1..28usize {
        for blk in 0..9usize {
            if !cx.mine() {
                continue;
            }
            let tabs = &tabs;
            cx.case(
                || format!("threshold {}: value functions {} mod 9", thr, blk),
                |cx| {
                    let mut m: MddMgr<i64> = MddMgr::new();
                    let x = vec![m.defvar(&nm(0), 2), m.defvar(&nm(1), 3)];
                    m.set_gc_threshold(thr);
                    let mut held: Vec<(MddNode<i64>, Fun)> = vec![];
                    let mut n = 0;
                    for t in tabs.iter().skip(blk).step_by(9) {
                        // ite cascade over indicator functions
                        let mut h = m.value(t[5]);
                        for p in (0..5).rev() {
                            let c = x[0].eq(&m.value((p % 2) as i64)).and(&x[1].eq(&m.value((p / 2) as i64)));
                            h = c.ite(&m.value(t[p]), &h);
                        }
                        let f = Fun::v(t.clone());
                        ensure!(mss_table(&h, &MS)? == f, "cascade of {:?}", t);
                        let s = h.add(&x[1]).sub(&x[1]);
                        ensure!(s.get_node() == h.get_node(), "f+x-x for {:?}", t);
                        let mx = m.max(&[h.clone(), x[0].clone(), m.value(1)]);
                        let e: Vec<i64> = (0..6).map(|p| t[p].max((p % 2) as i64).max(1)).collect();
                        ensure!(mss_table(&mx, &MS)? == Fun::v(e), "max of list with {:?}", t);
                        let b = h.ge(&m.value(1)).or(&x[0].lt(&x[1]));
                        let e: Vec<i64> = (0..6).map(|p| (t[p] >= 1 || p % 2 < p / 2) as i64).collect();
                        ensure!(mss_table(&b, &MS)? == Fun::b(e), "comparison with {:?}", t);
                        n += 1;
                        if n % 7 == 0 {
                            held.push((h, f));
                        }
                        for (h, f) in &held {
                            ensure!(mss_table(h, &MS)? == *f, "held {} after {:?}", f.show(), t);
                        }
                    }
                    cx.states(n);
                    cx.trans(n * 24);
                    Ok(())
                },
            );
        }
    }
}

fn iter_mss(cx: &mut Cx) {
    let tabs: Vec<Fun> = all_tables(6, &[0, 1])
        .into_iter()
        .flat_map(|t| vec![Fun::b(t.clone()), Fun::v(t)])
        .collect();
    for f in tabs.iter() {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("extract of {}: handle dropped, collections and new nodes after every k-th path", f.show()),
            |cx| {
                for sel in [vec![1i64], vec![0], vec![0, 1]] {
                    for k in 0..7 {
                        let mut m: MddMgr<i64> = MddMgr::new();
                        let x = vec![m.defvar(&nm(0), 2), m.defvar(&nm(1), 3)];
                        let h = mss_build(&m, &x, f, &MS);
                        let ss: HashSet<i64> = sel.iter().copied().collect();
                        let mut it = h.mdd_extract(&ss);
                        drop(h);
                        let mut got = vec![];
                        for step in 0.. {
                            if step == k {
                                m.gc(&[]);
                                m.set_gc_threshold(1);
                                let _ = x[0].add(&x[1]).mul(&x[1]);
                                let _ = x[0].lt(&x[1]).or(&x[1].eq(&m.value(2)));
                            }
                            match it.next() {
                                Some(p) => got.push(p),
                                None => break,
                            }
                        }
                        // partial assignments must tile exactly the selected points
                        let d = Dom::new(&MS);
                        let mut hit = vec![0; 6];
                        for p in &got {
                            for q in 0..6 {
                                let dg = d.digits(q);
                                if p.iter().all(|(n, v)| dg[n[1..].parse::<usize>().unwrap()] == *v) {
                                    hit[q] += 1;
                                }
                            }
                        }
                        let want: Vec<i32> = (0..6).map(|q| ss.contains(&f.t[q]) as i32).collect();
                        ensure!(hit == want, "collection after {} paths, select {:?}: got {:?}", k, sel, got);
                        cx.traces(1);
                    }
                }
                cx.states(1);
                cx.trans(21);
                Ok(())
            },
        );
    }
}

// ------------------------------------------------------------------ C20
/// Exhaustive over (alive subset) of a set of handles: live count after explicit and automatic
/// collection equals the number of reachable nodes; freed slots are reused.
pub fn c20(cx: &mut Cx) {
    cx.section("BDD: every subset of 8 handles alive");
    let fs: Vec<u64> = vec![0x80, 0xe8, 0x96, 0x1b, 0xf8, 0x35, 0xaa, 0x7e];
    for mask in 0..256usize {
        if !cx.mine() {
            continue;
        }
        let fs = &fs;
        cx.case(
            || format!("BDD: handles {:#010b} of the 8 functions stay alive", mask),
            |cx| {
                for mode in 0..3 {
                    let mut m = BddMgr::new();
                    let x: Vec<BddNode> = (0..3).map(|v| m.defvar(&nm(v))).collect();
                    let mut hs: Vec<Option<BddNode>> = fs.iter().map(|&f| Some(build_h(&m, &x, &bits(8, f)))).collect();
                    for i in 0..8 {
                        if mask >> i & 1 == 0 {
                            hs[i] = None;
                        }
                    }
                    let exact = {
                        let rc = x[0].get_mgr();
                        let mm = rc.borrow();
                        let mut s: HashSet<usize> = [mm.zero(), mm.one(), mm.undet()].into_iter().collect();
                        let mut st: Vec<usize> = x.iter().chain(hs.iter().flatten()).map(|h| h.get_id()).collect();
                        while let Some(i) = st.pop() {
                            if s.insert(i) {
                                if let Some(bddcore::prelude::Node::NonTerminal(f)) = mm.get_node(&i) {
                                    st.extend(f.iter());
                                }
                            }
                        }
                        s.len()
                    };
                    let before = m.live_node_count();
                    match mode {
                        0 => {
                            let r = m.gc(&[]);
                            ensure!(r == before - exact, "gc reported {} reclaimed, {} were", r, before - exact);
                        }
                        1 => {
                            m.set_gc_threshold(before);
                            let _ = m.one();
                        }
                        _ => {
                            m.set_gc_threshold(before + 1);
                            let _ = m.one();
                            ensure!(m.live_node_count() == before, "collected below the threshold");
                            m.set_gc_threshold(1);
                            let _ = m.zero();
                        }
                    }
                    ensure!(m.live_node_count() == exact, "mode {}: {} live, {} reachable", mode, m.live_node_count(), exact);
                    let slots = m.size().1;
                    m.set_gc_threshold(1 << 20);
                    // rebuilding what was lost must reuse the reclaimed slots
                    let again: Vec<BddNode> = fs.iter().map(|&f| build_h(&m, &x, &bits(8, f))).collect();
                    ensure!(m.size().1 == slots, "arena grew from {} to {} although slots were free", slots, m.size().1);
                    for (a, &f) in again.iter().zip(fs.iter()) {
                        ensure!(table_h(a, 3) == bits(8, f), "rebuilt {:#x}", f);
                    }
                }
                cx.states(1);
                cx.trans(3);
                cx.traces(3);
                Ok(())
            },
        );
    }
    cx.section("ZDD: every subset of 8 handles alive");
    for mask in 0..256usize {
        if !cx.mine() {
            continue;
        }
        let fs = &fs;
        cx.case(
            || format!("ZDD: handles {:#010b} of the 8 families stay alive", mask),
            |cx| {
                let sets = |f: u64| -> Vec<Vec<String>> {
                    (0..8u8)
                        .filter(|q| f >> q & 1 == 1)
                        .map(|q| (0..3).filter(|v| q >> v & 1 == 1).map(|v| nm(v)).collect())
                        .collect()
                };
                let mut m = ZddMgr::new();
                for v in 0..3 {
                    m.singleton(&nm(v));
                }
                let mut hs: Vec<Option<ZddNode>> = fs.iter().map(|&f| Some(m.from_sets(&sets(f)))).collect();
                for i in 0..8 {
                    if mask >> i & 1 == 0 {
                        hs[i] = None;
                    }
                }
                let b = m.base();
                let exact = {
                    let rc = b.get_mgr();
                    let mm = rc.borrow();
                    let mut s: HashSet<usize> = [mm.zero(), mm.one(), mm.undet()].into_iter().collect();
                    let mut st: Vec<usize> = hs.iter().flatten().map(|h| h.get_id()).collect();
                    while let Some(i) = st.pop() {
                        if s.insert(i) {
                            if let Some(bddcore::prelude::Node::NonTerminal(f)) = mm.get_node(&i) {
                                st.extend(f.iter());
                            }
                        }
                    }
                    s.len()
                };
                m.set_gc_threshold(1);
                let _ = m.base();
                ensure!(m.live_node_count() == exact, "{} live, {} reachable", m.live_node_count(), exact);
                m.set_gc_threshold(1 << 20);
                let slots = m.size().1;
                for &f in fs.iter() {
                    let h = m.from_sets(&sets(f));
                    ensure!(zt(&h)? == f as u8, "rebuilt {:#x}", f);
                }
                ensure!(m.size().1 <= slots, "arena grew from {} to {} although slots were free", slots, m.size().1);
                cx.states(1);
                cx.trans(2);
                Ok(())
            },
        );
    }
    cx.section("MDD: every subset of 8 handles alive");
    let ms: Vec<Fun> = vec![
        Fun::v(vec![0, 1, 1, 2, 2, 3]), Fun::v(vec![5, 0, 0, 5, 9, 9]), Fun::b(vec![0, 1, 1, 0, 0, 1]), Fun::b(vec![1, 1, 0, 0, 1, 0]),
        Fun::v(vec![-1, -1, 4, 4, 4, -1]), Fun::b(vec![0, 0, 0, 1, 1, 1]), Fun::v(vec![7; 6]), Fun::v(vec![0, 1, 0, 1, U, 1]),
    ];
    for mask in 0..256usize {
        if !cx.mine() {
            continue;
        }
        let ms = &ms;
        cx.case(
            || format!("MDD: handles {:#010b} of the 8 functions stay alive", mask),
            |cx| {
                for mode in 0..2 {
                    let mut m: MddMgr<i64> = MddMgr::new();
                    let x = vec![m.defvar(&nm(0), 2), m.defvar(&nm(1), 3)];
                    let mut hs: Vec<Option<MddNode<i64>>> = ms.iter().map(|f| Some(mss_build(&m, &x, f, &MS))).collect();
                    for i in 0..8 {
                        if mask >> i & 1 == 0 {
                            hs[i] = None;
                        }
                    }
                    let exact = {
                        let rc = x[0].get_mgr();
                        let mm = rc.borrow();
                        let mut s: HashSet<u64> = [enc2(mm.zero()), enc2(mm.one()), enc2(mm.undet_boolean()), enc2(mm.undet_value())].into_iter().collect();
                        let mut st: Vec<u64> = x.iter().chain(hs.iter().flatten()).map(|h| enc2(h.get_node())).collect();
                        while let Some(i) = st.pop() {
                            if s.insert(i) {
                                if let View::Node(_, ch) = view2(&mm, i)? {
                                    st.extend(ch);
                                }
                            }
                        }
                        s.len()
                    };
                    let before = m.live_node_count();
                    if mode == 0 {
                        let (a, b) = m.gc(&[]);
                        ensure!(a + b == before - exact, "gc reported {}+{} reclaimed, {} were", a, b, before - exact);
                    } else {
                        m.set_gc_threshold(before);
                        let _ = m.boolean(true);
                    }
                    ensure!(m.live_node_count() == exact, "mode {}: {} live, {} reachable", mode, m.live_node_count(), exact);
                    m.set_gc_threshold(1 << 20);
                    let (l0, l1) = { let rc = x[0].get_mgr(); let mm = rc.borrow(); (mm.mtmdd().size().1, mm.mdd().size().1) };
                    for f in ms.iter() {
                        let h = mss_build(&m, &x, f, &MS);
                        ensure!(mss_table(&h, &MS)? == *f, "rebuilt {}", f.show());
                    }
                    let (k0, k1) = { let rc = x[0].get_mgr(); let mm = rc.borrow(); (mm.mtmdd().size().1, mm.mdd().size().1) };
                    ensure!((l0, l1) == (k0, k1), "arenas grew from {:?} to {:?} although slots were free", (l0, l1), (k0, k1));
                }
                cx.states(1);
                cx.trans(2);
                cx.traces(2);
                Ok(())
            },
        );
    }
    cx.section("repeated work needs no more memory than one round");
    bounded(cx);
    cx.section("live count stays below max(threshold, twice the survivors) plus one operation");
    rearm(cx);
    cx.section("garbage stays bounded: steady work, after a peak of live handles, and peak again");
    armed(cx);
    cx.section("garbage stays bounded: one kind of operation alone after a pile of garbage");
    crate::p_due::due_after_each(cx);
    cx.section("core managers: first collection reports what it reclaimed");
    first_gc(cx);
    cx.section("piles of up to 3*10^5 dead nodes and more");
    piles(cx);
}

/// Large collections: of many nodes, all but a pattern of roots are dead. Afterwards exactly the
/// reachable ones are live and unchanged, and making the same nodes again fills the freed places.
fn piles(cx: &mut Cx) {
    fn go<C: Core>(cx: &mut Cx, kind: u8, lo: i64, hi: i64) {
        let sizes: &[usize] = if cx.thorough { &[300, 70_000, 300_000, 3_000_000] } else { &[300, 70_000, 300_000] };
        let l = Layout::std(&vec![2; 3 + 1 + sizes[sizes.len() - 1] / 60_000]);
        for &n in sizes {
            for pat in 0..5 {
                if !cx.mine() {
                    continue;
                }
                let keep = move |i: usize| match pat {
                    0 => false,
                    1 => true,
                    2 => i + 1 == n,
                    3 => i % 5 == 3,
                    _ => i < n / 2,
                };
                let what = ["none", "all", "the last", "every fifth", "the first half"][pat];
                let l = &l;
                cx.case(
                    || format!("{} (kind {}): {} nodes of which {} kept", C::NAME, kind, n, what),
                    |cx| {
                        let mut c = C::new(l);
                        let make = |c: &mut C| -> Vec<u64> {
                            let pool: Vec<u64> = (0..256u32)
                                .map(|t| {
                                    let f = Fun { k: kind, t: (0..8).map(|p| if t >> p & 1 == 1 { hi } else { lo }).collect() };
                                    c.build_rec(&f, &[2; 3], 3, 0)
                                })
                                .collect();
                            let mut o = vec![];
                            let mut i = 0;
                            while o.len() < n {
                                let (v, a, b) = (3 + (i >> 16), i >> 8 & 255, i & 255);
                                i += 1;
                                if a != b && b != 0 {
                                    o.push(c.mk(kind, v, &[pool[a], pool[b]]));
                                }
                            }
                            o
                        };
                        let ids = make(&mut c);
                        let before = c.live();
                        let top = *ids.iter().max().unwrap();
                        let roots: Vec<u64> = (0..n).filter(|&i| keep(i)).map(|i| ids[i]).collect();
                        let view = |c: &C, x: u64| c.view(x).map(|v| match v {
                            View::Term(v) => (v, 0, vec![]),
                            View::Node(l, ch) => (0, l + 1, ch),
                        });
                        let seen: Vec<_> = roots.iter().map(|&r| view(&c, r)).collect::<Result<_, _>>()?;
                        for round in 0..2 {
                            let r = c.gc(&roots);
                            let reach = c.reach(&roots)?.len();
                            ensure!(c.live() == reach, "round {}: {} live, {} reachable, {} before", round, c.live(), reach, before);
                            ensure!(round > 0 || r == before - reach, "reported {} reclaimed slots, {} were", r, before - reach);
                            for (x, v) in roots.iter().zip(&seen) {
                                ensure!(view(&c, *x)? == *v, "round {}: node {} became {:?} from {:?}", round, x, view(&c, *x)?, v);
                            }
                            let again = make(&mut c);
                            ensure!(c.live() == before, "round {}: {} live after the same nodes were made again, {} before", round, c.live(), before);
                            ensure!((0..n).all(|i| !keep(i) || again[i] == ids[i]), "round {}: a kept node was made twice", round);
                            let most = *again.iter().max().unwrap();
                            ensure!(most <= top, "round {}: node {} although {} places were free below {}", round, most, before - reach, top);
                            let mut d = again;
                            d.sort();
                            d.dedup();
                            ensure!(d.len() == n, "round {}: {} different nodes instead of {}", round, d.len(), n);
                        }
                        c.gc(&[]);
                        ensure!(c.live() == c.fixed().len(), "{} live after everything was dropped", c.live());
                        cx.states(n as u64);
                        cx.trans(3 * n as u64);
                        Ok(())
                    },
                );
            }
        }
    }
    go::<BddC>(cx, BOOL, 0, 1);
    go::<ZddC>(cx, BOOL, 0, 1);
    go::<MddC>(cx, BOOL, 0, 1);
    go::<MtC>(cx, VALUE, 0, 5);
    go::<Mt2C>(cx, BOOL, 0, 1);
    go::<Mt2C>(cx, VALUE, 0, 5);
    go::<ZmC>(cx, VALUE, U, 3);
}

fn bounded(cx: &mut Cx) {
    for thr in [1usize, 5, 12, 40, 200] {
        if cx.mine() {
            cx.case(
                || format!("BDD: 3000 rounds building and dropping all 3-variable functions, threshold {}", thr),
                |cx| {
                    let mut m = BddMgr::new();
                    let x: Vec<BddNode> = (0..3).map(|v| m.defvar(&nm(v))).collect();
                    m.set_gc_threshold(thr);
                    let mut peak = 0;
                    let mut warm = 0;
                    for round in 0..3000u64 {
                        let f = round.wrapping_mul(77) & 255;
                        let g = round.wrapping_mul(45) ^ 0x5a & 255;
                        let a = build_h(&m, &x, &bits(8, f));
                        let b = build_h(&m, &x, &bits(8, g & 255));
                        let c = a.xor(&b).ite(&x[0], &b);
                        let e = (f ^ g) & 0xaa | !(f ^ g) & g & 255;
                        ensure!(table_h(&c, 3) == bits(8, e & 255), "round {}", round);
                        peak = peak.max(m.size().1);
                        if round == 300 {
                            warm = peak;
                        }
                    }
                    ensure!(peak <= warm + 64, "arena of {} slots after 300 rounds, {} after 3000", warm, peak);
                    ensure!(peak < 2 * thr + 400, "arena of {} slots for threshold {}", peak, thr);
                    cx.states(3000);
                    cx.trans(3000 * 4);
                    Ok(())
                },
            );
        }
        if cx.mine() {
            cx.case(
                || format!("MDD: 2000 rounds of value functions with changing constants, threshold {}", thr),
                |cx| {
                    let mut m: MddMgr<i64> = MddMgr::new();
                    let x = vec![m.defvar(&nm(0), 2), m.defvar(&nm(1), 3)];
                    m.set_gc_threshold(thr);
                    let mut peak = 0;
                    for round in 0..2000i64 {
                        let a = x[0].mul(&m.value(round)).add(&x[1]);
                        let b = a.ge(&m.value(round));
                        let e: Vec<i64> = (0..6).map(|p| (p % 2) * round + p / 2).collect();
                        ensure!(mss_table(&a, &MS)? == Fun::v(e.clone()), "round {}", round);
                        let eb: Vec<i64> = e.iter().map(|v| (*v >= round) as i64).collect();
                        ensure!(mss_table(&b, &MS)? == Fun::b(eb), "round {} comparison", round);
                        let rc = a.get_mgr();
                        let mm = rc.borrow();
                        peak = peak.max(mm.mtmdd().size().1 + mm.mdd().size().1);
                    }
                    ensure!(peak < 2 * thr + 400, "arenas of {} slots for threshold {}", peak, thr);
                    cx.states(2000);
                    cx.trans(2000 * 3);
                    Ok(())
                },
            );
        }
        if cx.mine() {
            cx.case(
                || format!("ZDD: 2000 rounds of families, threshold {}", thr),
                |cx| {
                    let mut m = ZddMgr::new();
                    m.set_gc_threshold(thr);
                    let mut peak = 0;
                    for round in 0..2000u64 {
                        let f = (round.wrapping_mul(77) & 255) as u8;
                        let sets: Vec<Vec<String>> = (0..8u8)
                            .filter(|q| f >> q & 1 == 1)
                            .map(|q| (0..3).filter(|v| q >> v & 1 == 1).map(|v| nm(v)).collect())
                            .collect();
                        let h = m.from_sets(&sets);
                        ensure!(h.count(&[true]) == f.count_ones() as u64, "round {}", round);
                        peak = peak.max(m.size().1);
                    }
                    ensure!(peak < 2 * thr + 400, "arena of {} slots for threshold {}", peak, thr);
                    cx.states(2000);
                    cx.trans(2000);
                    Ok(())
                },
            );
        }
    }
}

/// After any handle operation either the live count is below the current trigger or a
/// collection just ran and everything live is reachable. The trigger is only known right after
/// it was set, so each step sets it.
fn rearm(cx: &mut Cx) {
    for n in 4..=10usize {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("parity and conjunction chains of {} variables, every trigger value", n),
            |cx| {
                for thr in 1..80usize {
                    let mut m = BddMgr::new();
                    let x: Vec<BddNode> = (0..n).map(|v| m.defvar(&nm(v))).collect();
                    let mut p = m.zero();
                    let mut a = m.one();
                    for i in 0..n {
                        for w in 0..2 {
                            m.set_gc_threshold(thr);
                            if w == 0 { p = p.xor(&x[i]) } else { a = a.and(&x[i]) }
                            let live = m.live_node_count();
                            if live >= thr {
                                let rc = p.get_mgr();
                                let mm = rc.borrow();
                                // the previous p (or a) is still a root while the operation runs
                                let mut s: HashSet<usize> = HashSet::new();
                                let mut st: Vec<usize> = x.iter().map(|h| h.get_id()).collect();
                                st.push(p.get_id());
                                st.push(a.get_id());
                                st.extend([mm.zero(), mm.one(), mm.undet()]);
                                while let Some(k) = st.pop() {
                                    if s.insert(k) {
                                        if let Some(bddcore::prelude::Node::NonTerminal(f)) = mm.get_node(&k) {
                                            st.extend(f.iter());
                                        }
                                    }
                                }
                                // operand of the last operation was alive during the collection
                                ensure!(live <= s.len() + 2 * n + 2, "trigger {} step {}: {} live, {} reachable", thr, i, live, s.len());
                            }
                        }
                    }
                    let pt: usize = (0..1usize << n).filter(|q| eval_bdd(&p.get_mgr().borrow(), p.get_id(), |l| q >> l & 1 == 1) == 1).count();
                    ensure!(pt == 1 << (n - 1), "parity has {} ones", pt);
                    cx.traces(1);
                }
                cx.states(79);
                cx.trans(79 * 2 * n as u64);
                Ok(())
            },
        );
    }
}

fn first_gc(cx: &mut Cx) {
    fn go<C: Core>(cx: &mut Cx, sizes: &[usize], funs: &[Fun], op: Op) {
        let l = Layout::std(sizes);
        for (i, f) in funs.iter().enumerate() {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("{}: first gc of a manager with root {}", C::NAME, f.show()),
                |cx| {
                    let mut c = C::new(&l);
                    let ids: Vec<u64> = funs.iter().map(|g| c.build(g)).collect();
                    c.op(op, &[ids[i], ids[funs.len() - 1 - i]]);
                    let before = c.live();
                    let keep = c.reach(&[ids[i]])?.len();
                    let r = c.gc(&[ids[i]]);
                    ensure!(c.live() == keep, "{} live, {} reachable", c.live(), keep);
                    ensure!(r == before - keep, "reported {} reclaimed slots, {} were", r, before - keep);
                    // nothing more to reclaim
                    c.gc(&[ids[i]]);
                    ensure!(c.live() == keep, "{} live after a second gc, {} reachable", c.live(), keep);
                    let t = c.table(ids[i])?;
                    ensure!(t == *f, "root became {}", t.show());
                    cx.states(1);
                    cx.trans(2);
                    Ok(())
                },
            );
        }
    }
    let f3 = all_bool(3);
    go::<BddC>(cx, &[2; 3], &f3, Op::Xor);
    go::<ZddC>(cx, &[2; 3], &f3, Op::Product);
    let fb: Vec<Fun> = all_tables(6, &[0, 1]).into_iter().map(Fun::b).collect();
    go::<MddC>(cx, &[2, 3], &fb, Op::Xor);
    let fv: Vec<Fun> = all_tables(6, &[0, 3]).into_iter().map(Fun::v).collect();
    go::<MtC>(cx, &[2, 3], &fv, Op::Add);
    go::<Mt2C>(cx, &[2, 3], &fv, Op::Lt);
    let fz: Vec<Fun> = all_tables(6, &[U, 3]).into_iter().map(Fun::v).collect();
    go::<ZmC>(cx, &[2, 3], &fz, Op::LSetdiff);
}

/// Follows the automatic collection from outside: `b` is an upper bound of the trigger. A drop of
/// the live count shows that a collection ran and re-armed it at twice the survivors at most.
struct Arm {
    floor: usize,
    b: usize,
    prev: usize,
    work: usize,

}

impl Arm {
    fn new(floor: usize, live: usize) -> Arm {
        Arm { floor, b: floor, prev: live, work: 0 }
    }
    /// After one handle operation: `live` nodes, `reach` of them reachable from handles.
    fn step(&mut self, what: &dyn Fn() -> String, live: usize, reach: usize) -> Result<(), String> {
        ensure!(live >= reach, "{}: {} live nodes, {} reachable", what(), live, reach);
        self.work = self.work.max(live.saturating_sub(self.prev));
        if live < self.prev {
            self.b = self.floor.max(2 * live);
        } else if live == reach {
            self.b = self.b.max(2 * live);
        }
        ensure!(
            live == reach || live <= self.b + self.work,
            "{}: {} live nodes of which {} reachable; a collection was due at {}",
            what(), live, reach, self.b
        );
        self.prev = live;
        Ok(())
    }
}

/// The family forest of a system manager collects at a fixed trigger.
fn armed_families(cx: &mut Cx) {
    for cut in [false, true] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("90 {} families of 4096 vectors", if cut { "cut" } else { "path" }),
            |cx| {
                let mut m: MssMgr<i64> = MssMgr::new();
                let x: Vec<MddNode<i64>> = (0..6).map(|v| m.defvar(&nm(v), 4)).collect();
                let mut sum = m.value(0);
                for v in 0..6 {
                    sum = sum.add(&x[v].mul(&m.value(1 << (2 * v))));
                }
                let mut arm: Option<Arm> = None;
                let mut pool: VecDeque<ZmddNode<i64>> = VecDeque::new();
                let mut k = 0i64;
                for (hold, rounds) in [(1usize, 30usize), (15, 20), (1, 40)] {
                    for _ in 0..rounds {
                        k += 1;
                        let phi = sum.add(&m.value(k * 10_000));
                        let z = if cut { m.mincut(&phi) } else { m.minpath(&phi) }.ok_or("None for a monotone function")?;
                        pool.push_back(z);
                        let rc = pool[0].get_mgr();
                        let mm = rc.borrow();
                        let mut s: HashSet<usize> = [mm.undet()].into_iter().collect();
                        let mut st: Vec<usize> = pool.iter().map(|h| h.get_id()).collect();
                        while let Some(n) = st.pop() {
                            if s.insert(n) {
                                if let View::Node(_, ch) = view_zm(&mm, n)? {
                                    st.extend(ch.into_iter().map(|c| c as usize));
                                }
                            }
                        }
                        let live = mm.live_node_count();
                        arm.get_or_insert(Arm::new(1 << 16, live)).step(&|| format!("family {}", k), live, s.len())?;
                        drop(mm);
                        while pool.len() > hold {
                            pool.pop_front();
                        }
                        cx.states(1);
                        cx.trans(1);
                    }
                }
                cx.traces(1);
                Ok(())
            },
        );
    }
}

fn armed(cx: &mut Cx) {
    armed_families(cx);
    // hold[t] = how many results stay alive in phase t
    let phases: [(usize, usize); 6] = [(1, 250), (40, 80), (1, 300), (12, 150), (60, 100), (2, 300)];
    for thr in [1usize, 30, 150, 700] {
        if cx.mine() {
            cx.case(
                || format!("BDD over 9 variables, threshold {}", thr),
                |cx| {
                    let mut m = BddMgr::new();
                    let x: Vec<BddNode> = (0..9).map(|v| m.defvar(&nm(v))).collect();
                    m.set_gc_threshold(thr);
                    let mut arm = Arm::new(thr, m.live_node_count());
                    let mut pool: VecDeque<(BddNode, Vec<u64>)> = VecDeque::new();
                    let var = |v: usize| -> Vec<u64> { (0..8u64).map(|w| (0..64).filter(|q| (w * 64 + q) >> v & 1 == 1).fold(0, |a, q| a | 1 << q)).collect() };
                    let xt: Vec<Vec<u64>> = (0..9).map(var).collect();
                    let mut cur = (x[0].clone(), xt[0].clone());
                    let mut k = 0usize;
                    for (hold, rounds) in phases {
                        for _ in 0..rounds {
                            k += 1;
                            let (i, j) = ((k * 7 + k / 9) % 9, (k * 5 + k / 4 + 1) % 9);
                            let (o, ot) = pool.front().cloned().unwrap_or((x[j].clone(), xt[j].clone()));
                            let z = |f: &dyn Fn(u64, u64, u64) -> u64| -> Vec<u64> { (0..8).map(|w| f(cur.1[w], xt[i][w], ot[w])).collect() };
                            let next = match k % 4 {
                                0 => (cur.0.xor(&x[i]), z(&|a, b, _| a ^ b)),
                                1 => (x[i].ite(&cur.0, &o), z(&|a, b, c| b & a | !b & c)),
                                2 => (cur.0.xor(&o), z(&|a, _, c| a ^ c)),
                                _ => (x[j].ite(&x[i], &cur.0), (0..8).map(|w| xt[j][w] & xt[i][w] | !xt[j][w] & cur.1[w]).collect()),
                            };
                            let reach = {
                                let rc = cur.0.get_mgr();
                                let mm = rc.borrow();
                                let mut s: HashSet<usize> = [mm.zero(), mm.one(), mm.undet()].into_iter().collect();
                                let mut st: Vec<usize> = x.iter().chain(pool.iter().map(|h| &h.0)).chain([&cur.0, &o, &next.0]).map(|h| h.get_id()).collect();
                                while let Some(n) = st.pop() {
                                    if s.insert(n) {
                                        if let Some(bddcore::prelude::Node::NonTerminal(f)) = mm.get_node(&n) {
                                            st.extend(f.iter());
                                        }
                                    }
                                }
                                s.len()
                            };
                            arm.step(&|| format!("operation {}", k), m.live_node_count(), reach)?;
                            cur = next;
                            pool.push_back(cur.clone());
                            while pool.len() > hold {
                                pool.pop_front();
                            }
                            cx.trans(1);
                        }
                        for (h, t) in pool.iter() {
                            let rc = h.get_mgr();
                            let mm = rc.borrow();
                            for q in 0..512usize {
                                ensure!(eval_bdd(&mm, h.get_id(), |l| q >> l & 1 == 1) == (t[q / 64] >> (q % 64) & 1) as i64, "a kept function changed at {:#x}", q);
                            }
                            cx.traces(1);
                        }
                        cx.states(rounds as u64);
                    }
                    Ok(())
                },
            );
        }
        if cx.mine() {
            cx.case(
                || format!("ZDD over 7 elements, threshold {}", thr),
                |cx| {
                    let mut m = ZddMgr::new();
                    let x: Vec<ZddNode> = (0..7).map(|v| m.singleton(&nm(v))).collect();
                    m.set_gc_threshold(thr);
                    let mut arm = Arm::new(thr, m.live_node_count());
                    let mut pool: VecDeque<(ZddNode, u128)> = VecDeque::new();
                    let base = m.base();
                    let mut cur = (base.clone(), 1u128);
                    let prod = |a: u128, v: usize| -> u128 { (0..128u32).filter(|q| a >> q & 1 == 1).fold(0, |s, q| s | 1u128 << (q | 1 << v)) };
                    let mut k = 0usize;
                    for (hold, rounds) in phases {
                        for _ in 0..rounds {
                            k += 1;
                            let (i, j) = ((k * 5 + k / 7) % 7, (k * 3 + k / 4 + 1) % 7);
                            let (o, ot) = pool.front().cloned().unwrap_or((x[j].clone(), 1u128 << (1 << j)));
                            let next = match k % 6 {
                                0 => (cur.0.union(&o), cur.1 | ot),
                                1 | 4 => (cur.0.product(&x[i]), prod(cur.1, i)),
                                2 => (cur.0.union(&x[j]), cur.1 | 1u128 << (1 << j)),
                                3 => (cur.0.setdiff(&o), cur.1 & !ot),
                                _ => (cur.0.union(&base), cur.1 | 1),
                            };
                            let reach = {
                                let rc = cur.0.get_mgr();
                                let mm = rc.borrow();
                                let mut s: HashSet<usize> = [mm.zero(), mm.one(), mm.undet()].into_iter().collect();
                                let mut st: Vec<usize> = x.iter().chain(pool.iter().map(|h| &h.0)).chain([&cur.0, &o, &next.0]).map(|h| h.get_id()).collect();
                                while let Some(n) = st.pop() {
                                    if s.insert(n) {
                                        if let Some(bddcore::prelude::Node::NonTerminal(f)) = mm.get_node(&n) {
                                            st.extend(f.iter());
                                        }
                                    }
                                }
                                s.len()
                            };
                            arm.step(&|| format!("operation {}", k), m.live_node_count(), reach)?;
                            cur = next;
                            if cur.1 == 0 {
                                cur = (base.clone(), 1);
                            }
                            pool.push_back(cur.clone());
                            while pool.len() > hold {
                                pool.pop_front();
                            }
                            cx.trans(1);
                        }
                        for (h, t) in pool.iter() {
                            ensure!(h.count(&[true]) == t.count_ones() as u64, "a kept family changed: {} members, {} expected", h.count(&[true]), t.count_ones());
                            cx.traces(1);
                        }
                        cx.states(rounds as u64);
                    }
                    Ok(())
                },
            );
        }
        if cx.mine() {
            cx.case(
                || format!("MDD over variables with 2, 3, 4, 2 states, threshold {}", thr),
                |cx| {
                    let sz = [2usize, 3, 4, 2];
                    let mut m: MddMgr<i64> = MddMgr::new();
                    let x: Vec<MddNode<i64>> = (0..4).map(|v| m.defvar(&nm(v), sz[v])).collect();
                    m.set_gc_threshold(thr);
                    let mut arm = Arm::new(thr, m.live_node_count());
                    let xt: Vec<Vec<i64>> = (0..4)
                        .map(|v| (0..48usize).map(|p| (p / sz[..v].iter().product::<usize>() % sz[v]) as i64).collect())
                        .collect();
                    let mut pool: VecDeque<(MddNode<i64>, Vec<i64>)> = VecDeque::new();
                    let mut cur = (x[0].clone(), xt[0].clone());
                    let mut k = 0usize;
                    for (hold, rounds) in phases {
                        for _ in 0..rounds {
                            k += 1;
                            let (i, j) = ((k * 3 + k / 4) % 4, (k + k / 7 + 1) % 4);
                            let c = m.value((k % 11) as i64 + 2);
                            let ck = (k % 11) as i64 + 2;
                            let (o, ot) = pool.front().cloned().unwrap_or((x[j].clone(), xt[j].clone()));
                            let cond = x[i].lt(&x[j]);
                            // the helper handles above are operations of their own
                            arm.prev = m.live_node_count().max(arm.prev);
                            let z = |f: &dyn Fn(i64, i64, i64) -> i64| -> Vec<i64> { (0..48).map(|p| f(cur.1[p], xt[i][p], ot[p])).collect() };
                            let next = match k % 5 {
                                0 => (cur.0.mul(&c), z(&|a, _, _| a * ck)),
                                1 => (cur.0.add(&x[i]), z(&|a, b, _| a + b)),
                                2 => (cur.0.max(&o), z(&|a, _, b| a.max(b))),
                                3 => (cond.ite(&cur.0, &o), (0..48).map(|p| if xt[i][p] < xt[j][p] { cur.1[p] } else { ot[p] }).collect()),
                                _ => (cur.0.div(&c), z(&|a, _, _| a / ck)),
                            };
                            let reach = {
                                let rc = cur.0.get_mgr();
                                let mm = rc.borrow();
                                let mut s: HashSet<u64> = [enc2(mm.zero()), enc2(mm.one()), enc2(mm.undet_boolean()), enc2(mm.undet_value())].into_iter().collect();
                                let mut st: Vec<u64> = x.iter().chain(pool.iter().map(|h| &h.0)).chain([&cur.0, &o, &next.0, &c, &cond]).map(|h| enc2(h.get_node())).collect();
                                while let Some(n) = st.pop() {
                                    if s.insert(n) {
                                        if let View::Node(_, ch) = view2(&mm, n)? {
                                            st.extend(ch);
                                        }
                                    }
                                }
                                s.len()
                            };
                            arm.step(&|| format!("operation {}", k), m.live_node_count(), reach)?;
                            cur = next;
                            if cur.1.iter().any(|v| *v > 1 << 40) {
                                cur = (x[j].clone(), xt[j].clone());
                            }
                            pool.push_back(cur.clone());
                            while pool.len() > hold {
                                pool.pop_front();
                            }
                            cx.trans(1);
                        }
                        for (h, t) in pool.iter() {
                            ensure!(mss_table(h, &sz)? == Fun::v(t.clone()), "a kept function changed");
                            cx.traces(1);
                        }
                        cx.states(rounds as u64);
                    }
                    Ok(())
                },
            );
        }
    }
}
