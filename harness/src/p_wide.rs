//! Wide diagrams: one function whose diagram alone has up to millions of nodes, so that a memo
//! table, a visited set or a node number that is narrower than it looks confuses two of its
//! nodes. A parallel arrangement of n series pairs, x1 y1 or x2 y2 or ..., has 2^n nodes when
//! every x comes before every y (s^n nodes for s-state components), and every answer about it
//! is known in closed form.
use crate::core::*;
use crate::cx::{Cx, Res};
use crate::p_misc::{bview, check_same, sizes_of, zview, Dd};
use crate::refm::*;
use bss::prelude::*;
use mss::prelude::{MddMgr, MddNode, MssMgr};
use std::collections::{HashMap, HashSet};

/// n for two states, by cost of the analysis
fn sizes(cx: &Cx, top: usize) -> Vec<usize> {
    let mut v = vec![4, 9, 13, 15, 16, 17];
    v.push(if cx.thorough { top + 1 } else { top });
    v.sort();
    v.dedup();
    v
}
fn each(cx: &mut Cx, ns: &[usize], what: &str, f: impl Fn(&mut Cx, usize) -> Res) {
    for &n in ns {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{}: {} pairs", what, n),
            |cx| {
                f(cx, n)?;
                cx.states(1);
                Ok(())
            },
        );
    }
}

/// or of the pairs x_i y_i (and of the x_i or y_i when `dual`)
fn pairs(m: &mut BddMgr, n: usize, dual: bool) -> BddNode {
    let x: Vec<BddNode> = (0..2 * n).map(|v| m.defvar(&nm(v))).collect();
    let mut f = if dual { m.one() } else { m.zero() };
    // pairs of the lowest variables last, so that the intermediate diagrams stay small
    for i in 0..n {
        f = if dual { f.and(&x[i].or(&x[n + i])) } else { f.or(&x[i].and(&x[n + i])) };
    }
    f
}

pub fn sizes_bss(cx: &mut Cx) {
    each(cx, &sizes(cx, 19), "sizes of BDD and ZDD", |cx, n| {
        let mut m = BssMgr::new();
        let x: Vec<BddNode> = (0..2 * n).map(|v| m.defvar(&nm(v))).collect();
        let mut f = m.zero();
        for i in 0..n {
            f = f.or(&x[i].and(&x[n + i]));
        }
        let (nn, nt, ne, _, _) = sizes_of(f.get_id() as u64, &bview(&f), Dd::Plain)?;
        ensure!(nn == (1u64 << (n + 1)) - 2, "{} inner nodes instead of {}", nn, (1u64 << (n + 1)) - 2);
        ensure!(f.size() == (nn, nt, ne), "size is {:?} instead of {:?}", f.size(), (nn, nt, ne));
        if n < 18 {
            let z = m.mincut(&f).ok_or("no minimal cuts")?;
            let (nn, nt, ne, _, _) = sizes_of(z.get_id() as u64, &zview(&z), Dd::Zdd)?;
            ensure!(nn == (1u64 << (n + 1)) - 2, "{} inner nodes of the cuts instead of {}", nn, (1u64 << (n + 1)) - 2);
            ensure!(z.size() == (nn, nt, ne), "size of the cuts is {:?} instead of {:?}", z.size(), (nn, nt, ne));
        }
        cx.trans(2);
        Ok(())
    });
}
pub fn sizes_mss(cx: &mut Cx) {
    let ns = msizes(cx);
    meach(cx, &ns, "sizes", |cx, n, s| {
        let mut m: MddMgr<i64> = MddMgr::new();
        let f = mpairs(&mut m, n, s);
        for h in [f.ge(&m.value(1)), f] {
            let rc = h.get_mgr();
            let view = |i: u64| view2(&rc.borrow(), i);
            let (nn, nt, ne, _, _) = sizes_of(enc2(h.get_node()), &view, Dd::Plain)?;
            ensure!(h.size() == (nn, nt, ne), "size is {:?} instead of {:?}", h.size(), (nn, nt, ne));
        }
        cx.trans(2);
        Ok(())
    });
}

/// Pictures of a diagram with more than 2^17 nodes, and of small diagrams made of nodes whose
/// numbers differ in one bit, in a forest of more than 2^20 nodes.
pub fn dot<C: Core>(cx: &mut Cx, kind: u8, lo: i64, hi: i64) {
    if !cx.mine() {
        return;
    }
    let bits = if cx.thorough { 18 } else { 16 };
    cx.case(
        || format!("{}: picture of a diagram with 2^{} leaves over {} and {}", C::NAME, bits + 1, lo, hi),
        |cx| {
            let dk = match C::NAME {
                "ZDD" => Dd::Zdd,
                "ZMDD" => Dd::Zmdd,
                _ => Dd::Plain,
            };
            let l = Layout::std(&[2; 32]);
            let mut c = C::new(&l);
            let lname = |lv: usize| l.var_of_level(lv).map(nm).unwrap_or_default();
            // all functions of four variables
            let small: Vec<usize> = vec![2; 4];
            let base: Vec<u64> = (0..1u64 << 16)
                .map(|f| {
                    let t = (0..16).map(|p| if f >> p & 1 == 1 { hi } else { lo }).collect();
                    c.build_rec(&Fun { k: kind, t }, &small, 4, 0)
                })
                .collect();
            let leaf = |i: usize, d: usize| (base[1 + i % 65_535], base[1 + (i + d) % 65_535]);
            let mut row: Vec<u64> = (0..1usize << bits)
                .map(|i| {
                    let (x, y) = leaf(i, 1 + i / 65_535);
                    c.mk(kind, 4, &[x, y])
                })
                .collect();
            let mut v = 5;
            while row.len() > 1 {
                row = row.chunks(2).map(|x| c.mk(kind, v, x)).collect();
                v += 1;
            }
            let r = row[0];
            let (nn, _, _, _, _) = sizes_of(r, &|x| c.view(x), dk)?;
            ensure!(nn > 2 << bits, "{} nodes", nn);
            check_same(&c.dot(r), r, &|x| c.view(x), &lname, dk)?;
            cx.trans(1);
            cx.states(nn);
            // more nodes
            let mut all: Vec<u64> = (0..1usize << 20)
                .map(|i| {
                    let (x, y) = leaf(i, 100 + i / 65_535);
                    c.mk(kind, 5, &[x, y])
                })
                .collect();
            all.extend(&base[1..]);
            all.sort_unstable();
            all.dedup();
            let (k, mut n) = (base[0x35c9], 0u64);
            for bit in 8..24 {
                let mut last = None;
                for i in 0..all.len() {
                    let (x, y) = (all[i], all[i] ^ 1 << bit);
                    if y < x || last.map_or(false, |l| i < l + all.len() / 24) || all.binary_search(&y).is_err() {
                        continue;
                    }
                    last = Some(i);
                    for (x, y) in [(x, y), (y, x)] {
                        let a = c.mk(kind, 6, &[x, y]);
                        let b = c.mk(kind, 6, &[y, k]);
                        let h = c.mk(kind, 7, &[a, b]);
                        check_same(&c.dot(h), h, &|x| c.view(x), &lname, dk)?;
                        n += 1;
                    }
                }
            }
            ensure!(n > 100, "only {} small diagrams", n);
            cx.states(n);
            cx.trans(n);
            Ok(())
        },
    );
}

pub fn prob_bss(cx: &mut Cx) {
    each(cx, &sizes(cx, 20), "probability", |cx, n| {
        let mut m = BddMgr::new();
        let f = pairs(&mut m, n, false);
        let pv: HashMap<String, f64> = (0..2 * n).map(|v| (nm(v), 0.5)).collect();
        // all intermediate values are multiples of 2^-2n
        let down = (0..n).fold(1.0, |a, _| a * 0.75);
        ensure!(f.prob(&pv, &[false]) == down && f.prob(&pv, &[true]) == 1.0 - down, "P = {} instead of {}", f.prob(&pv, &[true]), 1.0 - down);
        let g = f.bmeas(&pv, &[true]);
        let e = 0.5 * (0..n - 1).fold(1.0, |a, _| a * 0.75);
        ensure!(g.len() == 2 * n, "{} measures", g.len());
        for v in 0..2 * n {
            ensure!(g[&nm(v)] == e, "measure of {} is {} instead of {}", nm(v), g[&nm(v)], e);
        }
        cx.trans(3);
        Ok(())
    });
}

pub fn count_bss(cx: &mut Cx) {
    each(cx, &sizes(cx, 20), "counts", |cx, n| {
        let mut m = BddMgr::new();
        let f = pairs(&mut m, n, false);
        let dn = 3u64.pow(n as u32);
        let up = (1u64 << (2 * n)) - dn;
        ensure!(f.bdd_count(&[true]) == up, "{} true points instead of {}", f.bdd_count(&[true]), up);
        ensure!(f.bdd_count(&[false]) == dn, "{} false points instead of {}", f.bdd_count(&[false]), dn);
        cx.trans(2);
        Ok(())
    });
}

pub fn min_bss(cx: &mut Cx) {
    let ns = sizes(cx, 17);
    each(cx, &ns, "minimal sets", |cx, n| {
        let mut m = BssMgr::new();
        let x: Vec<BddNode> = (0..2 * n).map(|v| m.defvar(&nm(v))).collect();
        let mut f = m.zero();
        for i in 0..n {
            f = f.or(&x[i].and(&x[n + i]));
        }
        let p = m.minpath(&f).ok_or("no minimal paths")?;
        ensure!(p.count(&[true]) == n as u64, "{} minimal paths instead of {}", p.count(&[true]), n);
        let sorted = |mut s: Vec<String>| {
            s.sort();
            s
        };
        let mut want: HashSet<Vec<String>> = (0..n).map(|i| sorted(vec![nm(i), nm(n + i)])).collect();
        for s in p.extract(&[true]) {
            let s = sorted(s);
            ensure!(want.remove(&s), "{:?} is not a minimal path, or comes twice", s);
        }
        ensure!(want.is_empty(), "{} minimal paths missing", want.len());
        let c = m.mincut(&f).ok_or("no minimal cuts")?;
        ensure!(c.count(&[true]) == 1 << n, "{} minimal cuts instead of {}", c.count(&[true]), 1u64 << n);
        let mut seen = HashSet::new();
        for s in c.extract(&[true]).take(5000) {
            let mut hit = vec![false; n];
            for e in &s {
                let i = (0..2 * n).find(|&v| nm(v) == *e).ok_or("unknown element")? % n;
                ensure!(!hit[i], "a cut with both of a pair");
                hit[i] = true;
            }
            ensure!(s.len() == n && seen.insert(s), "a cut of another size, or twice");
        }
        ensure!(seen.len() == (1usize << n).min(5000), "{} cuts", seen.len());
        cx.trans(4);
        Ok(())
    });
    each(cx, &ns, "dual", |cx, n| {
        let mut m = BddMgr::new();
        let f = pairs(&mut m, n, false);
        let g = f.dual();
        let h = pairs(&mut m, n, true);
        ensure!(g.eq(&h), "the dual of n series pairs is not the series of n parallel pairs");
        ensure!(g.dual().eq(&f), "the dual of the dual");
        cx.trans(2);
        Ok(())
    });
}

/// maximum over the pairs of the minimum of the two components, s states each
fn mpairs(m: &mut MddMgr<i64>, n: usize, s: usize) -> MddNode<i64> {
    let x: Vec<MddNode<i64>> = (0..2 * n).map(|v| m.defvar(&nm(v), s)).collect();
    let mut f = m.value(0);
    for i in 0..n {
        f = f.max(&x[i].min(&x[n + i]));
    }
    f
}
fn msizes(cx: &Cx) -> Vec<(usize, usize)> {
    let mut v = vec![(4, 2), (12, 2), (16, 2), (17, 2), (5, 3), (9, 3), (10, 3), (11, 3), (8, 4)];
    v.push(if cx.thorough { (20, 2) } else { (19, 2) });
    if cx.thorough {
        v.push((12, 3));
    }
    v
}
fn meach(cx: &mut Cx, ns: &[(usize, usize)], what: &str, f: impl Fn(&mut Cx, usize, usize) -> Res) {
    for &(n, s) in ns {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{}: {} pairs of components with {} states", what, n, s),
            |cx| {
                f(cx, n, s)?;
                cx.states(1);
                Ok(())
            },
        );
    }
}

pub fn prob_mss(cx: &mut Cx) {
    let ns = msizes(cx);
    meach(cx, &ns, "probability", |cx, n, s| {
        let mut m: MddMgr<i64> = MddMgr::new();
        let mut f = mpairs(&mut m, n, s);
        // dyadic: 1/2, 1/4, ..., the last one repeated
        let p: Vec<f64> = (0..s).map(|i| 0.5f64.powi((i + 1).min(s - 1) as i32)).collect();
        let pv: HashMap<String, Vec<f64>> = (0..2 * n).map(|v| (nm(v), p.clone())).collect();
        // P(pair < v)
        let below = |v: usize| {
            let u: f64 = p[v.min(s)..].iter().sum();
            1.0 - u * u
        };
        let pw = |a: f64, k: usize| a.powi(k as i32);
        let close = |a: f64, b: f64| (a - b).abs() <= 1e-12;
        for v in 0..s {
            let e = pw(below(v + 1), n) - pw(below(v), n);
            let q = f.prob(&pv, &[v as i64]);
            ensure!(close(q, e), "P({}) = {} instead of {}", v, q, e);
        }
        let q = f.bmeas(&pv, &[s as i64 - 1]);
        ensure!(q.len() == 2 * n, "{} measures", q.len());
        // the top value depends on a component only through its top state
        let e = pw(below(s - 1), n - 1) * p[s - 1];
        for (w, b) in &q {
            ensure!(b.len() == s - 1, "{} measures of {}", b.len(), w);
            for (i, d) in b.iter().enumerate() {
                let e = if i == s - 2 { e } else { 0.0 };
                ensure!(close(*d, e), "measure {} of {}: {} instead of {}", i, w, d, e);
            }
        }
        let mut h = f.ge(&m.value(1));
        let e = 1.0 - pw(below(1), n);
        ensure!(close(h.prob(&pv, &[1]), e), "P(at least 1) = {} instead of {}", h.prob(&pv, &[1]), e);
        let q = h.bmeas(&pv, &[1]);
        let up: f64 = p[1..].iter().sum();
        let e = pw(below(1), n - 1) * up;
        ensure!(q.len() == 2 * n, "{} measures of the threshold", q.len());
        for (w, b) in &q {
            ensure!(close(b[0], e) && b[1..].iter().all(|d| close(*d, 0.0)), "measure of {} for the threshold: {:?} instead of {}", w, b, e);
        }
        cx.trans(s as u64 + 3);
        Ok(())
    });
}

pub fn count_mss(cx: &mut Cx) {
    let ns = msizes(cx);
    meach(cx, &ns, "counts", |cx, n, s| {
        let mut m: MddMgr<i64> = MddMgr::new();
        let f = mpairs(&mut m, n, s);
        // pairs with minimum below v
        let below = |v: usize| (s * s - (s - v) * (s - v)) as u64;
        let pw = |a: u64| a.pow(n as u32);
        for v in 0..s {
            let ss: HashSet<i64> = [v as i64].into_iter().collect();
            let e = pw(below(v + 1)) - pw(below(v));
            ensure!(f.mdd_count(&ss) == e, "{} vectors of value {} instead of {}", f.mdd_count(&ss), v, e);
        }
        let h = f.ge(&m.value(1));
        for (v, e) in [(0i64, pw(below(1))), (1, pw((s * s) as u64) - pw(below(1)))] {
            let ss: HashSet<i64> = [v].into_iter().collect();
            ensure!(h.mdd_count(&ss) == e, "threshold: {} vectors of value {} instead of {}", h.mdd_count(&ss), v, e);
        }
        cx.trans(s as u64 + 2);
        Ok(())
    });
}

pub fn min_mss(cx: &mut Cx) {
    let ns: Vec<(usize, usize)> = msizes(cx).into_iter().filter(|x| x.0 < if cx.thorough { 19 } else { 17 }).collect();
    meach(cx, &ns, "minimal paths and maximal cuts", |cx, n, s| {
        let mut m: MssMgr<i64> = MssMgr::new();
        let x: Vec<MddNode<i64>> = (0..2 * n).map(|v| m.defvar(&nm(v), s)).collect();
        let mut f = m.value(0);
        for i in 0..n {
            f = f.max(&x[i].min(&x[n + i]));
        }
        let h = f.ge(&m.value(1));
        for (what, f, top) in [("function", &f, s), ("threshold", &h, 2)] {
            let z = m.minpath(f).ok_or("no minimal paths")?;
            let c = m.mincut(f).ok_or("no maximal cuts")?;
            for v in 0..top {
                let ss: HashSet<i64> = [v as i64].into_iter().collect();
                // one pair at v and the rest at 0; all at 0 for the lowest value
                let e = if v == 0 { 1 } else { n as u64 };
                ensure!(z.count(&ss) == e, "{}: {} minimal vectors of value {} instead of {}", what, z.count(&ss), v, e);
                for p in z.extract(&ss) {
                    let up: Vec<usize> = (0..2 * n).filter(|&i| p[&nm(i)] > 0).collect();
                    let ok = if v == 0 { up.is_empty() } else { up.len() == 2 && up[1] == up[0] + n && up.iter().all(|&i| p[&nm(i)] == v) };
                    ensure!(ok, "{}: {:?} is not minimal of value {}", what, p, v);
                }
                // one of each pair at v, all others at the top; everything at the top for the highest
                let e = if v == top - 1 { 1 } else { 1u64 << n };
                ensure!(c.count(&ss) == e, "{}: {} maximal vectors of value {} instead of {}", what, c.count(&ss), v, e);
                let mut seen = HashSet::new();
                for p in c.extract(&ss).take(1000) {
                    ensure!(p.len() == 2 * n, "{}: a vector of {} components", what, p.len());
                    for i in 0..n {
                        let (a, b) = (p[&nm(i)], p[&nm(n + i)]);
                        let ok = if v == top - 1 { a == s - 1 && b == s - 1 } else { a.min(b) == v && a.max(b) == s - 1 };
                        ensure!(ok, "{}: pair at {} and {} in a maximal vector of value {}", what, a, b, v);
                    }
                    let key: Vec<usize> = (0..2 * n).map(|i| p[&nm(i)]).collect();
                    ensure!(seen.insert(key), "{}: a vector twice", what);
                }
                ensure!(seen.len() as u64 == e.min(1000), "{}: {} maximal vectors", what, seen.len());
            }
            for z in [&z, &c] {
                let mut l = z.labels();
                l.sort();
                ensure!(l == (0..top as i64).collect::<Vec<_>>(), "{}: labels {:?}", what, l);
            }
            cx.trans(2 * top as u64 + 2);
        }
        Ok(())
    });
}

// Small functions among nodes with large numbers: two nodes of one function whose numbers differ
// in exactly one bit, in a forest of more than 2^21 nodes.

fn far_bits(cx: &Cx) -> Vec<u32> {
    (8..=if cx.thorough { 23 } else { 21 }).collect()
}
/// (lower, higher) cofactors over three variables, two of them for each bit
fn cofactors(k: usize) -> Vec<(u8, u8)> {
    let mono: Vec<u8> = (0..=255u8).filter(|f| (0..3).all(|v| (0..8).all(|p: u8| p >> v & 1 == 1 || f >> p & 1 <= f >> (p | 1 << v) & 1))).collect();
    let all: Vec<(u8, u8)> = mono.iter().flat_map(|&a| mono.iter().filter(move |&&b| a != b && a & !b == 0).map(move |&b| (a, b))).collect();
    // spread over the list, no pair twice
    (0..k).map(|i| all[i * (all.len() / k)]).collect()
}
/// table over six variables of x5 and a, or x4 and b
fn joined(a: (u8, u8), b: (u8, u8)) -> u64 {
    let t = |c: (u8, u8), p: usize| if p >> 3 & 1 == 1 { c.1 >> (p & 7) & 1 } else { c.0 >> (p & 7) & 1 };
    (0..64usize).filter(|&p| p >> 5 & 1 == 1 && t(a, p) == 1 || p >> 4 & 1 == 1 && t(b, p) == 1).map(|p| 1u64 << p).sum()
}
/// Place node `b` of every pair early and its partner where its number is larger by `1 << bit`.
fn place<N: Clone>(bits: &[u32], mk: impl Fn((u8, u8)) -> N, id: impl Fn(&N) -> usize, mut fill: impl FnMut() -> Option<usize>) -> Vec<(N, (u8, u8), N, (u8, u8))> {
    let c = cofactors(2 * bits.len());
    let early: Vec<N> = (0..bits.len()).map(|i| mk(c[2 * i])).collect();
    let mut last = early.iter().map(&id).max().unwrap_or(0);
    let mut out = vec![];
    for (i, bit) in bits.iter().enumerate() {
        let target = id(&early[i]) + (1usize << bit);
        while last + 1 < target {
            match fill() {
                Some(n) => last = last.max(n),
                None => break,
            }
        }
        let a = mk(c[2 * i + 1]);
        last = last.max(id(&a));
        out.push((a, c[2 * i + 1], early[i].clone(), c[2 * i]));
    }
    out
}
/// counter of filler nodes: (variable, low, high), low and high different
struct Fill(usize);
impl Fill {
    fn next(&mut self, vars: usize) -> Option<(usize, usize, usize)> {
        loop {
            let i = self.0;
            self.0 += 1;
            let (v, a, b) = (i >> 16, i >> 8 & 255, i & 255);
            if v >= vars {
                return None;
            }
            if a != b {
                return Some((v, a, b));
            }
        }
    }
}
const FILL_VARS: usize = 140;

pub fn far_bss(cx: &mut Cx, f: impl Fn(&BssMgr, &BddNode, u64) -> Res) {
    if !cx.mine() {
        return;
    }
    let bits = far_bits(cx);
    cx.case(
        || format!("BDD: pairs of nodes whose numbers differ by 2^{} to 2^{}", bits[0], bits[bits.len() - 1]),
        |cx| {
            let mut m = BssMgr::new();
            m.bdd().set_gc_threshold(1 << 40);
            let x: Vec<BddNode> = (0..6).map(|v| m.defvar(&nm(v))).collect();
            let y: Vec<usize> = (0..FILL_VARS).map(|v| m.defvar(&nm(10 + v)).get_header().unwrap()).collect();
            let hd: Vec<usize> = x.iter().map(|x| x.get_header().unwrap()).collect();
            let lit = |b: bool| if b { m.one() } else { m.zero() };
            let pool: Vec<BddNode> = (0..256u32)
                .map(|t| {
                    let mut r: Vec<BddNode> = (0..8).map(|p| lit(t >> p & 1 == 1)).collect();
                    for h in &hd[..3] {
                        r = r.chunks(2).map(|c| m.create_node(*h, &c[0], &c[1])).collect();
                    }
                    r.remove(0)
                })
                .collect();
            let mut n = Fill(0);
            let ps = place(&bits, |c| m.create_node(hd[3], &pool[c.0 as usize], &pool[c.1 as usize]), |h| h.get_id(), || n.next(FILL_VARS).map(|(v, a, b)| m.create_node(y[v], &pool[a], &pool[b]).get_id()));
            for ((a, ta, b, tb), bit) in ps.iter().zip(&bits) {
                let h = x[5].and(a).or(&x[4].and(b));
                f(&m, &h, joined(*ta, *tb)).map_err(|e| format!("nodes {} and {} (2^{} apart): {}", b.get_id(), a.get_id(), bit, e))?;
            }
            cx.states(bits.len() as u64);
            cx.trans(bits.len() as u64);
            Ok(())
        },
    );
}

pub fn far_zdd(cx: &mut Cx, f: impl Fn(&ZddNode, u64) -> Res) {
    if !cx.mine() {
        return;
    }
    let bits = far_bits(cx);
    cx.case(
        || format!("ZDD: pairs of nodes whose numbers differ by 2^{} to 2^{}", bits[0], bits[bits.len() - 1]),
        |cx| {
            let mut m = ZddMgr::new();
            m.set_gc_threshold(1 << 40);
            let x: Vec<ZddNode> = (0..6).map(|v| m.singleton(&nm(v))).collect();
            let y: Vec<ZddNode> = (0..256 * 90).map(|v| m.singleton(&nm(10 + v))).collect();
            let pool: Vec<ZddNode> = (0..256u32)
                .map(|t| {
                    let sets: Vec<Vec<String>> = (0..8usize).filter(|p| t >> p & 1 == 1).map(|p| (0..3).filter(|v| p >> v & 1 == 1).map(nm).collect()).collect();
                    m.from_sets(&sets)
                })
                .collect();
            let up: Vec<ZddNode> = pool.iter().map(|h| x[3].product(h)).collect();
            let mut n = 0usize;
            let fill = || {
                n += 1;
                if n % 256 == 0 {
                    n += 1; // the empty family
                }
                (n / 256 < y.len()).then(|| y[n / 256].product(&pool[n % 256]).get_id())
            };
            let ps = place(&bits, |c| pool[c.0 as usize].union(&up[c.1 as usize]), |h| h.get_id(), fill);
            for ((a, ta, b, tb), bit) in ps.iter().zip(&bits) {
                let h = x[5].product(a).union(&x[4].product(b));
                // {x5} times a, and {x4} times b
                let t = |c: (u8, u8), p: usize| (if p >> 3 & 1 == 1 { c.1 } else { c.0 }) >> (p & 7) & 1 == 1;
                let e: u64 = (0..64usize).filter(|&p| p >> 4 == 2 && t(*ta, p) || p >> 4 == 1 && t(*tb, p)).map(|p| 1u64 << p).sum();
                f(&h, e).map_err(|e| format!("nodes {} and {} (2^{} apart): {}", b.get_id(), a.get_id(), bit, e))?;
            }
            cx.states(bits.len() as u64);
            cx.trans(bits.len() as u64);
            Ok(())
        },
    );
}

pub fn far_mss(cx: &mut Cx, f: impl Fn(&MssMgr<i64>, &mut MddNode<i64>, &Dom, &Fun) -> Res) {
    for value in [false, true] {
        if !cx.mine() {
            continue;
        }
        let bits = far_bits(cx);
        let f = &f;
        cx.case(
            || format!("MDD ({}): pairs of nodes whose numbers differ by 2^{} to 2^{}", if value { "values" } else { "Boolean" }, bits[0], bits[bits.len() - 1]),
            |cx| {
                let mut m: MssMgr<i64> = MssMgr::new();
                m.set_gc_threshold(1 << 40);
                let hd: Vec<usize> = (0..6).map(|v| m.defvar(&nm(v), 2).get_header().unwrap()).collect();
                let y: Vec<usize> = (0..FILL_VARS).map(|v| m.defvar(&nm(10 + v), 2).get_header().unwrap()).collect();
                let lit = |b: bool| if value { m.value(if b { 5 } else { 0 }) } else { m.boolean(b) };
                let pool: Vec<MddNode<i64>> = (0..256u32)
                    .map(|t| {
                        let mut r: Vec<MddNode<i64>> = (0..8).map(|p| lit(t >> p & 1 == 1)).collect();
                        for h in &hd[..3] {
                            r = r.chunks(2).map(|c| m.create_node(*h, c)).collect();
                        }
                        r.remove(0)
                    })
                    .collect();
                let id = |h: &MddNode<i64>| (enc2(h.get_node()) / 2) as usize;
                let mut n = Fill(0);
                let ps = place(
                    &bits,
                    |c| m.create_node(hd[3], &[pool[c.0 as usize].clone(), pool[c.1 as usize].clone()]),
                    id,
                    || n.next(FILL_VARS).map(|(v, a, b)| id(&m.create_node(y[v], &[pool[a].clone(), pool[b].clone()]))),
                );
                let top = |v: usize| m.create_node(hd[v], &[lit(false), if value { m.value(9) } else { lit(true) }]);
                let d = Dom::new(&[2; 6]);
                for ((a, ta, b, tb), bit) in ps.iter().zip(&bits) {
                    let mut h = if value { top(5).min(a).max(&top(4).min(b)) } else { top(5).and(a).or(&top(4).and(b)) };
                    let t = joined(*ta, *tb);
                    let fun = if value { Fun::v(bits_of(t, 5)) } else { Fun::b(bits_of(t, 1)) };
                    f(&m, &mut h, &d, &fun).map_err(|e| format!("nodes {} and {} (2^{} apart): {}", id(b), id(a), bit, e))?;
                }
                cx.states(bits.len() as u64);
                cx.trans(bits.len() as u64);
                Ok(())
            },
        );
    }
}
fn bits_of(t: u64, one: i64) -> Vec<i64> {
    (0..64).map(|p| if t >> p & 1 == 1 { one } else { 0 }).collect()
}
pub fn far_sizes(cx: &mut Cx) {
    far_bss(cx, |_, h, _| {
        let (nn, nt, ne, _, _) = sizes_of(h.get_id() as u64, &bview(h), Dd::Plain)?;
        ensure!(h.size() == (nn, nt, ne), "size is {:?} instead of {:?}", h.size(), (nn, nt, ne));
        check_same(&h.dot(), h.get_id() as u64, &bview(h), &nm, Dd::Plain)
    });
    far_zdd(cx, |h, _| {
        let (nn, nt, ne, _, _) = sizes_of(h.get_id() as u64, &zview(h), Dd::Zdd)?;
        ensure!(h.size() == (nn, nt, ne), "size is {:?} instead of {:?}", h.size(), (nn, nt, ne));
        check_same(&h.dot(), h.get_id() as u64, &zview(h), &nm, Dd::Zdd)
    });
    far_mss(cx, |_, h, _, _| {
        let rc = h.get_mgr();
        let view = |i: u64| view2(&rc.borrow(), i);
        let (nn, nt, ne, _, _) = sizes_of(enc2(h.get_node()), &view, Dd::Plain)?;
        ensure!(h.size() == (nn, nt, ne), "size is {:?} instead of {:?}", h.size(), (nn, nt, ne));
        check_same(&h.dot(), enc2(h.get_node()), &view, &nm, Dd::Plain)
    });
}
