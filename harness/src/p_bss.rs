//! C09 probability/importance, C10 minimal sets, C11 counting/extraction, C12 n-ary and
//! k-of-n (binary part), C13 RPN.
use crate::cx::{at, Cx, Res};
use crate::eng::FxMap;
use crate::p_bdd::{build_h, table_h};
use crate::refm::*;
use bss::prelude::{BddMgr, BddNode, BssMgr, ZddNode};
use std::collections::{BTreeSet, HashMap};
use std::ops::{Add, Mul, Sub};

fn names(n: usize) -> Vec<String> {
    (0..n).map(|v| nm(v)).collect()
}

/// A manager whose variables were defined in the order `ord` (ord[level] = variable number).
fn mgr(ord: &[usize]) -> (BddMgr, Vec<BddNode>) {
    let mut m = BddMgr::new();
    let mut x: Vec<Option<BddNode>> = vec![None; ord.len()];
    for &v in ord {
        x[v] = Some(m.defvar(&nm(v)));
    }
    (m, x.into_iter().map(|x| x.unwrap()).collect())
}
/// Build a handle for the table over variable numbers, for any definition order.
fn build_ord(m: &BddMgr, x: &[BddNode], ord: &[usize], t: &[i64]) -> BddNode {
    fn rec(m: &BddMgr, x: &[BddNode], ord: &[usize], t: &[i64], l: usize, base: usize) -> BddNode {
        if l == 0 {
            return if t[base] == 1 { m.one() } else { m.zero() };
        }
        let v = ord[l - 1];
        let a = rec(m, x, ord, t, l - 1, base);
        let b = rec(m, x, ord, t, l - 1, base | 1 << v);
        m.create_node(x[v].get_header().unwrap(), &a, &b)
    }
    rec(m, x, ord, t, ord.len(), 0)
}
fn tabf(n: usize, f: u64) -> Vec<i64> {
    bits(1 << n, f)
}
fn depends(n: usize, f: u64, v: usize) -> bool {
    (0..1usize << n).any(|p| p >> v & 1 == 1 && (f >> p & 1) != (f >> (p ^ 1 << v) & 1))
}

// ------------------------------------------------------------------ C09

/// Polynomials with integer coefficients in N variables, degree at most 2 in each.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Poly<const C: usize>(pub [i64; C]);
impl<const C: usize> Poly<C> {
    pub fn zero() -> Self {
        Poly([0; C])
    }
    pub fn var(v: usize) -> Self {
        let mut p = [0; C];
        p[3usize.pow(v as u32)] = 1;
        Poly(p)
    }
}
impl<const C: usize> From<f64> for Poly<C> {
    fn from(x: f64) -> Self {
        assert!(x == x.trunc(), "non-integer constant {}", x);
        let mut p = [0; C];
        p[0] = x as i64;
        Poly(p)
    }
}
impl<const C: usize> Add for Poly<C> {
    type Output = Self;
    fn add(mut self, o: Self) -> Self {
        for i in 0..C {
            self.0[i] += o.0[i];
        }
        self
    }
}
impl<const C: usize> Sub for Poly<C> {
    type Output = Self;
    fn sub(mut self, o: Self) -> Self {
        for i in 0..C {
            self.0[i] -= o.0[i];
        }
        self
    }
}
impl<const C: usize> Mul for Poly<C> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let mut r = [0; C];
        for i in 0..C {
            if self.0[i] == 0 {
                continue;
            }
            for j in 0..C {
                if o.0[j] == 0 {
                    continue;
                }
                // digit-wise sum of exponents
                let (mut a, mut b, mut k, mut st) = (i, j, 0, 1);
                while st < C {
                    let d = a % 3 + b % 3;
                    assert!(d < 3, "degree too high");
                    k += d * st;
                    a /= 3;
                    b /= 3;
                    st *= 3;
                }
                r[k] += self.0[i] * o.0[j];
            }
        }
        Poly(r)
    }
}

const SS: [&[bool]; 6] = [&[true], &[false], &[true, false], &[], &[true, true], &[false, true, true]];

/// Reference probability polynomial pieces: P(f in ss), for generic arithmetic.
fn ref_prob<T>(n: usize, f: &dyn Fn(usize) -> bool, p: &[T], ss: &[bool]) -> T
where
    T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy + From<f64>,
{
    let mut s = T::from(0.0);
    for q in 0..1usize << n {
        if ss.contains(&f(q)) {
            let mut w = T::from(1.0);
            for (v, &pv) in p.iter().enumerate() {
                w = w * if q >> v & 1 == 1 { pv } else { T::from(1.0) - pv };
            }
            s = s + w;
        }
    }
    s
}
fn ref_bmeas<T>(n: usize, f: &dyn Fn(usize) -> bool, p: &[T], ss: &[bool], v: usize) -> T
where
    T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy + From<f64>,
{
    let up = ref_prob(n, &|q| f(q | 1 << v), p, ss);
    let dn = ref_prob(n, &|q| f(q & !(1 << v)), p, ss);
    up - dn
}

fn check_prob<T>(h: &BddNode, n: usize, f: &dyn Fn(usize) -> bool, dep: &dyn Fn(usize) -> bool, p: &[T], ss: &[bool]) -> Res
where
    T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy + Clone + PartialEq + From<f64> + std::fmt::Debug,
{
    let pv: HashMap<String, T> = names(n).into_iter().zip(p.iter().copied()).collect();
    let e = ref_prob(n, f, p, ss);
    let g = h.prob(&pv, ss);
    ensure!(g == e, "prob {:?} at {:?} is {:?} instead of {:?}", ss, p, g, e);
    let b = h.bmeas(&pv, ss);
    for v in 0..n {
        let e = ref_bmeas(n, f, p, ss, v);
        let name = nm(v);
        match b.get(&name) {
            Some(g) => ensure!(*g == e, "bmeas {:?} of {} at {:?} is {:?} instead of {:?}", ss, name, p, g, e),
            None => ensure!(!dep(v), "bmeas has no entry for {}", name),
        }
    }
    for k in b.keys() {
        ensure!(names(n).contains(k), "bmeas of unknown variable {}", k);
    }
    Ok(())
}

pub fn c09(cx: &mut Cx) {
    cx.section("all 3-variable functions, every probability vector of a dyadic grid");
    let grid = [0.0, 0.25, 0.5, 0.75, 1.0];
    for f in 0..256u64 {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("function {:#04x} at all 125 probability vectors over {:?}, all value selections", f, grid),
            |cx| {
                let (m, x) = mgr(&[0, 1, 2]);
                let h = build_h(&m, &x, &tabf(3, f));
                for k in 0..125usize {
                    at(&[k as u64]);
                    let p = [grid[k % 5], grid[k / 5 % 5], grid[k / 25]];
                    for ss in SS {
                        check_prob::<f64>(&h, 3, &|q| f >> q & 1 == 1, &|v| depends(3, f, v), &p, ss)?;
                    }
                }
                cx.states(1);
                cx.trans(125 * 8);
                Ok(())
            },
        );
    }
    cx.section("all 3-variable functions, every variable order, all probabilities (polynomials)");
    for ord in perms(3) {
        for f in 0..256u64 {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("function {:#04x}, variable order {:?}, polynomial probabilities", f, ord),
                |cx| {
                    let (m, x) = mgr(&ord);
                    let h = build_ord(&m, &x, &ord, &tabf(3, f));
                    let p: Vec<Poly<27>> = (0..3).map(Poly::var).collect();
                    for ss in SS {
                        check_prob(&h, 3, &|q| f >> q & 1 == 1, &|v| depends(3, f, v), &p, ss)?;
                    }
                    cx.states(1);
                    cx.trans(8);
                    Ok(())
                },
            );
        }
    }
    cx.section("all 4-variable functions, all probabilities (polynomials)");
    let mut st: Option<(BddMgr, Vec<BddNode>)> = None;
    for hi in 0..256u64 {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("functions {:#04x}00..{:#04x}ff, polynomial probabilities", hi, hi),
            |cx| {
                let (m, x) = st.get_or_insert_with(|| mgr(&[0, 1, 2, 3]));
                let p: Vec<Poly<81>> = (0..4).map(Poly::var).collect();
                // minterm polynomials and their one-variable-forced versions
                let mut mint = vec![];
                let mut dmint = vec![vec![]; 4];
                for q in 0..16usize {
                    mint.push(ref_prob(4, &|r| r == q, &p, &[true]));
                    for v in 0..4 {
                        dmint[v].push(ref_bmeas(4, &|r| r == q, &p, &[true], v));
                    }
                }
                let pv: HashMap<String, Poly<81>> = names(4).into_iter().zip(p.iter().copied()).collect();
                for lo in 0..256u64 {
                    let f = hi << 8 | lo;
                    at(&[f]);
                    let h = build_h(m, x, &tabf(4, f));
                    for ss in [&[true][..], &[false][..]] {
                        let want = ss[0] as u64;
                        let e = (0..16).filter(|q| f >> q & 1 == want).fold(Poly::zero(), |a, q| a + mint[q]);
                        let g = h.prob(&pv, ss);
                        ensure!(g == e, "prob {:?} of {:#06x}", ss, f);
                        let b = h.bmeas(&pv, ss);
                        for v in 0..4 {
                            let e = (0..16).filter(|q| f >> q & 1 == want).fold(Poly::zero(), |a, q| a + dmint[v][q]);
                            match b.get(&nm(v)) {
                                Some(g) => ensure!(*g == e, "bmeas {:?} of x{} in {:#06x}", ss, v, f),
                                None => ensure!(e == Poly::zero(), "bmeas of {:#06x} lacks x{}", f, v),
                            }
                        }
                    }
                }
                cx.states(256);
                cx.trans(4 * 256);
                Ok(())
            },
        );
    }
    cx.section("query histories: two queries on one handle, collections in between");
    for f in 0..256u64 {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("function {:#04x}: every ordered pair of queries (8 vectors x 3 selections, prob or bmeas), collection between or not", f),
            |cx| {
                let (m, x) = mgr(&[0, 1, 2]);
                let h = build_h(&m, &x, &tabf(3, f));
                let pts: Vec<[f64; 3]> = (0..8).map(|k| [[0.25, 0.5][k & 1], [0.75, 0.125][k >> 1 & 1], [0.5, 1.0][k >> 2]]).collect();
                let fun = |q: usize| f >> q & 1 == 1;
                let dep = |v: usize| depends(3, f, v);
                let mut n = 0;
                for a in &pts {
                    for sa in &SS[..3] {
                        for b in &pts {
                            for sb in &SS[..3] {
                                check_prob::<f64>(&h, 3, &fun, &dep, a, sa)?;
                                if n % 3 == 1 {
                                    m.gc(&[]);
                                }
                                if n % 7 == 2 {
                                    let _ = build_h(&m, &x, &tabf(3, f ^ (n % 256)));
                                }
                                check_prob::<f64>(&h, 3, &fun, &dep, b, sb)?;
                                n += 1;
                            }
                        }
                    }
                }
                cx.states(1);
                cx.trans(4 * n);
                cx.traces(n);
                Ok(())
            },
        );
    }
    cx.section("diagrams on recycled places");
    let pts = [[0.25, 0.5, 0.75, 0.125], [0.5, 0.875, 0.0, 0.5]];
    crate::p_recycled::bss_handles(cx, "prob and bmeas", &|_, h, n, f| {
        for p in &pts {
            for ss in &SS[..3] {
                check_prob::<f64>(h, n, &|q| f >> q & 1 == 1, &|v| depends(n, f, v), &p[..n], ss)?;
            }
        }
        Ok(())
    });
    cx.section("components without a given probability count as 0; extra names are ignored");
    for f in 0..256u64 {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("function {:#04x}: every subset of the probabilities given", f),
            |cx| {
                let (m, x) = mgr(&[0, 1, 2]);
                let h = build_h(&m, &x, &tabf(3, f));
                for given in 0..8usize {
                    let full = [0.5, 0.25, 0.75];
                    let p: Vec<f64> = (0..3).map(|v| if given >> v & 1 == 1 { full[v] } else { 0.0 }).collect();
                    let mut pv: HashMap<String, f64> = (0..3).filter(|v| given >> v & 1 == 1).map(|v| (nm(v), full[v])).collect();
                    pv.insert("other".into(), 0.3);
                    let fun = |q: usize| f >> q & 1 == 1;
                    let g = h.prob(&pv, &[true]);
                    ensure!(g == ref_prob(3, &fun, &p, &[true]), "prob with {:?} is {}", pv, g);
                    let b = h.bmeas(&pv, &[true]);
                    for v in 0..3 {
                        let e = ref_bmeas(3, &fun, &p, &[true], v);
                        match b.get(&nm(v)) {
                            Some(g) => ensure!(*g == e, "bmeas of x{} with {:?} is {}", v, pv, g),
                            None => ensure!(!depends(3, f, v), "bmeas lacks x{}", v),
                        }
                    }
                }
                cx.states(1);
                cx.trans(16);
                Ok(())
            },
        );
    }
    cx.section("k-of-n and layered systems to 12 components");
    for n in 2..=12usize {
        for k in 1..=n {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("{}-of-{} with probabilities from {{1/4,1/2,3/4}}", k, n),
                |cx| {
                    let ord: Vec<usize> = (0..n).collect();
                    let (m, x) = mgr(&ord);
                    let h = m.kofn(k, &x);
                    let p: Vec<f64> = (0..n).map(|v| [0.25, 0.5, 0.75, 0.5, 0.25][(v * v + k) % 5]).collect();
                    let fun = |q: usize| q.count_ones() as usize >= k;
                    check_prob::<f64>(&h, n, &fun, &|_| true, &p, &[true])?;
                    check_prob::<f64>(&h, n, &fun, &|_| true, &p, &[false])?;
                    cx.states(1);
                    cx.trans(4);
                    Ok(())
                },
            );
        }
    }
    cx.section("names that are easy to confuse");
    crate::p_names::prob_bss(cx);
    cx.section("large systems in closed form");
    crate::p_large::prob_bss(cx);
    cx.section("wide diagrams: answers in closed form");
    crate::p_wide::prob_bss(cx);
    cx.section("nodes with large numbers");
    crate::p_wide::far_bss(cx, |_, h, t| {
        for p in [[0.5; 6], [0.25, 0.5, 0.75, 0.5, 0.25, 0.75]] {
            for ss in [&[true][..], &[false]] {
                check_prob(h, 6, &|q| t >> q & 1 == 1, &|v| depends(6, t, v), &p, ss)?;
            }
        }
        Ok(())
    });
    cx.section("long series, parallel and parity systems");
    for n in [20usize, 64, 65, 200, 300] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{} components in series / in parallel / parity, probability 1/2", n),
            |cx| {
                let ord: Vec<usize> = (0..n).collect();
                let (m, x) = mgr(&ord);
                let s = m.and(&x);
                let p = m.or(&x);
                let mut par = m.zero();
                for y in &x {
                    par = par.xor(y);
                }
                let pv: HashMap<String, f64> = names(n).into_iter().map(|k| (k, 0.5)).collect();
                let t = 0.5f64.powi(n as i32);
                // results need not be representable for large n: compare up to rounding
                let near = |a: f64, b: f64| (a - b).abs() <= 1e-12;
                ensure!(near(s.prob(&pv, &[true]), t), "series");
                ensure!(near(p.prob(&pv, &[false]), t), "parallel");
                ensure!(near(s.prob(&pv, &[false]), 1.0 - t) && near(p.prob(&pv, &[true]), 1.0 - t), "series, parallel");
                ensure!(near(par.prob(&pv, &[true]), 0.5) && near(par.prob(&pv, &[false]), 0.5), "parity");
                let (bs, bp, bx) = (s.bmeas(&pv, &[true]), p.bmeas(&pv, &[true]), par.bmeas(&pv, &[true]));
                for k in names(n) {
                    ensure!(near(bs[&k], 2.0 * t) && near(bp[&k], 2.0 * t), "importance of {} in series/parallel", k);
                    ensure!(near(bx[&k], 0.0), "importance of {} in parity is {}", k, bx[&k]);
                }
                // one perfect component decides
                let mut pv2 = pv.clone();
                pv2.insert(nm(7), 1.0);
                ensure!(near(p.prob(&pv2, &[true]), 1.0) && near(s.prob(&pv2, &[true]), 2.0 * t), "with one perfect component");
                pv2.insert(nm(7), 0.0);
                ensure!(near(s.prob(&pv2, &[true]), 0.0) && near(s.prob(&pv2, &[false]), 1.0), "with one failed component");
                cx.states(3);
                cx.trans(10);
                Ok(())
            },
        );
    }
    cx.section("probability of shared, skipped and late-defined variables");
    for i in 0..6usize {
        for j in 0..6usize {
            if i == j || !cx.mine() {
                continue;
            }
            cx.case(
                || format!("all 2-variable functions on x{} and x{} of 6 variables", i, j),
                |cx| {
                    let ord: Vec<usize> = (0..6).collect();
                    let (m, x) = mgr(&ord);
                    let p: Vec<f64> = (0..6).map(|v| [0.25, 0.75, 0.5, 0.125, 0.875, 0.625][v]).collect();
                    for f in 0..16u64 {
                        let g = |q: usize| f >> ((q >> i & 1) | (q >> j & 1) << 1) & 1 == 1;
                        let t: Vec<i64> = (0..64).map(|q| g(q) as i64).collect();
                        let h = build_h(&m, &x, &t);
                        let d = |v: usize| (v == i && depends(2, f, 0)) || (v == j && depends(2, f, 1));
                        for ss in SS {
                            check_prob::<f64>(&h, 6, &g, &d, &p, ss)?;
                        }
                    }
                    cx.states(16);
                    cx.trans(128);
                    Ok(())
                },
            );
        }
    }
}

// ------------------------------------------------------------------ C10

fn is_mono(n: usize, f: u64) -> bool {
    (0..1usize << n).all(|p| (0..n).all(|v| p >> v & 1 == 1 || f >> p & 1 <= f >> (p | 1 << v) & 1))
}
/// minimal true points of a monotone function given by evaluation
fn min_true(n: usize, f: &dyn Fn(usize) -> bool) -> BTreeSet<usize> {
    (0..1usize << n).filter(|&p| f(p) && (0..n).all(|v| p >> v & 1 == 0 || !f(p ^ 1 << v))).collect()
}
fn dual_of(n: usize, f: u64) -> u64 {
    let m = (1usize << n) - 1;
    (0..1usize << n).map(|p| ((f >> (!p & m) & 1) ^ 1) << p).sum()
}
fn fam(h: &ZddNode) -> Result<BTreeSet<usize>, String> {
    let mut o = BTreeSet::new();
    for s in h.extract(&[true]) {
        let mut p = 0usize;
        for e in &s {
            let v: usize = vi(e).ok_or_else(|| format!("odd element {}", e))?;
            ensure!(p >> v & 1 == 0, "element twice in {:?}", s);
            p |= 1 << v;
        }
        ensure!(o.insert(p), "set {:?} listed twice", s);
    }
    ensure!(h.count(&[true]) == o.len() as u64, "count {} of {} sets", h.count(&[true]), o.len());
    Ok(o)
}

fn check_min(m: &BssMgr, h: &BddNode, n: usize, f: u64) -> Result<Option<(ZddNode, ZddNode)>, String> {
    let mono = is_mono(n, f);
    let (a, b) = (m.minpath(h), m.mincut(h));
    if !mono {
        ensure!(a.is_none(), "minimal paths reported for the non-monotone function {:#x}", f);
        ensure!(b.is_none(), "minimal cuts reported for the non-monotone function {:#x}", f);
        return Ok(None);
    }
    let a = a.ok_or_else(|| format!("no minimal paths for monotone {:#x}", f))?;
    let b = b.ok_or_else(|| format!("no minimal cuts for monotone {:#x}", f))?;
    let e = min_true(n, &|p| f >> p & 1 == 1);
    let g = fam(&a)?;
    ensure!(g == e, "minimal paths of {:#x}: {:?} instead of {:?}", f, g, e);
    let d = dual_of(n, f);
    let e = min_true(n, &|p| d >> p & 1 == 1);
    let g = fam(&b)?;
    ensure!(g == e, "minimal cuts of {:#x}: {:?} instead of {:?}", f, g, e);
    Ok(Some((a, b)))
}

fn bmgr(ord: &[usize]) -> (BssMgr, Vec<BddNode>) {
    let mut m = BssMgr::new();
    let mut x: Vec<Option<BddNode>> = vec![None; ord.len()];
    for &v in ord {
        x[v] = Some(m.defvar(&nm(v)));
    }
    (m, x.into_iter().map(|x| x.unwrap()).collect())
}

fn mono_funs(n: usize) -> Vec<u64> {
    if n == 0 {
        return vec![0, 1];
    }
    let s = mono_funs(n - 1);
    let w = 1u32 << (n - 1);
    let mut o = vec![];
    for &a in &s {
        for &b in &s {
            if a & !b == 0 {
                o.push(b << w | a);
            }
        }
    }
    o
}

/// Every ordered pair of functions on one system manager: the first one's families and dual,
/// a collection that keeps some of them, then the second one's.
fn recycled(cx: &mut Cx) {
    let mono: Vec<u64> = mono_funs(3);
    for keep in 0..8u32 {
        for (i, &f) in mono.iter().enumerate() {
            if !cx.mine() {
                continue;
            }
            let mono = &mono;
            cx.case(
                || format!("{:#04x}, then a collection keeping (function, families, dual)={:#05b}, then every 3-variable function", f, keep),
                |cx| {
                    let (m, x) = bmgr(&[[0, 1, 2], [2, 0, 1], [1, 2, 0]][i % 3]);
                    let ord = [[0, 1, 2], [2, 0, 1], [1, 2, 0]][i % 3];
                    // the diagram is read by level
                    let by = |f: u64| -> Vec<i64> { (0..8usize).map(|q| (f >> (0..3).map(|l| (q >> l & 1) << ord[l]).sum::<usize>() & 1) as i64).collect() };
                    let mut fams: std::collections::BTreeMap<u64, (ZddNode, ZddNode)> = std::collections::BTreeMap::new();
                    for g in 0..256u64 {
                        at(&[g]);
                        let h = build_ord(m.bdd(), &x, &ord, &tabf(3, f));
                        let ab = check_min(&m, &h, 3, f)?;
                        let d = h.dual();
                        ensure!(table_h(&d, 3) == by(dual_of(3, f)), "dual of {:#x}", f);
                        let h = Some(h).filter(|_| keep & 1 != 0);
                        let ab = ab.filter(|_| keep & 2 != 0);
                        let d = Some(d).filter(|_| keep & 4 != 0);
                        m.bdd().gc(&[]);
                        m.zdd().set_gc_threshold(1);
                        let hg = build_ord(m.bdd(), &x, &ord, &tabf(3, g));
                        let cd = check_min(&m, &hg, 3, g)?;
                        m.zdd().set_gc_threshold(1 << 20);
                        let dg = hg.dual();
                        ensure!(table_h(&dg, 3) == by(dual_of(3, g)), "dual of {:#x}", g);
                        if let Some(h) = h {
                            ensure!(table_h(&h, 3) == by(f), "the kept function changed");
                            ensure!(h.eq(&dg) == (dual_of(3, g) == f) && h.eq(&hg) == (f == g), "the kept function and {:#x} or its dual", g);
                        }
                        if let Some(d) = d {
                            ensure!(table_h(&d, 3) == by(dual_of(3, f)), "the kept dual changed");
                            ensure!(d.eq(&hg) == (dual_of(3, f) == g), "the kept dual and {:#x}", g);
                        }
                        if let (Some((a, b)), Some((c, e))) = (&ab, &cd) {
                            ensure!(fam(a)? == min_true(3, &|p| f >> p & 1 == 1), "the kept paths changed");
                            let d = dual_of(3, f);
                            ensure!(fam(b)? == min_true(3, &|p| d >> p & 1 == 1), "the kept cuts changed");
                            ensure!(a.eq(c) == (f == g) && b.eq(e) == (f == g), "kept families and those of {:#x}", g);
                            ensure!(a.eq(e) == (dual_of(3, g) == f), "kept paths and the cuts of {:#x}", g);
                            let want: BTreeSet<usize> = fam(a)?.intersection(&fam(c)?).copied().collect();
                            ensure!(fam(&a.intersect(c))? == want, "paths common with {:#x}", g);
                            let want: BTreeSet<usize> = fam(b)?.difference(&fam(e)?).copied().collect();
                            ensure!(fam(&b.setdiff(e))? == want, "cuts not shared with {:#x}", g);
                        }
                        if keep == 7 && mono.contains(&g) {
                            fams.insert(g, cd.ok_or("no families")?);
                        }
                    }
                    for (g, (a, b)) in &fams {
                        ensure!(fam(a)? == min_true(3, &|p| g >> p & 1 == 1), "at the end: paths of {:#x}", g);
                        let d = dual_of(3, *g);
                        ensure!(fam(b)? == min_true(3, &|p| d >> p & 1 == 1), "at the end: cuts of {:#x}", g);
                    }
                    cx.states(256);
                    cx.trans(256 * 8);
                    cx.traces(256);
                    Ok(())
                },
            );
        }
    }
}

pub fn c10(cx: &mut Cx) {
    for (gc, nm) in [(false, "all 4-variable functions: minimal paths, cuts, dual"), (true, "all 4-variable functions with collections after every operation")] {
        cx.section(nm);
        let mut st: Option<(BssMgr, Vec<BddNode>)> = None;
        for hi in 0..256u64 {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("functions {:#04x}00..{:#04x}ff collecting={}", hi, hi, gc),
                |cx| {
                    let (m, x) = st.get_or_insert_with(|| {
                        let s = bmgr(&[0, 1, 2, 3]);
                        if gc {
                            s.0.bdd().set_gc_threshold(1);
                            s.0.zdd().set_gc_threshold(1);
                        }
                        s
                    });
                    for lo in 0..256u64 {
                        let f = hi << 8 | lo;
                        at(&[f]);
                        let h = build_h(m.bdd(), x, &tabf(4, f));
                        check_min(m, &h, 4, f)?;
                        if !gc || lo % 8 == 0 {
                            let d = h.dual();
                            ensure!(table_h(&d, 4) == tabf(4, dual_of(4, f)), "dual of {:#x}", f);
                            ensure!(d.dual().eq(&h), "dual of the dual of {:#x}", f);
                            ensure!(d.eq(&build_h(m.bdd(), x, &tabf(4, dual_of(4, f)))), "dual of {:#x} is not canonical", f);
                        }
                        ensure!(table_h(&h, 4) == tabf(4, f), "function {:#x} changed", f);
                    }
                    cx.states(256);
                    cx.trans(256 * 4);
                    Ok(())
                },
            );
        }
    }
    cx.section("diagrams on recycled places");
    crate::p_recycled::bss_handles(cx, "minimal paths and cuts", &|m, h, n, f| check_min(m, h, n, f).map(|_| ()));
    cx.section("all 2- and 3-variable functions, every variable order");
    for n in 1..=3usize {
        for ord in perms(n) {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("all {}-variable functions, order {:?}", n, ord),
                |cx| {
                    let (m, x) = bmgr(&ord);
                    let mut keep: Vec<(u64, ZddNode, ZddNode)> = vec![];
                    for f in 0..1u64 << (1 << n) {
                        let h = build_ord(m.bdd(), &x, &ord, &tabf(n, f));
                        if let Some((a, b)) = check_min(&m, &h, n, f)? {
                            for (g, c, d) in &keep {
                                ensure!(!a.eq(c) && !b.eq(d), "families of {:#x} and {:#x} are equal", f, g);
                                ensure!(a.eq(d) == (dual_of(n, *g) == f), "paths of {:#x} against cuts of {:#x}", f, g);
                            }
                            let (a2, b2) = check_min(&m, &h, n, f)?.unwrap();
                            ensure!(a2.eq(&a) && b2.eq(&b), "asking twice for {:#x} gives different families", f);
                            keep.push((f, a, b));
                        }
                    }
                    for (f, a, b) in &keep {
                        ensure!(fam(a)? == min_true(n, &|p| f >> p & 1 == 1), "family of {:#x} changed", f);
                        let d = dual_of(n, *f);
                        ensure!(fam(b)? == min_true(n, &|p| d >> p & 1 == 1), "cut family of {:#x} changed", f);
                    }
                    cx.states(1 << (1 << n));
                    cx.trans(2 << (1 << n));
                    Ok(())
                },
            );
        }
    }
    cx.section("all pairs of a monotone and any function with a collection in between");
    recycled(cx);
    cx.section("all monotone 4-variable functions, every variable order");
    let m4 = mono_funs(4);
    for ord in perms(4) {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("168 monotone functions, order {:?}", ord),
            |cx| {
                let (m, x) = bmgr(&ord);
                for &f in &m4 {
                    at(&[f]);
                    let h = build_ord(m.bdd(), &x, &ord, &tabf(4, f));
                    check_min(&m, &h, 4, f)?;
                }
                cx.states(m4.len() as u64);
                cx.trans(2 * m4.len() as u64);
                Ok(())
            },
        );
    }
    cx.section("all monotone 5-variable functions");
    let m5 = mono_funs(5);
    let ords = perms(5);
    for ord in ords {
        for ch in m5.chunks(100) {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("monotone 5-variable functions from {:#x} on, order {:?}", ch[0], ord),
                |cx| {
                    let (m, x) = bmgr(&ord);
                    for &f in ch {
                        at(&[f]);
                        let h = build_ord(m.bdd(), &x, &ord, &tabf(5, f));
                        let (a, _) = check_min(&m, &h, 5, f)?.ok_or("None")?;
                        // one flipped point makes most of them non-monotone
                        let g = f ^ (1 << (f % 31));
                        let hg = build_ord(m.bdd(), &x, &ord, &tabf(5, g));
                        check_min(&m, &hg, 5, g)?;
                        ensure!(m.minpath(&h).unwrap().eq(&a), "asking again for {:#x}", f);
                    }
                    cx.states(2 * ch.len() as u64);
                    cx.trans(5 * ch.len() as u64);
                    Ok(())
                },
            );
        }
    }
    cx.section("names that are easy to confuse");
    crate::p_names::minimal_bss(cx);
    cx.section("large systems in closed form");
    crate::p_large::min_bss(cx);
    cx.section("wide diagrams: answers in closed form");
    crate::p_wide::min_bss(cx);
    cx.section("nodes with large numbers");
    crate::p_wide::far_bss(cx, |m, h, t| {
        check_min(m, h, 6, t)?;
        let d = dual_of(6, t);
        let g = h.dual();
        ensure!(crate::p_bdd::table_h(&g, 6) == tabf(6, d), "another dual");
        check_min(m, &g, 6, d)?;
        Ok(())
    });
    cx.section("k-of-n to 10 components, series-parallel chains");
    for n in 1..=10usize {
        for k in 0..=n + 1 {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("{}-of-{}", k, n),
                |cx| {
                    let ord: Vec<usize> = (0..n).collect();
                    let (m, x) = bmgr(&ord);
                    let h = m.kofn(k, &x);
                    let a = fam(&m.minpath(&h).ok_or("None")?)?;
                    let e: BTreeSet<usize> = (0..1usize << n).filter(|p| p.count_ones() as usize == k).collect();
                    ensure!(a == if k > n { BTreeSet::new() } else { e }, "minimal paths {:?}", a);
                    let b = fam(&m.mincut(&h).ok_or("None")?)?;
                    let e: BTreeSet<usize> =
                        if k == 0 { BTreeSet::new() } else if k > n { [0].into() } else { (0..1usize << n).filter(|p| p.count_ones() as usize == n - k + 1).collect() };
                    ensure!(b == e, "minimal cuts {:?}", b);
                    cx.states(1);
                    cx.trans(2);
                    Ok(())
                },
            );
        }
    }
    for n in [30usize, 64, 65, 130, 300] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{} components: series, parallel, consecutive pairs", n),
            |cx| {
                let ord: Vec<usize> = (0..n).collect();
                let (m, x) = bmgr(&ord);
                let sets = |z: Option<ZddNode>| -> Result<BTreeSet<BTreeSet<String>>, String> {
                    let z = z.ok_or("None")?;
                    let v: Vec<Vec<String>> = z.extract(&[true]).collect();
                    ensure!(z.count(&[true]) == v.len() as u64, "count");
                    Ok(v.into_iter().map(|s| s.into_iter().collect()).collect())
                };
                let all: BTreeSet<String> = (0..n).map(nm).collect();
                let single: BTreeSet<BTreeSet<String>> = (0..n).map(|i| [nm(i)].into()).collect();
                let s = m.and(&x);
                let p = m.or(&x);
                ensure!(sets(m.minpath(&s))? == [all.clone()].into() && sets(m.mincut(&s))? == single, "series");
                ensure!(sets(m.mincut(&p))? == [all].into() && sets(m.minpath(&p))? == single, "parallel");
                // some two neighbours both work
                let mut c = m.zero();
                for i in 0..n - 1 {
                    c = c.or(&x[i].and(&x[i + 1]));
                }
                let e: BTreeSet<BTreeSet<String>> = (0..n - 1).map(|i| [nm(i), nm(i + 1)].into()).collect();
                ensure!(sets(m.minpath(&c))? == e, "consecutive pairs");
                ensure!(m.minpath(&c.xor(&x[0])).is_none() && m.mincut(&x[n - 1].not()).is_none(), "non-monotone variants");
                cx.states(3);
                cx.trans(7);
                Ok(())
            },
        );
    }
}

// ------------------------------------------------------------------ C11

fn lits(p: &[String], n: usize) -> Result<(usize, usize), String> {
    // (mask of mentioned variables, their values)
    let (mut m, mut v) = (0, 0);
    for l in p {
        let (neg, s) = match l.strip_prefix('~') {
            Some(r) => (true, r),
            None => (false, l.as_str()),
        };
        let i: usize = vi(s).ok_or_else(|| format!("odd literal {}", l))?;
        ensure!(i < n && m >> i & 1 == 0, "literal {} twice in {:?}", l, p);
        m |= 1 << i;
        if !neg {
            v |= 1 << i;
        }
    }
    Ok((m, v))
}

/// count and extract of a BDD handle against a table over n variables in definition order
fn check_bdd_paths(h: &BddNode, n: usize, t: &dyn Fn(usize) -> bool, top: usize, ss: &[bool]) -> Res {
    // assignments of variables 0..top with value in ss (the function ignores the others)
    let want: BTreeSet<usize> = (0..1usize << top).filter(|&p| ss.contains(&t(p))).collect();
    let c = h.bdd_count(ss);
    ensure!(c == want.len() as u64, "count {:?} is {} instead of {}", ss, c, want.len());
    let mut it = h.bdd_extract(ss);
    ensure!(it.len() == c, "iterator length {} but count {}", it.len(), c);
    let mut got = BTreeSet::new();
    for p in it.by_ref() {
        let (m, v) = lits(&p, n)?;
        ensure!(m == (1 << top) - 1, "{:?} does not assign the variables up to the root", p);
        ensure!(got.insert(v), "{:?} reported twice", p);
    }
    ensure!(it.next().is_none() && it.next().is_none(), "items after the end");
    ensure!(got == want, "extract {:?} gives {:?} instead of {:?}", ss, got, want);
    Ok(())
}
fn top_of(n: usize, f: u64) -> usize {
    (0..n).rev().find(|&v| depends(n, f, v)).map_or(0, |v| v + 1)
}

/// sets reported for a family: members for true; for false, the paths to the empty family
fn ref_zpaths(n: usize, f: u64, ss: &[bool]) -> BTreeSet<usize> {
    fn rec(f: &dyn Fn(usize) -> bool, v: usize, pre: usize, ss: &[bool], out: &mut BTreeSet<usize>) {
        // f: family over elements 0..v
        if (0..1usize << v).all(|p| !f(p)) {
            if ss.contains(&false) {
                out.insert(pre);
            }
            return;
        }
        // topmost element that occurs
        let top = (0..v).rev().find(|&e| (0..1usize << v).any(|p| p >> e & 1 == 1 && f(p)));
        match top {
            None => {
                if ss.contains(&true) {
                    out.insert(pre);
                }
            }
            Some(e) => {
                rec(&|p| f(p), e, pre, ss, out);
                rec(&|p| f(p | 1 << e), e, pre | 1 << e, ss, out);
            }
        }
    }
    let mut o = BTreeSet::new();
    rec(&|p| f >> p & 1 == 1, n, 0, ss, &mut o);
    o
}

fn check_zdd_sets(h: &ZddNode, n: usize, f: u64, ss: &[bool]) -> Res {
    let want = ref_zpaths(n, f, ss);
    // true and false paths can give the same set: compare as lists
    let total: usize = if ss.contains(&true) && ss.contains(&false) { ref_zpaths(n, f, &[true]).len() + ref_zpaths(n, f, &[false]).len() } else { want.len() };
    ensure!(h.count(ss) == total as u64, "count {:?} of {:#x} is {} instead of {}", ss, f, h.count(ss), total);
    let mut it = h.extract(ss);
    ensure!(it.len() == total as u64, "iterator length");
    let mut got = BTreeSet::new();
    let mut k = 0;
    for s in it.by_ref() {
        let (mm, v) = lits(&s, n)?;
        ensure!(mm == v, "negated element in {:?}", s);
        got.insert(v);
        k += 1;
    }
    ensure!(it.next().is_none() && it.next().is_none(), "items after the end");
    ensure!(k == total && got == want, "extract {:?} of {:#x}: {:?} instead of {:?}", ss, f, got, want);
    Ok(())
}

pub fn c11(cx: &mut Cx) {
    cx.section("BDD: all 1- to 4-variable functions, all selections");
    for n in 1..=4usize {
        let mut st: Option<(BddMgr, Vec<BddNode>)> = None;
        let total = 1u64 << (1 << n);
        let step = total.min(256);
        for b in 0..total / step {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("{}-variable functions {:#x}..{:#x}", n, b * step, (b + 1) * step - 1),
                |cx| {
                    let ord: Vec<usize> = (0..n).collect();
                    let (m, x) = st.get_or_insert_with(|| mgr(&ord));
                    for f in b * step..(b + 1) * step {
                        at(&[f]);
                        let h = build_h(m, x, &tabf(n, f));
                        for ss in SS {
                            check_bdd_paths(&h, n, &|p| f >> p & 1 == 1, top_of(n, f), ss)?;
                        }
                    }
                    cx.states(step);
                    cx.trans(8 * step);
                    Ok(())
                },
            );
        }
    }
    cx.section("BDD: all functions of 2 and 3 variables placed on any levels of 7");
    for mask in 0..128usize {
        let k = mask.count_ones() as usize;
        if !(2..=3).contains(&k) || !cx.mine() {
            continue;
        }
        cx.case(
            || format!("all functions on variables {:#09b} of 7", mask),
            |cx| {
                let ord: Vec<usize> = (0..7).collect();
                let (m, x) = mgr(&ord);
                let vs: Vec<usize> = (0..7).filter(|v| mask >> v & 1 == 1).collect();
                for f in 0..1u64 << (1 << k) {
                    let g = |p: usize| f >> vs.iter().enumerate().fold(0, |a, (i, v)| a | (p >> v & 1) << i) & 1 == 1;
                    let t: Vec<i64> = (0..128).map(|p| g(p) as i64).collect();
                    let h = build_h(&m, &x, &t);
                    let top = top_of(k, f);
                    let top = if top == 0 { 0 } else { vs[top - 1] + 1 };
                    for ss in &SS[..2] {
                        check_bdd_paths(&h, 7, &g, top, ss)?;
                    }
                }
                cx.states(1 << (1 << k));
                cx.trans(4 << (1 << k));
                Ok(())
            },
        );
    }
    cx.section("BDD: counts over many variables");
    for n in (1..=63usize).chain([]) {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{} variables: conjunction, disjunction, parity, literals, majority of three", n),
            |cx| {
                let ord: Vec<usize> = (0..n).collect();
                let (m, x) = mgr(&ord);
                let a = m.and(&x);
                let o = m.or(&x);
                let mut p = m.zero();
                for y in x.iter().rev() {
                    p = y.xor(&p);
                }
                let all = 1u64 << n; // n <= 63
                ensure!(a.bdd_count(&[true]) == 1 && a.bdd_count(&[false]) == all - 1, "conjunction");
                ensure!(o.bdd_count(&[false]) == 1 && o.bdd_count(&[true]) == all - 1, "disjunction");
                ensure!(p.bdd_count(&[true]) == all / 2 && p.bdd_count(&[true, false]) == all, "parity");
                if n <= 12 {
                    ensure!(a.bdd_extract(&[true]).count() == 1, "extract of the conjunction");
                    ensure!(o.bdd_extract(&[false]).count() == 1, "extract of the disjunction");
                }
                for (i, y) in x.iter().enumerate() {
                    ensure!(y.bdd_count(&[true]) == 1 << i && y.not().bdd_count(&[false]) == 1 << i, "literal {}", i);
                }
                if n >= 3 {
                    let t = m.kofn(2, &[x[0].clone(), x[n / 2].clone(), x[n - 1].clone()]);
                    ensure!(t.bdd_count(&[true]) == all / 2, "majority");
                }
                cx.states(4);
                cx.trans(9);
                Ok(())
            },
        );
    }
    cx.section("BDD: interleaved iterators");
    for f in (0..256u64).step_by(5) {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("iterators over {:#04x} and every 7th function, every interleaving pattern of period 4", f),
            |cx| {
                let (m, x) = mgr(&[0, 1, 2]);
                let a = build_h(&m, &x, &tabf(3, f));
                let mut n = 0;
                for g in (0..256u64).step_by(7) {
                    let b = build_h(&m, &x, &tabf(3, g));
                    let wa: Vec<Vec<String>> = a.bdd_extract(&[true]).collect();
                    let wb: Vec<Vec<String>> = b.bdd_extract(&[false]).collect();
                    for pat in 0..16usize {
                        let (mut i, mut j) = (a.bdd_extract(&[true]), b.bdd_extract(&[false]));
                        let (mut ga, mut gb) = (vec![], vec![]);
                        for s in 0..40 {
                            if pat >> (s % 4) & 1 == 1 {
                                ga.extend(i.next());
                            } else {
                                gb.extend(j.next());
                            }
                        }
                        ga.extend(i);
                        gb.extend(j);
                        ensure!(ga == wa && gb == wb, "interleaved with {:#04x}, pattern {:#06b}", g, pat);
                        n += 1;
                    }
                }
                cx.states(1);
                cx.trans(2 * n);
                cx.traces(n);
                Ok(())
            },
        );
    }
    cx.section("ZDD: all families over 1 to 4 elements, all selections");
    for n in 1..=4usize {
        let total = 1u64 << (1 << n);
        let step = total.min(256);
        for b in 0..total / step {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("families {:#x}..{:#x} over {} elements", b * step, (b + 1) * step - 1, n),
                |cx| {
                    let mut m = bss::prelude::ZddMgr::new();
                    let ord = [0usize, 1, 2, 3];
                    for v in &ord[..n] {
                        m.singleton(&nm(*v));
                    }
                    for f in b * step..(b + 1) * step {
                        at(&[f]);
                        let sets: Vec<Vec<String>> = (0..1usize << n)
                            .filter(|s| f >> s & 1 == 1)
                            .map(|s| (0..n).filter(|v| s >> v & 1 == 1).map(|v| nm(v)).collect())
                            .collect();
                        let h = m.from_sets(&sets);
                        for ss in SS {
                            check_zdd_sets(&h, n, f, ss)?;
                        }
                    }
                    cx.states(step);
                    cx.trans(8 * step);
                    Ok(())
                },
            );
        }
    }
    cx.section("diagrams on recycled places");
    crate::p_recycled::bss_handles(cx, "count and extract", &|_, h, n, f| SS.iter().try_for_each(|ss| check_bdd_paths(h, n, &|p| f >> p & 1 == 1, top_of(n, f), ss)));
    crate::p_recycled::zdd_handles(cx, "count and extract", &|h, n, f| SS.iter().try_for_each(|ss| check_zdd_sets(h, n, f, ss)));
    cx.section("ZDD: counts of power sets and large families");
    for n in (1..=63usize).step_by(1) {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{} elements: power set, singles, full set, k-subsets", n),
            |cx| {
                let mut m = bss::prelude::ZddMgr::new();
                let x: Vec<ZddNode> = (0..n).map(|v| m.singleton(&nm(v))).collect();
                let (mut pw, mut si, mut fu) = (m.base(), m.empty(), m.base());
                for e in &x {
                    pw = pw.product(&e.union(&m.base()));
                    si = si.union(e);
                    fu = fu.product(e);
                }
                ensure!(pw.count(&[true]) == 1 << n, "power set has {} sets", pw.count(&[true]));
                ensure!(si.count(&[true]) == n as u64 && si.extract(&[true]).count() == n, "singles");
                ensure!(fu.count(&[true]) == 1 && fu.extract(&[true]).next().map(|s| s.len()) == Some(n), "full set");
                let pairs = si.product(&si).setdiff(&si);
                ensure!(pairs.count(&[true]) == (n * (n - 1) / 2) as u64, "pairs");
                ensure!(pw.setdiff(&si).count(&[true]) == (1u64 << n) - n as u64, "power set minus singles");
                cx.states(5);
                cx.trans(7);
                Ok(())
            },
        );
    }
    cx.section("names that are easy to confuse");
    crate::p_names::extract_bss(cx);
    cx.section("large systems in closed form");
    crate::p_large::count_bss(cx);
    cx.section("wide diagrams: answers in closed form");
    crate::p_wide::count_bss(cx);
    cx.section("nodes with large numbers");
    crate::p_wide::far_bss(cx, |_, h, t| {
        for ss in SS {
            if ss.len() < 2 || ss[0] != ss[1] {
                check_bdd_paths(h, 6, &|q| t >> q & 1 == 1, top_of(6, t), ss)?;
            }
        }
        Ok(())
    });
    crate::p_wide::far_zdd(cx, |h, t| {
        for ss in [&[true][..], &[false]] {
            let want = ref_zpaths(6, t, ss);
            ensure!(h.count(ss) == want.len() as u64, "count {:?} is {} instead of {}", ss, h.count(ss), want.len());
            let mut got = BTreeSet::new();
            for s in h.extract(ss) {
                let (_, v) = lits(&s, 6)?;
                ensure!(got.insert(v), "{:?} twice", s);
            }
            ensure!(got == want, "extract {:?}: {:?} instead of {:?}", ss, got, want);
        }
        Ok(())
    });
    cx.section("iterators with more than 2^16 items");
    crate::p_long::long_paths_bss(cx);
}

// ------------------------------------------------------------------ C12 (binary part)

fn lists(k: usize, n: usize, mut f: impl FnMut(&[usize]) -> Res) -> Res {
    // all index lists of length k over 0..n
    let mut s = vec![0; k];
    loop {
        f(&s)?;
        let mut i = 0;
        loop {
            if i == k {
                return Ok(());
            }
            s[i] += 1;
            if s[i] < n {
                break;
            }
            s[i] = 0;
            i += 1;
        }
    }
}

pub fn c12_bss(cx: &mut Cx) {
    cx.section("and, or, k-of-n over all lists of 2-variable functions");
    let max = if cx.thorough { 6 } else { 5 };
    let mut st: Option<(BddMgr, Vec<BddNode>)> = None;
    for first in 0..16usize {
        for len in 0..=max {
            if (len == 0 && first > 0) || !cx.mine() {
                continue;
            }
            cx.case(
                || format!("all lists of {} functions starting with {:#x}, every k", len, first),
                |cx| {
                    let (m, hs) = st.get_or_insert_with(|| {
                        let (m, x) = mgr(&[0, 1]);
                        let hs = (0..16).map(|f| build_h(&m, &x, &tabf(2, f))).collect();
                        (m, hs)
                    });
                    let mut n = 0;
                    lists(len.max(1) - 1, 16, |rest| {
                        let l: Vec<usize> = if len == 0 { vec![] } else { std::iter::once(first).chain(rest.iter().copied()).collect() };
                        let nodes: Vec<BddNode> = l.iter().map(|&i| hs[i].clone()).collect();
                        let a = l.iter().fold(15, |a, &b| a & b);
                        let o = l.iter().fold(0, |a, &b| a | b);
                        ensure!(m.and(&nodes).eq(&hs[a]), "and of {:?}", l);
                        ensure!(m.or(&nodes).eq(&hs[o]), "or of {:?}", l);
                        for k in 0..=len + 2 {
                            let e: usize = (0..4).map(|p| ((l.iter().filter(|&&f| f >> p & 1 == 1).count() >= k) as usize) << p).sum();
                            let r = m.kofn(k, &nodes);
                            ensure!(r.eq(&hs[e]), "{}-of {:?} is {:?} instead of {:#x}", k, l, table_h(&r, 2), e);
                        }
                        n += 1;
                        Ok(())
                    })?;
                    cx.states(n);
                    cx.trans(n * (len as u64 + 5));
                    Ok(())
                },
            );
        }
    }
    cx.section("k-of-n over literals of either sign in every order");
    for n in 1..=4usize {
        for p in perms(n) {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("{} literals listed in order {:?}, every sign pattern, one repeated, every k", n, p),
                |cx| {
                    let ord: Vec<usize> = (0..n).collect();
                    let (m, x) = mgr(&ord);
                    let mut cnt = 0;
                    for sg in 0..1usize << n {
                        for rep in 0..=n {
                            let mut idx: Vec<usize> = p.clone();
                            if rep < n {
                                idx.insert(rep, p[(rep + 1) % n]);
                            }
                            let nodes: Vec<BddNode> = idx.iter().map(|&v| if sg >> v & 1 == 1 { x[v].not() } else { x[v].clone() }).collect();
                            for k in 0..=idx.len() + 1 {
                                let t: Vec<i64> = (0..1usize << n)
                                    .map(|q| (idx.iter().filter(|&&v| (q ^ sg) >> v & 1 == 1).count() >= k) as i64)
                                    .collect();
                                let r = m.kofn(k, &nodes);
                                ensure!(r.eq(&build_h(&m, &x, &t)), "{}-of literals {:?} signs {:#b}", k, idx, sg);
                                cnt += 1;
                            }
                        }
                    }
                    cx.states(cnt);
                    cx.trans(cnt);
                    Ok(())
                },
            );
        }
    }
    cx.section("k-of-n over many literals");
    for n in [8usize, 12, 13, 40, 100] {
        for rev in [false, true] {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("every k of {} literals, reversed={}", n, rev),
                |cx| {
                    let ord: Vec<usize> = (0..n).collect();
                    let (m, x) = mgr(&ord);
                    let mut nodes = x.clone();
                    if rev {
                        nodes.reverse();
                    }
                    for k in 0..=n + 1 {
                        at(&[k as u64]);
                        let h = m.kofn(k, &nodes);
                        let rc = h.get_mgr();
                        let b = rc.borrow();
                        let ev = |f: &dyn Fn(usize) -> bool| crate::p_bdd::eval_bdd(&b, h.get_id(), f) == 1;
                        if n <= 13 {
                            for q in 0..1usize << n {
                                ensure!(ev(&|v| q >> v & 1 == 1) == (q.count_ones() as usize >= k), "{}-of-{} at {:#x}", k, n, q);
                            }
                        } else {
                            // every cyclic interval of ones
                            for a in 0..n {
                                for len in [0, k.saturating_sub(1).min(n), k.min(n), n] {
                                    let e = len >= k;
                                    ensure!(ev(&|v| (v + n - a) % n < len) == e, "{}-of-{} with {} ones from {}", k, n, len, a);
                                }
                            }
                        }
                    }
                    cx.states(n as u64 + 2);
                    cx.trans(n as u64 + 2);
                    Ok(())
                },
            );
        }
    }
    cx.section("long lists and k-of-n over hundreds of components");
    crate::p_lists::long_bss(cx);
    crate::p_lists::long_mss(cx);
    cx.section("system manager: n-ary operations agree");
    if cx.mine() {
        cx.case(
            || "BssMgr and/or/kofn on all triples of 2-variable functions".into(),
            |cx| {
                let (m, x) = bmgr(&[0, 1]);
                let hs: Vec<BddNode> = (0..16).map(|f| build_h(m.bdd(), &x, &tabf(2, f))).collect();
                let mut n = 0;
                lists(3, 16, |l| {
                    let nodes: Vec<BddNode> = l.iter().map(|&i| hs[i].clone()).collect();
                    ensure!(m.and(&nodes).eq(&hs[l[0] & l[1] & l[2]]), "and {:?}", l);
                    ensure!(m.or(&nodes).eq(&hs[l[0] | l[1] | l[2]]), "or {:?}", l);
                    ensure!(m.kofn(2, &nodes).eq(&hs[l[0] & l[1] | l[0] & l[2] | l[1] & l[2]]), "2-of-3 {:?}", l);
                    n += 1;
                    Ok(())
                })?;
                cx.states(n);
                cx.trans(3 * n);
                Ok(())
            },
        );
    }
}

// ------------------------------------------------------------------ C13

#[derive(Clone, Debug)]
struct Rpn {
    vars: Vec<String>,
    /// truth tables over 2^NV points of the abstract variables by name
    stack: Vec<u64>,
    saved: HashMap<String, u64>,
}
const VNAMES: [&str; 3] = ["x", "y", "z"];
const VT: [u64; 3] = [0xaa, 0xcc, 0xf0];

impl Rpn {
    fn new() -> Rpn {
        Rpn { vars: vec![], stack: vec![], saved: HashMap::new() }
    }
    /// false: error
    fn step(&mut self, t: &str) -> bool {
        let m = 0xff;
        match t {
            "0" | "False" => self.stack.push(0),
            "1" | "True" => self.stack.push(m),
            "&" | "|" | "^" => {
                if self.stack.len() < 2 {
                    return false;
                }
                let r = self.stack.pop().unwrap();
                let l = self.stack.pop().unwrap();
                self.stack.push(match t {
                    "&" => l & r,
                    "|" => l | r,
                    _ => l ^ r,
                });
            }
            "~" => match self.stack.pop() {
                None => return false,
                Some(x) => self.stack.push(!x & m),
            },
            "?" => {
                if self.stack.len() < 3 {
                    return false;
                }
                let e = self.stack.pop().unwrap();
                let th = self.stack.pop().unwrap();
                let c = self.stack.pop().unwrap();
                self.stack.push((c & th) | (!c & e & m));
            }
            _ if t.starts_with("save(") => match self.stack.last() {
                None => return false,
                Some(&x) => {
                    self.saved.insert(t[5..t.len() - 1].to_string(), x);
                }
            },
            _ if t.starts_with("load(") => match self.saved.get(&t[5..t.len() - 1]) {
                None => return false,
                Some(&x) => self.stack.push(x),
            },
            _ => {
                let i = VNAMES.iter().position(|v| *v == t).unwrap();
                if !self.vars.iter().any(|v| v == t) {
                    self.vars.push(t.to_string());
                }
                self.stack.push(VT[i]);
            }
        }
        true
    }
}

/// table of a handle over (x, y, z), by label
fn table_named(h: &BddNode) -> Result<u64, String> {
    let rc = h.get_mgr();
    let b = rc.borrow();
    let mut o = 0;
    for p in 0..8usize {
        let mut id = h.get_id();
        loop {
            use bddcore::prelude::Node;
            use common::prelude::DDForest;
            match b.get_node(&id).ok_or("no node")? {
                Node::Zero => break,
                Node::One => {
                    o |= 1 << p;
                    break;
                }
                Node::Undet => return Err("undetermined".into()),
                Node::NonTerminal(n) => {
                    let l = b.label(&id).ok_or("no label")?;
                    let i = VNAMES.iter().position(|v| *v == l).ok_or_else(|| format!("variable {}", l))?;
                    id = n.edge(p >> i & 1);
                }
            }
        }
    }
    Ok(o)
}

pub trait RpnMgr {
    fn new() -> Self;
    fn run(&mut self, s: &str) -> Result<BddNode, String>;
    fn order(&self) -> Vec<String>;
}
impl RpnMgr for BddMgr {
    fn new() -> Self {
        BddMgr::new()
    }
    fn run(&mut self, s: &str) -> Result<BddNode, String> {
        self.rpn(s)
    }
    fn order(&self) -> Vec<String> {
        self.get_varorder()
    }
}
impl RpnMgr for BssMgr {
    fn new() -> Self {
        BssMgr::new()
    }
    fn run(&mut self, s: &str) -> Result<BddNode, String> {
        self.rpn(s)
    }
    fn order(&self) -> Vec<String> {
        self.get_varorder()
    }
}

/// Compare one string on manager m; `before`: variables already known.
fn rpn_check<M: RpnMgr>(m: &mut M, s: &str, ok: Option<&Rpn>, before: &[String]) -> Res {
    let r = m.run(s);
    match (r, ok) {
        (Err(_), None) => Ok(()),
        (Ok(h), None) => Err(format!("\"{}\" is malformed but gives {:#x}", s, table_named(&h)?)),
        (Err(e), Some(_)) => Err(format!("\"{}\" is well formed but gives error {}", s, e)),
        (Ok(h), Some(st)) => {
            let t = table_named(&h)?;
            ensure!(t == st.stack[0], "\"{}\" denotes {:#x} instead of {:#x}", s, t, st.stack[0]);
            let mut e = before.to_vec();
            for v in &st.vars {
                if !e.contains(v) {
                    e.push(v.clone());
                }
            }
            ensure!(m.order() == e, "after \"{}\" the variables are {:?} instead of {:?}", s, m.order(), e);
            Ok(())
        }
    }
}

/// All strings with up to `depth` tokens extending `pre`; a prefix that already failed is not
/// extended further.
fn rpn_dfs(toks: &[&str], pre: &mut Vec<usize>, st: &Rpn, depth: usize, f: &mut dyn FnMut(&str, Option<&Rpn>) -> Res) -> Res {
    let s = pre.iter().map(|&i| toks[i]).collect::<Vec<_>>().join(" ");
    f(&s, if st.stack.len() == 1 { Some(st) } else { None })?;
    if pre.len() == depth {
        return Ok(());
    }
    for i in 0..toks.len() {
        let mut n = st.clone();
        pre.push(i);
        if n.step(toks[i]) {
            rpn_dfs(toks, pre, &n, depth, f)?;
        } else {
            let s = pre.iter().map(|&i| toks[i]).collect::<Vec<_>>().join(" ");
            f(&s, None)?;
            f(&format!("{} x", s), None)?;
            f(&format!("x y z {} x", s).replacen("x y z ", "", 1), None)?;
        }
        pre.pop();
    }
    Ok(())
}

pub fn c13(cx: &mut Cx) {
    let toks = ["0", "1", "x", "y", "z", "&", "|", "^", "~", "?", "save(a)", "load(a)", "True", "False"];
    cx.section("all token strings, one manager");
    let depth = if cx.thorough { 7 } else { 6 };
    rpn_sweep::<BddMgr>(cx, &toks[..if depth == 7 { 12 } else { 14 }], depth, false);
    cx.section("all token strings, a fresh manager each");
    rpn_sweep::<BddMgr>(cx, &toks, if cx.thorough { 5 } else { 4 }, true);
    cx.section("all token strings, system manager");
    rpn_sweep::<BssMgr>(cx, &toks, 4, true);
    rpn_sweep::<BssMgr>(cx, &toks, 5, false);
    cx.section("two saved names");
    rpn_sweep::<BddMgr>(cx, &["x", "y", "&", "~", "^", "save(a)", "load(a)", "save(b)", "load(b)"], if cx.thorough { 8 } else { 7 }, false);

    cx.section("sequences of two expressions on one manager");
    let mut short: Vec<(String, Option<Rpn>)> = vec![];
    rpn_dfs(&["x", "y", "z", "&", "~", "save(a)", "load(a)", "1"], &mut vec![], &Rpn::new(), 3, &mut |s, r| {
        short.push((s.to_string(), r.cloned()));
        Ok(())
    })
    .unwrap();
    for (s1, r1) in &short {
        if !cx.mine() {
            continue;
        }
        let short = &short;
        cx.case(
            || format!("\"{}\" followed by every string of up to 3 tokens", s1),
            |cx| {
                for (s2, r2) in short {
                    let mut m = BddMgr::new();
                    rpn_check(&mut m, s1, r1.as_ref(), &[])?;
                    let known = m.get_varorder();
                    rpn_check(&mut m, s2, r2.as_ref(), &known).map_err(|e| format!("second expression: {}", e))?;
                }
                cx.states(short.len() as u64);
                cx.trans(2 * short.len() as u64);
                cx.traces(short.len() as u64);
                Ok(())
            },
        );
    }

    cx.section("deep nesting: every complete expression tree of 3 binary operators");
    deep(cx);
    cx.section("whitespace and unusual names");
    odd(cx);
    cx.section("names that are easy to confuse");
    crate::p_names::rpn_bss(cx);
    cx.section("expressions under automatic collection");
    rpn_gc(cx);
    cx.section("new variables in the middle of expressions under eager collection");
    late_vars(cx);
    cx.section("long expressions");
    long_rpn(cx);
}

/// Variables first met in the middle of an expression while the manager collects eagerly: the
/// operands waiting on the stack belong to nobody but the expression.
fn late_vars(cx: &mut Cx) {
    let temps = [
        "a b o c p d q",
        "a ~ b o c ~ p d ~ q",
        "a b o save(s) c p d q load(s) r",
        "a b o c d p d ?",
        "a b o c p b d q d ?",
        "a b o c o d o a ~ b p q c r",
    ];
    let ops = ["&", "|", "^"];
    for perm in perms(4) {
        for (ti, tm) in temps.iter().enumerate() {
            if !cx.mine() {
                continue;
            }
            let perm = &perm;
            cx.case(
                || format!("\"{}\" with variables {:?}, all operators, every collection trigger", tm, perm),
                |cx| {
                    for code in 0..81usize {
                        if !tm.contains('r') && code >= 27 || !tm.contains('q') && code >= 9 {
                            break;
                        }
                        let e: Vec<String> = tm
                            .split(' ')
                            .map(|t| match t {
                                "a" | "b" | "c" | "d" => format!("x{}", perm[(t.as_bytes()[0] - b'a') as usize]),
                                "o" => ops[code % 3].to_string(),
                                "p" => ops[code / 3 % 3].to_string(),
                                "q" => ops[code / 9 % 3].to_string(),
                                "r" => ops[code / 27].to_string(),
                                t => t.to_string(),
                            })
                            .collect();
                        const X: [u16; 4] = [0xaaaa, 0xcccc, 0xf0f0, 0xff00];
                        let mut st: Vec<u16> = vec![];
                        let mut saved = 0;
                        for t in &e {
                            let v = match t.as_str() {
                                "save(s)" => {
                                    saved = *st.last().unwrap();
                                    continue;
                                }
                                "load(s)" => saved,
                                "~" => !st.pop().unwrap(),
                                "?" => {
                                    let c = st.pop().unwrap();
                                    let b = st.pop().unwrap();
                                    let a = st.pop().unwrap();
                                    a & b | !a & c
                                }
                                "&" | "|" | "^" => {
                                    let b = st.pop().unwrap();
                                    let a = st.pop().unwrap();
                                    match t.as_str() {
                                        "&" => a & b,
                                        "|" => a | b,
                                        _ => a ^ b,
                                    }
                                }
                                t => X[t[1..].parse::<usize>().unwrap()],
                            };
                            st.push(v);
                        }
                        let e = e.join(" ");
                        for thr in [1usize, 4, 6, 8, 9, 10, 11, 12, 14, 16, 20] {
                            at(&[ti as u64, code as u64, thr as u64]);
                            let mut m = BddMgr::new();
                            m.set_gc_threshold(thr);
                            let h = m.rpn(&e)?;
                            let order = m.get_varorder();
                            let rc = h.get_mgr();
                            let mm = rc.borrow();
                            for q in 0..16usize {
                                let v = crate::p_bdd::eval_bdd(&mm, h.get_id(), |l| q >> order[l][1..].parse::<usize>().unwrap() & 1 == 1);
                                ensure!(v == (st[0] >> q & 1) as i64, "\"{}\" at trigger {} is {} at {:04b}", e, thr, v, q);
                            }
                            cx.trans(1);
                        }
                        cx.states(1);
                    }
                    cx.traces(1);
                    Ok(())
                },
            );
        }
    }
}

fn rpn_sweep<M: RpnMgr>(cx: &mut Cx, toks: &[&str], depth: usize, fresh: bool) {
    for a in 0..toks.len() {
        for b in 0..toks.len() {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("all strings of up to {} of {} tokens starting \"{} {}\" fresh={}", depth, toks.len(), toks[a], toks[b], fresh),
                |cx| {
                    let mut shared = M::new();
                    let mut st = Rpn::new();
                    let mut n = 0u64;
                    let mut f = |s: &str, r: Option<&Rpn>| -> Res {
                        n += 1;
                        if fresh {
                            return rpn_check(&mut M::new(), s, r, &[]);
                        }
                        let known = shared.order();
                        rpn_check(&mut shared, s, r, &known)
                    };
                    if a == 0 && b == 0 {
                        f("", None)?;
                    }
                    let ok1 = st.step(toks[a]);
                    if b == 0 {
                        f(toks[a], if ok1 && st.stack.len() == 1 { Some(&st) } else { None })?;
                    }
                    if !ok1 {
                        f(&format!("{} {}", toks[a], toks[b]), None)?;
                    } else if !st.step(toks[b]) {
                        f(&format!("{} {}", toks[a], toks[b]), None)?;
                        f(&format!("{} {} x", toks[a], toks[b]), None)?;
                    } else {
                        rpn_dfs(toks, &mut vec![a, b], &st, depth, &mut f)?;
                    }
                    cx.states(n);
                    cx.trans(n);
                    cx.traces(n);
                    Ok(())
                },
            );
        }
    }
}

fn deep(cx: &mut Cx) {
    let ops = ["&", "|", "^"];
    let leaves = ["x", "y", "z", "x ~", "1", "0"];
    // shapes of 3 binary operators: l l l l postfix arrangements
    let shapes = ["LLLLOOO", "LLLOLOO", "LLLOOLO", "LLOLLOO", "LLOLOLO"];
    for sh in shapes {
        for o in 0..27usize {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("shape {} operators {:?}, all leaves", sh, [ops[o % 3], ops[o / 3 % 3], ops[o / 9]]),
                |cx| {
                    let mut m = BddMgr::new();
                    let n = leaves.len();
                    for lf in 0..n.pow(4) {
                        let (mut li, mut oi) = (lf, o);
                        let mut s = vec![];
                        for c in sh.chars() {
                            if c == 'L' {
                                s.push(leaves[li % n]);
                                li /= n;
                            } else {
                                s.push(ops[oi % 3]);
                                oi /= 3;
                            }
                        }
                        let s = s.join(" ");
                        let mut st = Rpn::new();
                        for t in s.split(' ') {
                            assert!(st.step(t));
                        }
                        let known = m.get_varorder();
                        rpn_check(&mut m, &s, Some(&st), &known)?;
                    }
                    cx.states(n.pow(4) as u64);
                    cx.trans(n.pow(4) as u64);
                    cx.traces(n.pow(4) as u64);
                    Ok(())
                },
            );
        }
    }
}

fn odd(cx: &mut Cx) {
    if cx.mine() {
        cx.case(
            || "whitespace variants of \"x y & z |\"".into(),
            |cx| {
                for s in ["x y & z |", "  x y & z |  ", "x\ty\n&\tz |", "x   y  &\r\n z |", "\nx y & z |"] {
                    let mut m = BddMgr::new();
                    let h = m.rpn(s).map_err(|e| format!("{:?}: {}", s, e))?;
                    let t = table_named(&h)?;
                    ensure!(t == (0xaa & 0xcc | 0xf0), "{:?} denotes {:#x}", s, t);
                }
                for s in ["", " ", "\t\n"] {
                    ensure!(BddMgr::new().rpn(s).is_err(), "{:?} is not an error", s);
                }
                cx.states(8);
                cx.trans(8);
                Ok(())
            },
        );
    }
    let odd = [
        "X", "xx", "x1", "_", "2", "00", "10", "01", "true", "TRUE", "false", "&&", "||", "!", "^^", "~x", "x&y", "save", "load", "save(", "load(", "save)",
        "save(a", "load(a", "(a)", "-", "ф", "変数", "a.b", "a-b", "a:b", "?x", "??", "[0]", "'", "Save(a)", "LOAD(a)", "#",
    ];
    for a in odd {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("name {:?} with every other unusual name", a),
            |cx| {
                for b in odd {
                    let mut m = BddMgr::new();
                    let h = m.rpn(&format!("{} {} & {} ~ |", a, b, a)).map_err(|e| format!("{:?}: {}", b, e))?;
                    if a == b {
                        ensure!(h.is_one(), "{:?}", b);
                        ensure!(m.get_varorder() == vec![a.to_string()], "order {:?}", m.get_varorder());
                        continue;
                    }
                    ensure!(m.get_varorder() == vec![a.to_string(), b.to_string()], "order {:?}", m.get_varorder());
                    let (x, y) = (m.defvar(a), m.defvar(b));
                    ensure!(h.eq(&x.and(&y).or(&x.not())), "{:?} {:?}", a, b);
                    ensure!(x.get_label().as_deref() == Some(a) && y.get_label().as_deref() == Some(b), "labels");
                }
                cx.states(odd.len() as u64);
                cx.trans(odd.len() as u64);
                Ok(())
            },
        );
    }
    for id in ["", "a", "1", "x", "save(a)", "a)", "(", "ф", "~"] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("saved name {:?}", id),
            |cx| {
                let mut m = BddMgr::new();
                let h = m.rpn(&format!("x y & save({}) ~ load({}) ^", id, id))?;
                ensure!(h.is_one(), "not a ^ a");
                let h = m.rpn(&format!("x save({}) y save({}) | load({}) &", id, id, id))?;
                ensure!(table_named(&h)? == 0xcc, "saving again replaces");
                ensure!(m.rpn(&format!("x load({}) &", id)).is_err(), "saved name leaks into the next expression");
                ensure!(m.rpn(&format!("x load({}) & save({})", id, id)).is_err(), "load before save");
                let h = m.rpn(&format!("x save({}) load({}q) |", id, id));
                ensure!(h.is_err(), "load of another name");
                cx.states(4);
                cx.trans(4);
                Ok(())
            },
        );
    }
}

fn rpn_gc(cx: &mut Cx) {
    for thr in 1..=12usize {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("expressions built and re-built at collection threshold {}", thr),
            |cx| {
                let mut m = BddMgr::new();
                m.set_gc_threshold(thr);
                let exprs = ["x y & z |", "x y z ? save(a) ~ load(a) ^", "x y ^ z ^", "x ~ y & x z & |", "x save(a) y & load(a) z & |", "x y | z & ~", "x"];
                let mut known: FxMap<u64, BddNode> = FxMap::default();
                for round in 0..3 {
                    for (i, e) in exprs.iter().enumerate() {
                        let mut st = Rpn::new();
                        for t in e.split(' ') {
                            assert!(st.step(t));
                        }
                        let h = m.rpn(e)?;
                        let t = table_named(&h)?;
                        ensure!(t == st.stack[0], "\"{}\" denotes {:#x} in round {}", e, t, round);
                        if let Some(o) = known.get(&t) {
                            ensure!(o.eq(&h), "\"{}\" has a second node in round {}", e, round);
                        } else if i % 2 == 0 {
                            known.insert(t, h);
                        }
                        for (t, h) in known.iter() {
                            ensure!(table_named(h)? == *t, "kept handle changed in round {}", round);
                        }
                    }
                }
                cx.states(exprs.len() as u64);
                cx.trans(3 * exprs.len() as u64);
                Ok(())
            },
        );
    }
}

/// Long expressions of a regular shape over x, y, z, read by the reference as well.
fn long_strings(shape: usize, n: usize, ops: &[&str], vars: &[&str]) -> Vec<String> {
    let v = |i: usize| vars[i % vars.len()].to_string();
    let o = |i: usize| ops[i % ops.len()].to_string();
    let mut t: Vec<String> = vec![];
    match shape {
        // left-deep chain
        0 => {
            t.push(v(0));
            for i in 0..n {
                t.push(v(i / 2));
                t.push(o(i));
            }
        }
        // everything on the stack first
        1 => {
            for i in 0..=n {
                t.push(v(i * i));
            }
            for i in 0..n {
                t.push(o(i));
            }
        }
        // a saved name per step, loaded back in reverse order
        2 => {
            t.push(v(0));
            for i in 0..n {
                t.extend([v(i + 1), o(i), format!("save(n{})", i)]);
            }
            for i in (0..n).rev() {
                t.extend([format!("load(n{})", i), o(i / 3)]);
            }
        }
        // one name saved over and over
        3 => {
            t.push(v(0));
            for i in 0..n {
                t.extend(["save(a)".to_string(), v(i), o(i), "load(a)".into(), o(i + 1)]);
            }
        }
        // unbalanced: one operand too many / one operator too many
        4 => {
            for i in 0..=n {
                t.push(v(i));
            }
            for i in 0..n - 1 {
                t.push(o(i));
            }
        }
        _ => {
            for i in 0..=n {
                t.push(v(i));
            }
            for i in 0..=n {
                t.push(o(i));
            }
        }
    }
    t
}
pub fn long_tokens(shape: usize, n: usize, ops: &[&str], vars: &[&str]) -> Vec<String> {
    long_strings(shape, n, ops, vars)
}
pub fn short_err(e: String) -> String {
    let k = e.chars().count();
    if k < 500 {
        return e;
    }
    e.chars().take(200).collect::<String>() + " ... " + &e.chars().skip(k - 200).collect::<String>()
}

fn long_rpn(cx: &mut Cx) {
    for n in [3usize, 17, 100, 255, 256, 257, 1000, 5000, 70_000] {
        for shape in 0..6 {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("expressions of shape {} and length {}", shape, n),
                |cx| {
                    for ops in [&["&", "|"][..], &["^"], &["|", "^", "&"], &["&"], &["^", "|"]] {
                        for thr in [1usize << 20, 1, 40] {
                            let t = long_tokens(shape, n, ops, &VNAMES);
                            let mut r = Rpn::new();
                            let ok = t.iter().all(|x| r.step(x)) && r.stack.len() == 1;
                            let mut m = BssMgr::new();
                            m.bdd().set_gc_threshold(thr);
                            let s = t.join(" ");
                            for _ in 0..2 {
                                let before = RpnMgr::order(&m);
                                rpn_check(&mut m, &s, if ok { Some(&r) } else { None }, &before).map_err(short_err)?;
                            }
                            cx.trans(2 * t.len() as u64);
                        }
                    }
                    cx.states(1);
                    cx.traces(30);
                    Ok(())
                },
            );
        }
    }
    // many variables introduced by one expression
    for n in [255usize, 256, 257, 700] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{} variables introduced by one expression", n),
            |cx| {
                for (op, neg) in [("&", false), ("|", false), ("&", true), ("^", false)] {
                    let mut m = BddMgr::new();
                    m.set_gc_threshold(64);
                    let name = |i: usize| format!("w{}", (i * 7919) % 100_003);
                    let mut t = vec![];
                    for i in 0..n {
                        t.push(name(i));
                        if neg && i % 2 == 1 {
                            t.push("~".into());
                        }
                    }
                    for _ in 1..n {
                        t.push(op.to_string());
                    }
                    let h = m.rpn(&t.join(" "))?;
                    ensure!(m.get_varorder() == (0..n).map(name).collect::<Vec<_>>(), "variables in order of first use");
                    // the answer, node by node from the root
                    let e = if op == "^" { 2 * n as u64 - 1 } else { n as u64 };
                    ensure!(h.size().0 == e, "{} of {} variables has {} nodes", op, n, h.size().0);
                    let rc = h.get_mgr();
                    let b = rc.borrow();
                    let ev = |f: &dyn Fn(usize) -> bool| crate::p_bdd::eval_bdd(&b, h.get_id(), f) == 1;
                    for i in 0..n {
                        // a single variable differs from the neutral element
                        let lit = |v: usize, x: bool| x != (neg && v % 2 == 1);
                        let base = op == "&";
                        let got = ev(&|v| lit(v, if v == i { !base } else { base }));
                        ensure!(got == (op != "&"), "{} of {} variables, variable {} flipped", op, n, i);
                    }
                    cx.trans(n as u64);
                }
                cx.states(1);
                Ok(())
            },
        );
    }
}
