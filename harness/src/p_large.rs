//! Large systems in closed form: far beyond what can be tabulated, with answers known from
//! binomial and multinomial coefficients; and collections over diagrams with 2^n paths.
use crate::core::*;
use crate::cx::{Cx, Res};
use crate::refm::*;
use bss::prelude::*;
use mss::prelude::{MddMgr, MddNode, MssMgr};
use std::collections::{HashMap, HashSet};

fn binom(n: usize) -> Vec<u64> {
    let mut r = vec![1u64];
    for _ in 0..n {
        let mut s = vec![1u64; r.len() + 1];
        for i in 1..r.len() {
            s[i] = r[i - 1] + r[i];
        }
        r = s;
    }
    r
}
/// number of vectors of n components with s states and the given sum
fn sums(n: usize, s: usize) -> Vec<u64> {
    let mut r = vec![1u64];
    for _ in 0..n {
        let mut t = vec![0u64; r.len() + s - 1];
        for (i, a) in r.iter().enumerate() {
            for j in 0..s {
                t[i + j] += a;
            }
        }
        r = t;
    }
    r
}

fn ks(n: usize) -> Vec<usize> {
    let mut v = vec![1, 2, 3, n / 3, n / 2, n / 2 + 1, n - 2, n - 1, n];
    v.sort();
    v.dedup();
    v
}

fn each(cx: &mut Cx, ns: &[usize], what: &str, f: impl Fn(&mut Cx, usize, usize) -> Res) {
    for &n in ns {
        for k in ks(n) {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("{} {}-of-{}", what, k, n),
                |cx| {
                    f(cx, n, k)?;
                    cx.states(1);
                    Ok(())
                },
            );
        }
    }
}

/// k-of-n by dynamic programming over handle operations, independent of `kofn`.
fn threshold(m: &BddMgr, x: &[BddNode], k: usize) -> BddNode {
    // row[j] = at least j of the variables seen so far
    let mut row: Vec<BddNode> = (0..=k).map(|j| if j == 0 { m.one() } else { m.zero() }).collect();
    for y in x {
        for j in (1..=k).rev() {
            row[j] = y.ite(&row[j - 1], &row[j]);
        }
    }
    row[k].clone()
}

pub fn prob_bss(cx: &mut Cx) {
    each(cx, &[16, 31, 50], "all components at 1/2:", |cx, n, k| {
        let mut m = BddMgr::new();
        let x: Vec<BddNode> = (0..n).map(|v| m.defvar(&nm(v))).collect();
        let h = threshold(&m, &x, k);
        let pv: HashMap<String, f64> = (0..n).map(|v| (nm(v), 0.5)).collect();
        let (b, c) = (binom(n), binom(n - 1));
        let up: u64 = b[k..].iter().sum();
        let e = up as f64 / (1u64 << n) as f64;
        ensure!(h.prob(&pv, &[true]) == e, "P = {} instead of {}", h.prob(&pv, &[true]), e);
        ensure!(h.prob(&pv, &[false]) == 1.0 - e, "P(false)");
        ensure!(h.prob(&pv, &[true, false]) == 1.0, "P(either)");
        let w = c[k - 1] as f64 / (1u64 << (n - 1)) as f64;
        for (ss, s) in [(&[true][..], w), (&[false][..], -w)] {
            let g = h.bmeas(&pv, ss);
            ensure!(g.len() == n, "{} measures", g.len());
            for v in 0..n {
                ensure!(g[&nm(v)] == s, "measure of {} is {} instead of {}", nm(v), g[&nm(v)], s);
            }
        }
        cx.trans(5);
        Ok(())
    });
}

pub fn min_bss(cx: &mut Cx) {
    each(cx, &[12, 20, 40, 61], "minimal sets of", |cx, n, k| {
        let mut m = BssMgr::new();
        let x: Vec<BddNode> = (0..n).map(|v| m.defvar(&nm(v))).collect();
        let h = m.kofn(k, &x);
        let b = binom(n);
        let p = m.minpath(&h).ok_or("no minimal paths")?;
        let c = m.mincut(&h).ok_or("no minimal cuts")?;
        ensure!(p.count(&[true]) == b[k], "{} minimal paths instead of {}", p.count(&[true]), b[k]);
        ensure!(c.count(&[true]) == b[n - k + 1], "{} minimal cuts instead of {}", c.count(&[true]), b[n - k + 1]);
        for (z, s) in [(&p, k), (&c, n - k + 1)] {
            let mut seen = HashSet::new();
            for mut t in z.extract(&[true]).take(3000) {
                ensure!(t.len() == s, "a set of {} elements", t.len());
                t.sort();
                t.dedup();
                ensure!(t.len() == s && seen.insert(t), "a set twice or with a repeated element");
            }
            ensure!(seen.len() as u64 == b[s].min(3000), "{} sets", seen.len());
        }
        let d = h.dual();
        let e = m.kofn(n - k + 1, &x);
        ensure!(d.eq(&e) && d.dual().eq(&h), "the dual of {}-of-{}", k, n);
        ensure!(m.minpath(&e).ok_or("no paths of the dual")?.eq(&c), "cuts are not the paths of the dual");
        let bad = h.xor(&x[n / 2]);
        ensure!(m.minpath(&bad).is_none() && m.mincut(&bad).is_none(), "an answer for a non-monotone function");
        cx.trans(10);
        Ok(())
    });
}

pub fn count_bss(cx: &mut Cx) {
    each(cx, &[12, 33, 63], "counts of", |cx, n, k| {
        let mut m = BddMgr::new();
        let x: Vec<BddNode> = (0..n).map(|v| m.defvar(&nm(v))).collect();
        let h = threshold(&m, &x, k);
        let b = binom(n);
        let up: u64 = b[k..].iter().sum();
        let dn: u64 = b[..k].iter().sum();
        ensure!(h.bdd_count(&[true]) == up, "{} true points instead of {}", h.bdd_count(&[true]), up);
        ensure!(h.bdd_count(&[false]) == dn, "{} false points instead of {}", h.bdd_count(&[false]), dn);
        ensure!(h.bdd_count(&[true, false]) == 1 << n && h.bdd_count(&[]) == 0, "both or none");
        ensure!(h.bdd_extract(&[true]).len() == up, "iterator length");
        let mut it = h.bdd_extract(&[true]);
        let mut seen = HashSet::new();
        // (the iterator walks through unselected assignments too)
        let lim = if n <= 14 { 2000 } else { 0 };
        for _ in 0..lim {
            let Some(p) = it.next() else { break };
            let ups = p.iter().filter(|l| !l.starts_with('~')).count();
            ensure!(p.len() == n && ups >= k, "an assignment of {} literals, {} up", p.len(), ups);
            ensure!(seen.insert(p), "an assignment twice");
        }
        ensure!(seen.len() as u64 == up.min(lim), "{} assignments", seen.len());
        cx.trans(8);
        Ok(())
    });
}

fn sum_of(x: &[MddNode<i64>], zero: MddNode<i64>) -> MddNode<i64> {
    let mut f = zero;
    for y in x {
        f = f.add(y);
    }
    f
}

pub fn prob_mss(cx: &mut Cx) {
    for n in [6usize, 12, 24] {
        for s in [2usize, 3] {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("sum of {} components with {} states: probability and importance", n, s),
                |cx| {
                    let mut m: MddMgr<i64> = MddMgr::new();
                    let x: Vec<MddNode<i64>> = (0..n).map(|v| m.defvar(&nm(v), s)).collect();
                    let mut f = sum_of(&x, m.value(0));
                    let p: Vec<f64> = if s == 2 { vec![0.25, 0.75] } else { vec![0.25, 0.5, 0.25] };
                    let pv: HashMap<String, Vec<f64>> = (0..n).map(|v| (nm(v), p.clone())).collect();
                    let conv = |k: usize| {
                        let mut d = vec![1.0];
                        for _ in 0..k {
                            let mut e = vec![0.0; d.len() + s - 1];
                            for (i, a) in d.iter().enumerate() {
                                for j in 0..s {
                                    e[i + j] += a * p[j];
                                }
                            }
                            d = e;
                        }
                        d
                    };
                    let (d, c) = (conv(n), conv(n - 1));
                    let g = |v: i64| if v >= 0 && (v as usize) < c.len() { c[v as usize] } else { 0.0 };
                    for v in 0..d.len() {
                        ensure!(f.prob(&pv, &[v as i64]) == d[v], "P({}) = {} instead of {}", v, f.prob(&pv, &[v as i64]), d[v]);
                    }
                    let odd: Vec<i64> = (0..d.len() as i64).filter(|v| v % 2 == 1).collect();
                    let want: f64 = odd.iter().map(|&v| d[v as usize]).sum();
                    ensure!(f.prob(&pv, &odd) == want, "P(odd)");
                    for v in [0i64, 1, n as i64 / 2, n as i64] {
                        let b = f.bmeas(&pv, &[v]);
                        for (nmv, w) in &b {
                            for i in 1..s as i64 {
                                let e = g(v - i) - g(v - i + 1);
                                ensure!(w[i as usize - 1] == e, "importance of {} state {} for {}: {} instead of {}", nmv, i, v, w[i as usize - 1], e);
                            }
                        }
                        ensure!(b.len() == n, "{} components measured", b.len());
                    }
                    let mut h = f.ge(&m.value(n as i64));
                    let up: f64 = d[n..].iter().sum();
                    ensure!(h.prob(&pv, &[1]) == up && h.prob(&pv, &[0]) == 1.0 - up, "P(sum >= {})", n);
                    let b = h.bmeas(&pv, &[1]);
                    for (nmv, w) in &b {
                        for i in 1..s as i64 {
                            // P(rest >= n-i) - P(rest >= n-i+1) = P(rest = n-i)
                            ensure!(w[i as usize - 1] == g(n as i64 - i), "importance of {} for sum >= {}", nmv, n);
                        }
                    }
                    cx.states(1);
                    cx.trans(d.len() as u64 + 10);
                    Ok(())
                },
            );
        }
    }
}

pub fn min_mss(cx: &mut Cx) {
    for n in [6usize, 14, 30] {
        for s in [2usize, 3, 4] {
            for cut in [false, true] {
                if !cx.mine() {
                    continue;
                }
                cx.case(
                    || format!("sum of {} components with {} states: {} vectors", n, s, if cut { "cut" } else { "path" }),
                    |cx| {
                        let mut m: MssMgr<i64> = MssMgr::new();
                        let x: Vec<MddNode<i64>> = (0..n).map(|v| m.defvar(&nm(v), s)).collect();
                        let f = sum_of(&x, m.value(0));
                        let w = sums(n, s);
                        let top = w.len() as i64 - 1;
                        let fam = |h: &MddNode<i64>| if cut { m.mincut(h) } else { m.minpath(h) };
                        let z = fam(&f).ok_or("no answer for a monotone function")?;
                        for v in -1..=top + 1 {
                            let ss: HashSet<i64> = [v].into_iter().collect();
                            let e = if v < 0 || v > top { 0 } else { w[v as usize] };
                            ensure!(z.count(&ss) == e, "{} vectors of value {} instead of {}", z.count(&ss), v, e);
                        }
                        let mut lb = z.labels();
                        lb.sort();
                        ensure!(lb == (0..=top).collect::<Vec<_>>(), "labels {:?}", lb);
                        // thresholds: Boolean structure functions
                        for c in [1i64, top / 2, top] {
                            let h = f.ge(&m.value(c));
                            let y = fam(&h).ok_or("no answer for a threshold")?;
                            // the vectors of value 1 (paths) or 0 (cuts)
                            let (lab, e) = if cut { (0i64, w[c as usize - 1]) } else { (1, w[c as usize]) };
                            let ss: HashSet<i64> = [lab].into_iter().collect();
                            ensure!(y.count(&ss) == e, "threshold {}: {} vectors instead of {}", c, y.count(&ss), e);
                            for p in y.extract(&ss).take(500) {
                                let t: i64 = p.values().map(|v| *v as i64).sum();
                                ensure!(p.len() == n && t == if cut { c - 1 } else { c }, "threshold {}: a vector of sum {}", c, t);
                            }
                        }
                        // capped from one side: one stratum collapses to its extreme vector
                        let c = top / 2;
                        let g = if cut { f.min(&m.value(c)) } else { f.max(&m.value(c)) };
                        let y = fam(&g).ok_or("no answer for a capped sum")?;
                        let cs: HashSet<i64> = [c].into_iter().collect();
                        ensure!(y.count(&cs) == 1, "{} extreme vectors of the capped value", y.count(&cs));
                        let inter = z.intersect(&y);
                        let diff = z.setdiff(&y);
                        for v in 0..=top {
                            let ss: HashSet<i64> = [v].into_iter().collect();
                            let both = if (cut && v < c) || (!cut && v > c) { w[v as usize] } else { 0 };
                            ensure!(inter.count(&ss) == both, "intersection: {} vectors of value {} instead of {}", inter.count(&ss), v, both);
                            ensure!(diff.count(&ss) == w[v as usize] - both, "difference: {} vectors of value {} instead of {}", diff.count(&ss), v, w[v as usize] - both);
                        }
                        // not monotone: the sum with one component reversed
                        let bad = f.sub(&x[n / 2]).sub(&x[n / 2]);
                        ensure!(fam(&bad).is_none(), "an answer for a non-monotone function");
                        cx.states(1);
                        cx.trans(3 * top as u64 + 10);
                        Ok(())
                    },
                );
            }
        }
    }
}

pub fn count_mss(cx: &mut Cx) {
    for n in [6usize, 14, 30] {
        for s in [2usize, 3, 4] {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("sum of {} components with {} states: counts", n, s),
                |cx| {
                    let mut m: MddMgr<i64> = MddMgr::new();
                    let x: Vec<MddNode<i64>> = (0..n).map(|v| m.defvar(&nm(v), s)).collect();
                    let f = sum_of(&x, m.value(0));
                    let w = sums(n, s);
                    for v in 0..w.len() {
                        let ss: HashSet<i64> = [v as i64].into_iter().collect();
                        ensure!(f.mdd_count(&ss) == w[v], "{} vectors of value {} instead of {}", f.mdd_count(&ss), v, w[v]);
                        ensure!(f.mdd_extract(&ss).len() == w[v], "iterator length");
                        let lim = if (s as f64).powi(n as i32) <= 20_000.0 { 50 } else { 0 };
                        let mut k = 0;
                        for p in f.mdd_extract(&ss).take(lim) {
                            let t: usize = p.values().sum();
                            ensure!(p.len() == n && t == v, "a vector of sum {} for {}", t, v);
                            k += 1;
                        }
                        ensure!(k == w[v].min(lim as u64), "{} vectors of value {}", k, v);
                    }
                    let all: HashSet<i64> = (0..w.len() as i64).collect();
                    ensure!(f.mdd_count(&all) == w.iter().sum::<u64>(), "all vectors");
                    for c in [1, w.len() / 2, w.len() - 1] {
                        let h = f.ge(&m.value(c as i64));
                        let (one, nul): (HashSet<i64>, HashSet<i64>) = ([1].into_iter().collect(), [0].into_iter().collect());
                        ensure!(h.mdd_count(&one) == w[c..].iter().sum::<u64>() && h.mdd_count(&nul) == w[..c].iter().sum::<u64>(), "counts of sum >= {}", c);
                    }
                    cx.states(1);
                    cx.trans(w.len() as u64 + 4);
                    Ok(())
                },
            );
        }
    }
}

/// Parity of many variables has 2^n paths and 2n nodes: every walk must be per node, not per path.
pub fn deep_gc<C: Core>(cx: &mut Cx, kind: u8, lo: i64, hi: i64) {
    if !cx.mine() {
        return;
    }
    let n = 64usize;
    cx.case(
        || format!("{}: parity of {} variables kept over a collection", C::NAME, n),
        |cx| {
            let l = Layout::std(&vec![2; n]);
            let mut c = C::new(&l);
            let (mut a, mut b) = (c.term(kind, lo), c.term(kind, hi));
            for v in 0..n {
                (a, b) = (c.mk(kind, v, &[a, b]), c.mk(kind, v, &[b, a]));
            }
            for _ in 0..3 {
                c.gc(&[a, b]);
                let (mut x, mut y) = (c.term(kind, lo), c.term(kind, hi));
                for v in 0..n {
                    (x, y) = (c.mk(kind, v, &[x, y]), c.mk(kind, v, &[y, x]));
                }
                ensure!(x == a && y == b, "a second node for a kept function");
            }
            cx.states(2);
            cx.trans(3);
            Ok(())
        },
    );
}
