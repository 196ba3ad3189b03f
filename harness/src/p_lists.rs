//! Long lists for the n-ary operations and k-of-n over hundreds of components.
use crate::cx::*;
use crate::refm::*;
use bddcore::prelude::*;
use bss::prelude::*;
use bddcore::prelude::Node;
use mss::prelude::{MddMgr, MddNode};
use std::collections::HashSet;

const LENGTHS: [usize; 13] = [63, 64, 65, 127, 128, 255, 256, 257, 1000, 1025, 4097, 65_537, 70_000];

fn places(n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = [0, 1, 62, 63, 64, 127, 128, 254, 255, 256, 1023, 1024, 4095, 4096, 65_534, 65_535, 65_536, n / 2, n - 2, n - 1].into_iter().filter(|&p| p < n).collect();
    p.sort();
    p.dedup();
    p
}

/// Lists that repeat one function and hold another one at a single place.
pub fn long_bss(cx: &mut Cx) {
    for n in LENGTHS {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("BDD: lists of {} functions of which one is different", n),
            |cx| {
                let mut m = BddMgr::new();
                let x = m.defvar(&nm(0));
                let y = m.defvar(&nm(1));
                // tables over (x, y) in bits: 0b1010 is x, 0b1100 is y
                let f: Vec<(u8, BddNode)> = vec![(0, m.zero()), (15, m.one()), (0b1010, x.clone()), (0b1100, y.clone()), (0b0101, x.not()), (0b0110, x.xor(&y))];
                let find = |t: u8| f.iter().find(|f| f.0 == t).map(|f| f.1.clone());
                for (ta, a) in &f {
                    for (tb, b) in &f {
                        if n > 5000 && (*ta == *tb || *ta == 0 || *tb == 15) {
                            continue;
                        }
                        for p in places(n) {
                            at(&[n as u64, *ta as u64, *tb as u64, p as u64]);
                            let mut l = vec![a.clone(); n];
                            l[p] = b.clone();
                            let c = find(ta & tb).unwrap_or_else(|| a.and(b));
                            ensure!(m.and(&l).eq(&c), "and of {} times {:#06b} and {:#06b} at place {}", n - 1, ta, tb, p);
                            let c = find(ta | tb).unwrap_or_else(|| a.or(b));
                            ensure!(m.or(&l).eq(&c), "or of {} times {:#06b} and {:#06b} at place {}", n - 1, ta, tb, p);
                            cx.trans(2);
                        }
                    }
                }
                cx.states(1);
                Ok(())
            },
        );
    }
    // k-of-n of two functions, each listed many times
    let ns: &[usize] = if cx.thorough { &[16, 63, 64, 65, 100, 255, 256, 257, 400, 1025] } else { &[16, 63, 64, 65, 100, 255, 256, 257, 400] };
    for &n in ns {
        for every in [2usize, 3, n / 2, n] {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("BDD: k-of-n of {} functions, every {}th different", n, every),
                |cx| {
                    let mut m = BddMgr::new();
                    let x = m.defvar(&nm(0));
                    let y = m.defvar(&nm(1));
                    for (a, b, ta, tb) in [(&x, &y, 0b1010u8, 0b1100u8), (&x, &x.not(), 0b1010, 0b0101), (&x.xor(&y), &x, 0b0110, 0b1010)] {
                        let odd = |i: usize| i % every == every - 1;
                        let l: Vec<BddNode> = (0..n).map(|i| if odd(i) { b.clone() } else { a.clone() }).collect();
                        let w = (0..n).filter(|&i| odd(i)).count();
                        let ks: Vec<usize> = if n <= 65 { (0..n + 2).collect() } else {
                            let mut k = vec![0, 1, 2, w - 1, w, w + 1, n - w - 1, n - w, n - w + 1, n - 1, n, n + 1, n / 2, 254, 255, 256, 257];
                            k.sort();
                            k.dedup();
                            k
                        };
                        for k in ks {
                            at(&[n as u64, every as u64, k as u64]);
                            let h = m.kofn(k, &l);
                            let rc = h.get_mgr();
                            let dd = rc.borrow();
                            for p in 0..4 {
                                let ones = (ta as usize >> p & 1) * (n - w) + (tb as usize >> p & 1) * w;
                                let g = crate::p_bdd::eval_bdd(&dd, h.get_id(), |v| p >> v & 1 == 1);
                                ensure!(g == (ones >= k) as i64, "{}-of-{} of {:#06b} with {} times {:#06b} at {:#04b}: {}", k, n, ta, w, tb, p, g);
                            }
                            cx.trans(1);
                        }
                    }
                    cx.states(1);
                    Ok(())
                },
            );
        }
    }
    // k-of-n of hundreds of variables: the product of the diagram with the count of ones
    let ns: &[usize] = if cx.thorough { &[128, 255, 256, 257, 300, 500] } else { &[128, 256, 300] };
    for &n in ns {
        for ord in 0..3 {
            if !cx.mine() {
                continue;
            }
            let ord_n = ["in order", "reversed", "shuffled"][ord];
            cx.case(
                || format!("BDD: k-of-n of {} variables {}", n, ord_n),
                |cx| {
                    let mut m = BddMgr::new();
                    let x: Vec<BddNode> = (0..n).map(|v| m.defvar(&nm(v))).collect();
                    let l: Vec<BddNode> = (0..n).map(|i| x[match ord { 0 => i, 1 => n - 1 - i, _ => i * 7919 % n }].clone()).collect();
                    let mut ks: Vec<usize> = vec![1, 2, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1, n, 127, 128, 129, 254, 255, 256, 257];
                    ks.retain(|&k| k <= n);
                    ks.sort();
                    ks.dedup();
                    for k in ks {
                        at(&[n as u64, k as u64]);
                        let h = m.kofn(k, &l);
                        let rc = h.get_mgr();
                        let dd = rc.borrow();
                        // (node, variables still to come, ones so far)
                        let mut seen: HashSet<(NodeId, usize, usize)> = HashSet::new();
                        let mut st = vec![(h.get_id(), n, 0usize)];
                        while let Some(s) = st.pop() {
                            if !seen.insert(s) {
                                continue;
                            }
                            let (id, left, ones) = s;
                            match dd.get_node(&id).ok_or("no such node")? {
                                Node::One => ensure!(ones >= k, "{}-of-{}: true after {} ones, {} variables to come", k, n, ones, left),
                                Node::Zero => ensure!(ones + left < k, "{}-of-{}: false after {} ones, {} variables to come", k, n, ones, left),
                                Node::Undet => return Err(format!("{}-of-{}: undetermined", k, n)),
                                Node::NonTerminal(f) => {
                                    let lv = dd.level(&id).ok_or("no level")?;
                                    ensure!(lv < left, "{}-of-{}: variable {} below variable {}", k, n, lv, left);
                                    // a variable that is skipped may have either value
                                    for skip in 0..=left - 1 - lv {
                                        st.push((f.edge(0), lv, ones + skip));
                                        st.push((f.edge(1), lv, ones + skip + 1));
                                    }
                                }
                            }
                        }
                        cx.states(seen.len() as u64);
                        cx.trans(2 * seen.len() as u64);
                    }
                    Ok(())
                },
            );
        }
    }
    // conjunctions and disjunctions of many variables
    for n in [64usize, 255, 256, 257, 1100] {
        for rev in [false, true] {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("BDD: and, or of {} variables, reversed={}", n, rev),
                |cx| {
                    let mut m = BddMgr::new();
                    let mut x: Vec<BddNode> = (0..n).map(|v| m.defvar(&nm(v))).collect();
                    if rev {
                        x.reverse();
                    }
                    let (a, o) = (m.and(&x), m.or(&x));
                    let rc = a.get_mgr();
                    let dd = rc.borrow();
                    for v in 0..=n {
                        let g = crate::p_bdd::eval_bdd(&dd, a.get_id(), |w| w != v);
                        ensure!(g == (v == n) as i64, "and with only variable {} of {} false: {}", v, n, g);
                        let g = crate::p_bdd::eval_bdd(&dd, o.get_id(), |w| w == v);
                        ensure!(g == (v < n) as i64, "or with only variable {} of {} true: {}", v, n, g);
                    }
                    ensure!(a.size().0 == n as u64 && o.size().0 == n as u64, "{} and {} nodes", a.size().0, o.size().0);
                    cx.states(2);
                    cx.trans(2 * n as u64);
                    Ok(())
                },
            );
        }
    }
}

pub fn long_mss(cx: &mut Cx) {
    let sizes = [2usize, 3];
    for n in LENGTHS {
        for value in [false, true] {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("MDD: lists of {} {} of which one is different", n, if value { "value functions" } else { "Boolean functions" }),
                |cx| {
                    let mut m: MddMgr<i64> = MddMgr::new();
                    let x: Vec<MddNode<i64>> = (0..2).map(|v| m.defvar(&nm(v), sizes[v])).collect();
                    let tabs: Vec<Fun> = if value {
                        [[0, 1, 0, 1, 0, 1], [0, 0, 1, 1, 2, 2], [7, 7, 7, 7, 7, 7], [-9; 6], [2, 0, 5, 1, -3, 1 << 40]].iter().map(|t| Fun::v(t.to_vec())).collect()
                    } else {
                        [[0, 1, 0, 1, 0, 1], [0, 0, 1, 1, 1, 1], [1; 6], [0; 6], [1, 0, 0, 1, 1, 0]].iter().map(|t| Fun::b(t.to_vec())).collect()
                    };
                    let h: Vec<MddNode<i64>> = tabs.iter().map(|f| crate::p_gc::mss_build(&m, &x, f, &sizes)).collect();
                    for i in 0..h.len() {
                        for j in 0..h.len() {
                            if n > 5000 && (i == j || i > 2) {
                                continue;
                            }
                            let want = |low: bool| -> Vec<i64> { tabs[i].t.iter().zip(&tabs[j].t).map(|(a, b)| if low { *a.min(b) } else { *a.max(b) }).collect() };
                            for p in places(n) {
                                at(&[n as u64, i as u64, j as u64, p as u64]);
                                let mut l = vec![h[i].clone(); n];
                                l[p] = h[j].clone();
                                for low in [true, false] {
                                    let r = match (value, low) {
                                        (false, true) => m.and(&l),
                                        (false, false) => m.or(&l),
                                        (true, true) => m.min(&l),
                                        (true, false) => m.max(&l),
                                    };
                                    let t = crate::p_gc::mss_table(&r, &sizes)?;
                                    ensure!(t.t == want(low) && r.is_value() == value, "{} times {} and {} at place {}: {}", n - 1, tabs[i].show(), tabs[j].show(), p, t.show());
                                    cx.trans(1);
                                }
                            }
                        }
                    }
                    cx.states(1);
                    Ok(())
                },
            );
        }
    }
}

/// Families from lists of up to 2^17 sets: all subsets of 17 elements but a few, in several orders.
pub fn many_sets(cx: &mut Cx) {
    for n in [255usize, 256, 257, 1023, 1025, 4095, 4096, 4097, 65_535, 65_536, 65_537, 130_000] {
        for order in 0..3usize {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("ZddMgr: a list of {} sets over 17 elements, order {}", n, order),
                |cx| {
                    let mut m = ZddMgr::new();
                    // all different: the first `n` codes, upwards, downwards, or multiplied by an odd number
                    let code = |i: usize| match order {
                        0 => i,
                        1 => n - 1 - i,
                        _ => i * 40_503 & 0x1ffff,
                    };
                    let set = |c: usize| -> Vec<String> { (0..17).filter(|b| c >> b & 1 == 1).map(nm).collect() };
                    let sets: Vec<Vec<String>> = (0..n).map(|i| set(code(i))).collect();
                    let f = m.from_sets(&sets);
                    ensure!(f.count(&[true]) == n as u64, "{} members instead of {}", f.count(&[true]), n);
                    let mut there = vec![false; 1 << 17];
                    for i in 0..n {
                        there[code(i)] = true;
                    }
                    let mut k = 0;
                    for p in f.extract(&[true]) {
                        let c: usize = p.iter().map(|e| 1usize << (0..17).find(|&b| nm(b) == *e).unwrap_or(17)).sum();
                        ensure!(c < 1 << 17 && there[c], "a set {:?} that was not listed or comes twice", p);
                        there[c] = false;
                        k += 1;
                    }
                    ensure!(k == n, "{} sets extracted instead of {}", k, n);
                    // the last set alone decides
                    for p in [0, n / 2, n - 1] {
                        let one = m.from_sets(&sets[p..p + 1]);
                        ensure!(f.intersect(&one).eq(&one), "set number {} is missing", p);
                        let rest = f.setdiff(&one);
                        ensure!(rest.count(&[true]) == n as u64 - 1 && rest.union(&one).eq(&f), "without set number {}", p);
                    }
                    // lists with repetitions
                    let twice: Vec<Vec<String>> = (0..n).map(|i| set(if i + 1 == n { 1 << 16 | 1 } else { i & 1 })).collect();
                    let g = m.from_sets(&twice);
                    ensure!(g.count(&[true]) == 3, "{} members from a list of three different sets", g.count(&[true]));
                    cx.states(n as u64);
                    cx.trans(10);
                    Ok(())
                },
            );
        }
    }
}

/// Families over thousands of labels, and levels with thousands of members.
pub fn many_labels(cx: &mut Cx) {
    use mss::prelude::MssMgr;
    for (n, cut) in [(8usize, false), (8, true), (11, false), (11, true), (13, false), (13, true), (17, false), (17, true)] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("MssMgr: a structure function of {} components with 2^{} values, {}", n, n, if cut { "cuts" } else { "paths" }),
            |cx| {
                let mut m: MssMgr<i64> = MssMgr::new();
                let x: Vec<MddNode<i64>> = (0..n).map(|v| m.defvar(&nm(v), 2)).collect();
                let mut f = m.value(0);
                for (i, y) in x.iter().enumerate() {
                    f = f.add(&y.mul(&m.value(1 << i)));
                }
                let all = 1usize << n;
                let z = if cut { m.mincut(&f) } else { m.minpath(&f) }.ok_or("no answer for a monotone function")?;
                let l = z.labels();
                ensure!(l.len() == all && l.iter().enumerate().all(|(i, v)| *v == i as i64), "{} labels from {:?} to {:?}", l.len(), l.first(), l.last());
                let code = |p: &std::collections::HashMap<String, usize>| -> usize { (0..n).map(|i| p[&nm(i)] << i).sum() };
                for v in [0, 1, all / 2 - 1, all / 2, 254, 255, all.saturating_sub(257), all - 2, all - 1, 4095.min(all - 1), 4096.min(all - 1), 65_535.min(all - 1), 65_536.min(all - 1)] {
                    at(&[v as u64]);
                    let ss: HashSet<i64> = [v as i64].into_iter().collect();
                    let e: Vec<usize> = z.extract(&ss).map(|p| code(&p)).collect();
                    ensure!(z.count(&ss) == 1 && e == [v], "stratum {}: {:?}", v, e);
                }
                let every: HashSet<i64> = (0..all as i64).collect();
                ensure!(z.count(&every) == all as u64, "{} members", z.count(&every));
                let odd: HashSet<i64> = (0..all as i64).filter(|v| v & 1 == 1).collect();
                ensure!(z.count(&odd) == all as u64 / 2 && z.extract(&odd).count() == all / 2, "{} members with odd labels", z.count(&odd));
                // levels: all members on the right side of v that no other one there is below (above)
                let few = all <= 2048;
                let vs: Vec<usize> = if few { vec![0, 1, 100, all / 2 - 1, all / 2, all / 2 + 1, all - 1] } else { vec![all - 2, all / 2, 1] };
                for v in vs {
                    if n > 13 {
                        break;
                    }
                    let lev = z.extract_level(v as i64);
                    let mut g: Vec<usize> = lev.iter().map(code).collect();
                    g.sort();
                    let inside: Vec<bool> = (0..all).map(|c| if cut { c <= v } else { c >= v }).collect();
                    let e: Vec<usize> = (0..all).filter(|&c| inside[c] && (0..n).all(|b| if cut { c >> b & 1 == 1 || !inside[c | 1 << b] } else { c >> b & 1 == 0 || !inside[c ^ 1 << b] })).collect();
                    ensure!(g == e, "level {}: {} members {:?} instead of {} {:?}", v, g.len(), &g[..g.len().min(8)], e.len(), &e[..e.len().min(8)]);
                }
                // labels of differences and intersections
                let g = f.max(&m.value(all as i64 / 2));
                let g = if cut { f.min(&m.value(all as i64 / 2)) } else { g };
                let y = if cut { m.mincut(&g) } else { m.minpath(&g) }.ok_or("no answer for a capped function")?;
                let both = z.intersect(&y);
                let only = z.setdiff(&y);
                let mut ls = both.labels();
                ls.extend(only.labels());
                ls.sort();
                ls.dedup();
                ensure!(ls == l, "intersection and difference have {} labels together", ls.len());
                ensure!(both.count(&every) + only.count(&every) == all as u64, "intersection and difference have {} members together", both.count(&every) + only.count(&every));
                cx.states(2 * all as u64);
                cx.trans(30);
                Ok(())
            },
        );
    }
    // levels with thousands of members: k-of-n
    let big: &[(usize, usize)] = if cx.thorough { &[(10, 5), (13, 6), (15, 6), (16, 6)] } else { &[(10, 5), (13, 6), (15, 6)] };
    for &(n, k) in big {
        for cut in [false, true] {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("MssMgr: {} working components out of {}, {}", k, n, if cut { "cuts" } else { "paths" }),
                |cx| {
                    let mut m: MssMgr<i64> = MssMgr::new();
                    let x: Vec<MddNode<i64>> = (0..n).map(|v| m.defvar(&nm(v), 2)).collect();
                    let mut f = m.value(0);
                    for y in &x {
                        f = f.add(y);
                    }
                    // the threshold itself: all members of the level carry one label
                    let c = if cut { n - k } else { k };
                    let f = f.ge(&m.value(if cut { c as i64 + 1 } else { c as i64 }));
                    let z = if cut { m.mincut(&f) } else { m.minpath(&f) }.ok_or("no answer for a monotone function")?;
                    let lev = z.extract_level(if cut { 0 } else { 1 });
                    let mut seen = HashSet::new();
                    for p in &lev {
                        let s: usize = (0..n).map(|i| p[&nm(i)]).sum();
                        ensure!(p.len() == n && s == c, "level {}: a member of sum {}", c, s);
                        ensure!(seen.insert((0..n).map(|i| p[&nm(i)] << i).sum::<usize>()), "level {}: a member twice", c);
                    }
                    let e = (0..1usize << n).filter(|p| p.count_ones() as usize == c).count();
                    ensure!(lev.len() == e, "level {}: {} members instead of {}", c, lev.len(), e);
                    cx.states(e as u64);
                    cx.trans(1);
                    Ok(())
                },
            );
        }
    }
}
