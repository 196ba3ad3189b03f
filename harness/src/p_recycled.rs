//! Diagrams built on recycled places: the free places are handed out from the top, so children
//! get larger numbers than their parents, or numbers on both sides of them.
use crate::cx::*;
use crate::p_gc::mss_build;
use crate::refm::*;
use crate::core::*;
use crate::p_bdd::build_h;
use bss::prelude::*;
use mss::prelude::{MddNode, MssMgr};

/// (every k-th function is kept across the first collection, 0 for none;
/// before each function: 0 nothing, 1 an explicit, 2 an automatic collection)
const PATTERNS: [(usize, u8); 8] = [(0, 1), (0, 2), (0, 0), (2, 1), (2, 0), (3, 2), (3, 1), (7, 0)];

fn fun_sets() -> Vec<(usize, Vec<u64>)> {
    let mut four: Vec<u64> = (0..256u64).map(|k| k * 40_503 % 65_536).collect();
    four.extend((0..65_536u64).filter(|f| (0..4).all(|v| (0..16u64).all(|p| p >> v & 1 == 1 || f >> p & 1 <= f >> (p | 1 << v) & 1))));
    vec![(2, (0..16).collect()), (3, (0..256).collect()), (4, four)]
}

/// Every function of 2 and 3 variables and 424 of 4 variables, built again after a collection.
pub fn bss_handles(cx: &mut Cx, what: &str, check: &dyn Fn(&BssMgr, &BddNode, usize, u64) -> Res) {
    for (n, funs) in fun_sets() {
        for (keep, each) in PATTERNS {
            for part in 0..2usize {
                if !cx.mine() {
                    continue;
                }
                let funs = &funs;
                cx.case(
                    || format!("{}: {} functions of {} variables on recycled places, every {}th kept, collection before each: {}, half {}", what, funs.len(), n, keep, each, part),
                    |cx| {
                        let mut m = BssMgr::new();
                        let x: Vec<BddNode> = (0..n).map(|v| m.defvar(&nm(v))).collect();
                        let tab = |f: u64| -> Vec<i64> { (0..1usize << n).map(|p| (f >> p & 1) as i64).collect() };
                        let kept: Vec<BddNode> = {
                            let all: Vec<BddNode> = funs.iter().map(|&f| build_h(m.bdd(), &x, &tab(f))).collect();
                            all.into_iter().enumerate().filter(|(i, _)| keep > 0 && i % keep == 1).map(|x| x.1).collect()
                        };
                        m.bdd().gc(&[]);
                        for &f in funs.iter().skip(part).step_by(2) {
                            at(&[f]);
                            match each {
                                1 => drop(m.bdd().gc(&[])),
                                2 => {
                                    m.bdd().set_gc_threshold(1);
                                    let _ = m.bdd().zero();
                                    m.bdd().set_gc_threshold(1 << 16);
                                }
                                _ => {}
                            }
                            let h = build_h(m.bdd(), &x, &tab(f));
                            check(&m, &h, n, f).map_err(|e| format!("{:#x}: {}", f, e))?;
                        }
                        cx.states(kept.len() as u64 + funs.len() as u64 / 2);
                        cx.trans(funs.len() as u64 / 2);
                        Ok(())
                    },
                );
            }
        }
    }
}

pub fn zdd_handles(cx: &mut Cx, what: &str, check: &dyn Fn(&ZddNode, usize, u64) -> Res) {
    for (n, funs) in fun_sets() {
        for (keep, each) in PATTERNS {
            if each == 2 || !cx.mine() {
                continue;
            }
            let funs = &funs;
            cx.case(
                || format!("{}: {} families over {} elements on recycled places, every {}th kept, collection before each: {}", what, funs.len(), n, keep, each),
                |cx| {
                    let mut m = ZddMgr::new();
                    for v in 0..n {
                        m.singleton(&nm(v));
                    }
                    let collect = |m: &ZddMgr| {
                        m.set_gc_threshold(1);
                        let _ = m.empty();
                        m.set_gc_threshold(1 << 16);
                    };
                    let make = |m: &mut ZddMgr, f: u64| {
                        let sets: Vec<Vec<String>> = (0..1usize << n).filter(|&p| f >> p & 1 == 1).map(|p| (0..n).filter(|v| p >> v & 1 == 1).map(nm).collect()).collect();
                        m.from_sets(&sets)
                    };
                    let kept: Vec<ZddNode> = {
                        let all: Vec<ZddNode> = funs.iter().map(|&f| make(&mut m, f)).collect();
                        all.into_iter().enumerate().filter(|(i, _)| keep > 0 && i % keep == 1).map(|x| x.1).collect()
                    };
                    collect(&m);
                    for &f in funs {
                        at(&[f]);
                        if each > 0 {
                            collect(&m);
                        }
                        let h = make(&mut m, f);
                        check(&h, n, f).map_err(|e| format!("{:#x}: {}", f, e))?;
                    }
                    cx.states(kept.len() as u64 + funs.len() as u64);
                    cx.trans(funs.len() as u64);
                    Ok(())
                },
            );
        }
    }
}

pub fn mss_sets() -> Vec<(Vec<usize>, Vec<Fun>)> {
    use crate::p_mdd::{bfuns, vfuns};
    vec![
        (vec![2, 3], bfuns(&[2, 3])),
        (vec![2, 2, 2], bfuns(&[2, 2, 2])),
        (vec![2, 3], vfuns(&[2, 3], &[0, 1, 2])),
        (vec![3, 2], vfuns(&[3, 2], &[-1, 4, U])),
    ]
}

/// Multi-state functions: `sets` are (states of the variables, functions).
pub fn mss_handles(cx: &mut Cx, what: &str, sets: &[(Vec<usize>, Vec<Fun>)], check: &dyn Fn(&MssMgr<i64>, &mut MddNode<i64>, &Dom, &Fun) -> Res) {
    for (sizes, funs) in sets {
        for (keep, each) in PATTERNS {
            for part in 0..4usize {
                if !cx.mine() {
                    continue;
                }
                cx.case(
                    || format!("{}: {} functions over {:?} from {} on recycled places, every {}th kept, collection before each: {}, part {}", what, funs.len(), sizes, funs[0].show(), keep, each, part),
                    |cx| {
                        let mut m: MssMgr<i64> = MssMgr::new();
                        let x: Vec<MddNode<i64>> = sizes.iter().enumerate().map(|(v, &s)| m.defvar(&nm(v), s)).collect();
                        let d = Dom::new(sizes);
                        let kept: Vec<MddNode<i64>> = {
                            let all: Vec<MddNode<i64>> = funs.iter().map(|f| mss_build(m.mdd(), &x, f, sizes)).collect();
                            all.into_iter().enumerate().filter(|(i, _)| keep > 0 && i % keep == 1).map(|x| x.1).collect()
                        };
                        m.gc(&[]);
                        for (i, f) in funs.iter().enumerate().skip(part).step_by(4) {
                            at(&[i as u64]);
                            match each {
                                1 => drop(m.gc(&[])),
                                2 => {
                                    m.set_gc_threshold(1);
                                    let _ = m.boolean(false);
                                    m.set_gc_threshold(1 << 16);
                                }
                                _ => {}
                            }
                            let mut h = mss_build(m.mdd(), &x, f, sizes);
                            check(&m, &mut h, &d, f).map_err(|e| format!("{}: {}", f.show(), e))?;
                        }
                        cx.states(kept.len() as u64 + funs.len() as u64 / 4);
                        cx.trans(funs.len() as u64 / 4);
                        Ok(())
                    },
                );
            }
        }
    }
}

/// The families of a manager whose place was filled by a family of more than 2^16 nodes before.
pub fn mss_families(cx: &mut Cx, what: &str, sizes: &[usize], funs: &[Fun], check: &dyn Fn(&MssMgr<i64>, &[MddNode<i64>], &MddNode<i64>, &Dom, &Fun) -> Res) {
    for part in 0..4usize {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{}: every 4th of {} functions over {:?} from {}, families on recycled places", what, funs.len(), sizes, funs[part].show()),
            |cx| {
                let mut m: MssMgr<i64> = MssMgr::new();
                let x: Vec<MddNode<i64>> = sizes.iter().enumerate().map(|(v, &s)| m.defvar(&nm(v), s)).collect();
                let y: Vec<MddNode<i64>> = (0..16).map(|v| m.defvar(&format!("fill{}", v), 2)).collect();
                let d = Dom::new(sizes);
                let mut f = m.value(0);
                for (i, y) in y.iter().enumerate() {
                    f = f.add(&y.mul(&m.value(1 << i)));
                }
                at(&[u64::MAX]);
                drop(m.minpath(&f).ok_or("no paths of a monotone function")?);
                for (i, f) in funs.iter().enumerate().skip(part).step_by(4) {
                    at(&[i as u64]);
                    let h = mss_build(m.mdd(), &x, f, sizes);
                    check(&m, &x, &h, &d, f).map_err(|e| format!("{}: {}", f.show(), e))?;
                }
                cx.states(funs.len() as u64 / 4);
                cx.trans(funs.len() as u64 / 2);
                Ok(())
            },
        );
    }
}

/// Core forests: build everything, keep every k-th, collect, build everything again.
pub fn core<C: Core>(cx: &mut Cx, sizes: &[usize], funs: &[Fun], check: &dyn Fn(&C, u64, &Dom, &Fun) -> Res) {
    for (keep, each) in PATTERNS {
        if each == 2 || !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{}: {} functions over {:?} from {} on recycled places, every {}th kept, collection before each: {}", C::NAME, funs.len(), sizes, funs[0].show(), keep, each),
            |cx| {
                let l = Layout::std(sizes);
                let mut c = C::new(&l);
                let all: Vec<u64> = funs.iter().map(|f| c.build(f)).collect();
                let mut kept = c.fixed();
                kept.extend(all.iter().enumerate().filter(|(i, _)| keep > 0 && i % keep == 1).map(|x| *x.1));
                c.gc(&kept);
                for (i, f) in funs.iter().enumerate() {
                    at(&[i as u64]);
                    if each > 0 {
                        c.gc(&kept);
                    }
                    let id = c.build(f);
                    let t = c.table(id)?;
                    ensure!(t == *f, "building {} gives a diagram of {}", f.show(), t.show());
                    check(&c, id, &l.dom, f).map_err(|e| format!("{}: {}", f.show(), e))?;
                }
                cx.states((funs.len() + kept.len()) as u64);
                cx.trans(funs.len() as u64);
                Ok(())
            },
        );
    }
}
