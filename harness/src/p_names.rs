//! Names: every pair of a family of names that are easy to confuse (letter case, long common
//! prefixes and suffixes, one a prefix of the other, anagrams, leading zeros, composed and
//! decomposed accents) denotes two different variables, elements or saved expressions.
use crate::cx::{Cx, Res};
use bss::prelude::*;
use mss::prelude::{MddMgr, MddNode, MssMgr};
use std::collections::{BTreeSet, HashMap, HashSet};

/// pairs of different names, none of them an operator, a constant or a number
pub fn pairs() -> Vec<(String, String)> {
    let mut r: Vec<(String, String)> = [
        ("a", "A"),
        ("pump", "Pump"),
        ("pump", "PUMP"),
        ("é", "É"),
        ("é", "e\u{301}"),
        ("a", "aa"),
        ("a1", "a01"),
        ("a1", "a10"),
        ("a1", "a11"),
        ("x1", "x2"),
        ("ab", "ba"),
        ("ad", "bc"),
        ("abc", "acb"),
        ("a_", "a"),
        ("_a", "a"),
        ("a'", "a"),
        ("a.", "a"),
        ("a-b", "a_b"),
        ("a.b", "ab"),
        ("a:1", "a:2"),
        ("a[0]", "a[1]"),
        ("変数", "変"),
        ("Aa", "BB"),
    ]
    .iter()
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .collect();
    for n in [1usize, 2, 3, 4, 7, 8, 11, 12, 13, 15, 16, 23, 24, 31, 32, 63, 64, 127, 128, 255, 256, 1000] {
        let long: String = "component".chars().cycle().take(n).collect();
        r.push((format!("{}1", long), format!("{}2", long)));
        r.push((format!("p{}", long), format!("q{}", long)));
        r.push((format!("{}x{}", long, long), format!("{}y{}", long, long)));
        r.push((format!("p{}", long), format!("p{}z", long)));
    }
    r
}

pub fn each(cx: &mut Cx, what: &str, f: fn(&str, &str) -> Res) {
    let all = pairs();
    for ch in all.chunks(8) {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{}: {:?} and the next {} pairs", what, short(&ch[0].0), ch.len() - 1),
            |cx| {
                for (a, b) in ch {
                    for (a, b) in [(a, b), (b, a)] {
                        f(a, b).map_err(|e| format!("names {:?} and {:?}: {}", short(a), short(b), e))?;
                    }
                }
                cx.states(2 * ch.len() as u64);
                cx.trans(2 * ch.len() as u64);
                Ok(())
            },
        );
    }
}
fn short(a: &str) -> String {
    if a.len() < 60 {
        return a.into();
    }
    let c: Vec<char> = a.chars().collect();
    let s = |r: &[char]| r.iter().collect::<String>();
    format!("{}…{} ({} characters)", s(&c[..12]), s(&c[c.len() - 12..]), c.len())
}
fn set(v: &[&str]) -> BTreeSet<String> {
    v.iter().map(|s| s.to_string()).collect()
}
fn fam<I: Iterator<Item = Vec<String>>>(it: I) -> BTreeSet<BTreeSet<String>> {
    it.map(|s| s.into_iter().collect()).collect()
}
fn map(v: &[(&str, usize)]) -> HashMap<String, usize> {
    v.iter().map(|(s, n)| (s.to_string(), *n)).collect()
}

pub fn rpn_bss(cx: &mut Cx) {
    each(cx, "expressions", |a, b| {
        let mut m = BddMgr::new();
        let h = m.rpn(&format!("{} {} & {} ~ |", a, b, a))?;
        ensure!(m.get_varorder() == vec![a.to_string(), b.to_string()], "order {:?}", m.get_varorder());
        let (x, y) = (m.defvar(a), m.defvar(b));
        ensure!(h.eq(&y.or(&x.not())), "as variables");
        let mut m = BddMgr::new();
        let (x, y) = (m.defvar("x"), m.defvar("y"));
        let h = m.rpn(&format!("x save({}) y save({}) & load({}) load({}) ~ & ^", a, b, a, b))?;
        ensure!(h.eq(&x.and(&y).xor(&x.and(&y.not()))), "as saved names");
        ensure!(m.rpn(&format!("x save({}) load({}) &", a, b)).is_err(), "a name that was not saved is read");
        // a variable and a saved expression of the same or a similar name
        let mut m = BddMgr::new();
        let h = m.rpn(&format!("{} {} & save({}) {} ^ load({}) ^", a, b, a, a, a))?;
        let x = m.defvar(a);
        ensure!(h.eq(&x), "a saved name hides the variable");
        Ok(())
    });
}
pub fn rpn_mss(cx: &mut Cx) {
    each(cx, "expressions", |a, b| {
        let mut m = MddMgr::<i64>::new();
        let rg = map(&[(a, 3), (b, 4), ("x", 3), ("y", 4)]);
        let h = m.rpn(&format!("{} {} * {} +", a, b, a), &rg)?;
        ensure!(m.get_varorder() == vec![(a.to_string(), 3), (b.to_string(), 4)], "variables {:?}", m.get_varorder());
        let (x, y) = (m.defvar(a, 3), m.defvar(b, 4));
        ensure!(h.get_node() == x.mul(&y).add(&x).get_node(), "as variables");
        let mut m = MddMgr::<i64>::new();
        let (x, y) = (m.defvar("x", 3), m.defvar("y", 4));
        let h = m.rpn(&format!("x save({}) y save({}) + load({}) load({}) 2 * + *", a, b, a, b), &rg)?;
        ensure!(h.get_node() == x.add(&y).mul(&x.add(&y.mul(&m.value(2)))).get_node(), "as saved names");
        ensure!(m.rpn(&format!("x save({}) load({}) +", a, b), &rg).is_err(), "a name that was not saved is read");
        let mut m = MddMgr::<i64>::new();
        let h = m.rpn(&format!("{} {} * save({}) {} + load({}) -", a, b, a, a, a), &rg)?;
        let x = m.defvar(a, 3);
        ensure!(h.get_node() == x.get_node(), "a saved name hides the variable");
        Ok(())
    });
}
pub fn define(cx: &mut Cx) {
    each(cx, "variables and elements", |a, b| {
        let mut m = BddMgr::new();
        let (x, y) = (m.defvar(a), m.defvar(b));
        ensure!(!x.eq(&y) && m.defvar(a).eq(&x) && m.defvar(b).eq(&y), "binary variables");
        ensure!(m.get_varorder() == vec![a.to_string(), b.to_string()], "binary order {:?}", m.get_varorder());
        ensure!(x.get_label().as_deref() == Some(a) && y.get_label().as_deref() == Some(b), "binary labels");
        ensure!(x.get_level() == Some(0) && y.get_level() == Some(1), "binary levels");
        let mut m = BssMgr::new();
        let (x, y) = (m.defvar(a), m.defvar(b));
        ensure!(!x.eq(&y) && m.defvar(a).eq(&x), "variables of the binary system manager");
        ensure!(m.get_varorder() == vec![a.to_string(), b.to_string()], "binary order {:?}", m.get_varorder());

        let mut z = ZddMgr::new();
        let (x, y) = (z.singleton(a), z.singleton(b));
        ensure!(!x.eq(&y) && z.singleton(a).eq(&x) && z.singleton(b).eq(&y), "elements");
        ensure!(x.get_label().as_deref() == Some(a) && y.get_label().as_deref() == Some(b), "element labels");
        ensure!(x.get_level() == Some(0) && y.get_level() == Some(1), "element levels");

        let mut m = MddMgr::<i64>::new();
        let (x, y) = (m.defvar(a, 3), m.defvar(b, 4));
        ensure!(x.get_node() != y.get_node() && m.defvar(a, 3).get_node() == x.get_node() && m.defvar(b, 4).get_node() == y.get_node(), "multi-state variables");
        ensure!(m.get_varorder() == vec![(a.to_string(), 3), (b.to_string(), 4)], "multi-state order {:?}", m.get_varorder());
        ensure!(x.get_label().as_deref() == Some(a) && y.get_label().as_deref() == Some(b), "multi-state labels");
        ensure!(x.get_level() == Some(0) && y.get_level() == Some(1), "multi-state levels");
        let mut m = MssMgr::<i64>::new();
        let (x, y) = (m.defvar(a, 3), m.defvar(b, 4));
        ensure!(x.get_node() != y.get_node() && m.defvar(a, 3).get_node() == x.get_node(), "variables of the multi-state system manager");
        ensure!(m.get_varorder() == vec![(a.to_string(), 3), (b.to_string(), 4)], "multi-state order {:?}", m.get_varorder());
        Ok(())
    });
}
pub fn sets(cx: &mut Cx) {
    each(cx, "families", |a, b| {
        let mut z = ZddMgr::new();
        let (x, y) = (z.singleton(a), z.singleton(b));
        let v = |l: &[&str]| l.iter().map(|s| s.to_string()).collect::<Vec<String>>();
        for (want, h) in [
            (vec![set(&[a]), set(&[b])], x.union(&y)),
            (vec![set(&[a, b])], x.product(&y)),
            (vec![], x.intersect(&y)),
            (vec![set(&[a])], x.setdiff(&y)),
            (vec![set(&[b])], x.product(&y).divide(&x)),
            (vec![set(&[a]), set(&[b])], z.from_sets(&[v(&[a]), v(&[b])])),
            (vec![set(&[]), set(&[a, b])], z.from_sets(&[v(&[]), v(&[b, a])])),
        ] {
            let got = fam(h.extract(&[true]));
            ensure!(got == want.iter().cloned().collect(), "family {:?} instead of {:?}", got, want);
        }
        ensure!(z.from_sets(&[v(&[a, b])]).eq(&x.product(&y)), "from_sets and product differ");
        Ok(())
    });
}
pub fn extract_bss(cx: &mut Cx) {
    each(cx, "extracted paths and sets", |a, b| {
        let mut m = BddMgr::new();
        let (x, y) = (m.defvar(a), m.defvar(b));
        let got = fam(x.and(&y.not()).bdd_extract(&[true]));
        ensure!(got == [set(&[a, &format!("~{}", b)])].into_iter().collect(), "paths {:?}", got);
        ensure!(x.xor(&y).bdd_count(&[true]) == 2, "count");
        let mut z = ZddMgr::new();
        let h = z.from_sets(&[vec![a.to_string()], vec![a.to_string(), b.to_string()]]);
        ensure!(h.count(&[true]) == 2, "count of sets");
        let got = fam(h.extract(&[true]));
        ensure!(got == [set(&[a]), set(&[a, b])].into_iter().collect(), "sets {:?}", got);
        Ok(())
    });
}
pub fn prob_bss(cx: &mut Cx) {
    each(cx, "probabilities by name", |a, b| {
        let mut m = BddMgr::new();
        let (x, y) = (m.defvar(a), m.defvar(b));
        let pv: HashMap<String, f64> = [(a.to_string(), 0.5), (b.to_string(), 0.25)].into_iter().collect();
        let h = x.and(&y);
        ensure!(x.prob(&pv, &[true]) == 0.5 && y.prob(&pv, &[true]) == 0.25 && h.prob(&pv, &[true]) == 0.125, "probabilities");
        let g = h.bmeas(&pv, &[true]);
        ensure!(g.len() == 2 && g.get(a) == Some(&0.25) && g.get(b) == Some(&0.5), "importances {:?}", g);
        let only: HashMap<String, f64> = [(a.to_string(), 0.5)].into_iter().collect();
        ensure!(y.prob(&only, &[true]) == 0.0 && x.prob(&only, &[true]) == 0.5, "a probability is taken from another name");
        Ok(())
    });
}
pub fn prob_mss(cx: &mut Cx) {
    each(cx, "probabilities by name", |a, b| {
        let mut m = MddMgr::<i64>::new();
        let (x, y) = (m.defvar(a, 2), m.defvar(b, 3));
        let pv: HashMap<String, Vec<f64>> = [(a.to_string(), vec![0.25, 0.75]), (b.to_string(), vec![0.5, 0.125, 0.375])].into_iter().collect();
        let mut h: MddNode<i64> = x.add(&y);
        for (v, want) in [(0, 0.125), (1, 0.03125 + 0.375), (2, 0.09375 + 0.09375), (3, 0.28125)] {
            let p = h.prob(&pv, &[v]);
            ensure!(p == want, "probability of {} is {} instead of {}", v, p, want);
        }
        let g = h.bmeas(&pv, &[3]);
        ensure!(g.len() == 2 && g.get(a) == Some(&vec![0.375]) && g.get(b) == Some(&vec![0.0, 0.75]), "importances {:?}", g);
        Ok(())
    });
}
pub fn minimal_bss(cx: &mut Cx) {
    each(cx, "minimal vectors", |a, b| {
        let mut m = BssMgr::new();
        let (x, y) = (m.defvar(a), m.defvar(b));
        let f = |h: Option<ZddNode>| h.map(|h| fam(h.extract(&[true])));
        let one: BTreeSet<BTreeSet<String>> = [set(&[a, b])].into_iter().collect();
        let two: BTreeSet<BTreeSet<String>> = [set(&[a]), set(&[b])].into_iter().collect();
        ensure!(f(m.minpath(&x.and(&y))) == Some(one.clone()) && f(m.minpath(&x.or(&y))) == Some(two.clone()), "path vectors");
        ensure!(f(m.mincut(&x.and(&y))) == Some(two) && f(m.mincut(&x.or(&y))) == Some(one), "cut vectors");
        Ok(())
    });
}
pub fn minimal_mss(cx: &mut Cx) {
    each(cx, "minimal vectors", |a, b| {
        let mut m = MssMgr::<i64>::new();
        let (x, y) = (m.defvar(a, 2), m.defvar(b, 3));
        let h = x.add(&y);
        let p = m.minpath(&h).ok_or("no path family")?;
        ensure!(p.vars() == [(a.to_string(), 2), (b.to_string(), 3)], "variables {:?}", p.vars());
        let get = |n: &mss::prelude::ZmddNode<i64>, v: i64| -> Vec<Vec<(String, usize)>> {
            let mut r: Vec<Vec<(String, usize)>> = n
                .extract(&HashSet::from([v]))
                .map(|s| {
                    let mut e: Vec<(String, usize)> = s.into_iter().collect();
                    e.sort();
                    e
                })
                .collect();
            r.sort();
            r
        };
        let want = |l: &[(usize, usize)]| {
            let mut r: Vec<Vec<(String, usize)>> = l
                .iter()
                .map(|(i, j)| {
                    let mut e = vec![(a.to_string(), *i), (b.to_string(), *j)];
                    e.sort();
                    e
                })
                .collect();
            r.sort();
            r
        };
        let full = [want(&[(0, 0)]), want(&[(0, 1), (1, 0)]), want(&[(0, 2), (1, 1)]), want(&[(1, 2)])];
        let c = m.mincut(&h).ok_or("no cut family")?;
        for v in 0..4i64 {
            let strip = |r: Vec<Vec<(String, usize)>>| -> Vec<Vec<(String, usize)>> { r };
            ensure!(strip(get(&p, v)) == full[v as usize], "path vectors of {}: {:?}", v, get(&p, v));
            ensure!(strip(get(&c, v)) == full[v as usize], "cut vectors of {}: {:?}", v, get(&c, v));
        }
        Ok(())
    });
}
pub fn extract_mss(cx: &mut Cx) {
    each(cx, "extracted assignments", |a, b| {
        let mut m = MddMgr::<i64>::new();
        let (x, y) = (m.defvar(a, 2), m.defvar(b, 3));
        let got: Vec<HashMap<String, usize>> = x.add(&y).mdd_extract(&HashSet::from([3])).collect();
        ensure!(got == vec![map(&[(a, 1), (b, 2)])], "assignments {:?}", got);
        ensure!(x.add(&y).mdd_count(&HashSet::from([1])) == 2, "count");
        Ok(())
    });
}
