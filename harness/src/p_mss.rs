//! C12 n-ary operations (multi-state part), C14 RPN, C15 probability/importance, C16 minimal
//! vectors, C17 counting/extraction, C18 families.
use crate::core::*;
use crate::cx::{at, Cx, Res};
use crate::eng::*;
use crate::p_bss::Poly;
use crate::p_gc::{mss_build, mss_table};
use crate::p_mdd::{bfuns, ufuns, vfuns};
use crate::refm::*;
use mss::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::ops::{Add, Mul, Sub};

type M = MddMgr<i64>;
type H = MddNode<i64>;

fn mk(sizes: &[usize]) -> (M, Vec<H>) {
    let mut m = M::new();
    let x = sizes.iter().enumerate().map(|(v, &s)| m.defvar(&nm(v), s)).collect();
    (m, x)
}
fn mks(sizes: &[usize]) -> (MssMgr<i64>, Vec<H>) {
    let mut m = MssMgr::new();
    let x = sizes.iter().enumerate().map(|(v, &s)| m.defvar(&nm(v), s)).collect();
    (m, x)
}
/// All subsets of `vals`.
fn subsets(vals: &[i64]) -> Vec<Vec<i64>> {
    (0..1usize << vals.len())
        .map(|b| (0..vals.len()).filter(|i| b >> i & 1 == 1).map(|i| vals[i]).collect())
        .collect()
}
/// Chunked cases over a list of functions: one manager per chunk.
fn chunks(n: usize, c: usize) -> Vec<(usize, usize)> {
    (0..n).step_by(c).map(|a| (a, (a + c).min(n))).collect()
}

// ------------------------------------------------------------------ C12

fn fold_ref(sizes: &[usize], op: &str, l: &[&Fun]) -> Fun {
    let n: usize = sizes.iter().product();
    let t = (0..n)
        .map(|p| {
            let v: Vec<i64> = l.iter().map(|f| f.t[p]).collect();
            match op {
                "and" => v.iter().all(|&x| x == 1) as i64,
                "or" => v.iter().any(|&x| x == 1) as i64,
                _ if v.contains(&U) => U,
                "min" => *v.iter().min().unwrap(),
                _ => *v.iter().max().unwrap(),
            }
        })
        .collect();
    Fun { k: if op == "and" || op == "or" { BOOL } else { VALUE }, t }
}
fn call_m(m: &M, op: &str, l: &[H]) -> H {
    match op {
        "and" => m.and(l),
        "or" => m.or(l),
        "min" => m.min(l),
        _ => m.max(l),
    }
}
fn call_s(m: &MssMgr<i64>, op: &str, l: &[H]) -> H {
    match op {
        "and" => m.and(l),
        "or" => m.or(l),
        "min" => m.min(l),
        _ => m.max(l),
    }
}

pub fn c12(cx: &mut Cx) {
    crate::p_bss::c12_bss(cx);
    cx.section("multi-state and, or, min, max over all lists of up to 3 functions");
    for (sizes, funs, ops) in [
        (vec![2usize, 2], bfuns(&[2, 2]), ["and", "or"]),
        (vec![3], bfuns(&[3]), ["and", "or"]),
        (vec![2], vfuns(&[2], &[0, 1, 2]), ["min", "max"]),
        (vec![3], vfuns(&[3], &[0, 1, 2]), ["min", "max"]),
        (vec![2, 2], vfuns(&[2, 2], &[0, 1]), ["min", "max"]),
        (vec![2], vfuns(&[2], &[-1, 0, 5, U]), ["min", "max"]),
    ] {
        for op in ops {
            for i in 0..funs.len() {
                if !cx.mine() {
                    continue;
                }
                let (sizes, funs) = (&sizes, &funs);
                cx.case(
                    || format!("{} of all lists of up to 3 starting with {} over {:?}", op, funs[i].show(), sizes),
                    |cx| {
                        let (m, x) = mk(sizes);
                        let (s, y) = mks(sizes);
                        let hm: Vec<H> = funs.iter().map(|f| mss_build(&m, &x, f, sizes)).collect();
                        let hs: Vec<H> = funs.iter().map(|f| mss_build(s.mdd(), &y, f, sizes)).collect();
                        let mut n = 0;
                        let mut one = |l: &[usize]| -> Res {
                            at(&l.iter().map(|x| *x as u64).collect::<Vec<_>>());
                            let fr: Vec<&Fun> = l.iter().map(|&i| &funs[i]).collect();
                            let e = fold_ref(sizes, op, &fr);
                            let a: Vec<H> = l.iter().map(|&i| hm[i].clone()).collect();
                            let r = call_m(&m, op, &a);
                            let t = mss_table(&r, sizes)?;
                            ensure!(t == e, "{} of {:?} is {} instead of {}", op, l, t.show(), e.show());
                            ensure!(r.get_node() == mss_build(&m, &x, &e, sizes).get_node(), "{} of {:?} is not the canonical node", op, l);
                            let a: Vec<H> = l.iter().map(|&i| hs[i].clone()).collect();
                            let t = mss_table(&call_s(&s, op, &a), sizes)?;
                            ensure!(t == e, "system manager: {} of {:?} is {} instead of {}", op, l, t.show(), e.show());
                            n += 1;
                            Ok(())
                        };
                        if i == 0 && (op == "and" || op == "or") {
                            one(&[])?;
                        }
                        one(&[i])?;
                        for j in 0..funs.len() {
                            one(&[i, j])?;
                            for k in 0..funs.len() {
                                one(&[i, j, k])?;
                            }
                        }
                        cx.states(1);
                        cx.trans(2 * n);
                        Ok(())
                    },
                );
            }
        }
    }
    cx.section("multi-state lists of 4 and longer lists");
    for op in ["and", "or", "min", "max"] {
        let boolean = op == "and" || op == "or";
        let sizes = [2usize, 3];
        let d = Dom::new(&sizes);
        let pool: Vec<Fun> = if boolean {
            vec![
                Fun::b(d.var(0)),
                Fun::b(d.var(1).iter().map(|x| (*x == 2) as i64).collect()),
                Fun::b(d.var(1).iter().map(|x| (*x >= 1) as i64).collect()),
                Fun::b(d.konst(1)),
                Fun::b(d.konst(0)),
                Fun::b(vec![1, 0, 0, 1, 1, 1]),
            ]
        } else {
            vec![
                Fun::v(d.var(0)),
                Fun::v(d.var(1)),
                Fun::v(d.konst(1)),
                Fun::v(vec![2, 0, 0, 1, 1, 2]),
                Fun::v(vec![0, 2, 1, 0, 2, 1]),
                Fun::v(d.konst(-1)),
            ]
        };
        for a in 0..pool.len() {
            if !cx.mine() {
                continue;
            }
            let pool = &pool;
            cx.case(
                || format!("{} of all lists of 4 to 5 starting with {}", op, pool[a].show()),
                |cx| {
                    let (m, x) = mk(&sizes);
                    let h: Vec<H> = pool.iter().map(|f| mss_build(&m, &x, f, &sizes)).collect();
                    for len in [3u32, 4] {
                        for c in 0..pool.len().pow(len) {
                            let mut l = vec![a];
                            let mut c = c;
                            for _ in 0..len {
                                l.push(c % pool.len());
                                c /= pool.len();
                            }
                            let fr: Vec<&Fun> = l.iter().map(|&i| &pool[i]).collect();
                            let e = fold_ref(&sizes, op, &fr);
                            let r = call_m(&m, op, &l.iter().map(|&i| h[i].clone()).collect::<Vec<_>>());
                            let t = mss_table(&r, &sizes)?;
                            ensure!(t == e, "{} of {:?} is {} instead of {}", op, l, t.show(), e.show());
                        }
                    }
                    cx.states(1);
                    cx.trans((6u64).pow(3) + 6u64.pow(4));
                    Ok(())
                },
            );
        }
    }
}

// ------------------------------------------------------------------ C14

const RN: [&str; 2] = ["x", "y"];
const RS: [usize; 2] = [2, 3];

#[derive(Clone)]
struct Rpn {
    vars: Vec<String>,
    stack: Vec<Fun>,
    saved: BTreeMap<String, Fun>,
}
#[derive(PartialEq, Clone, Copy)]
enum Step {
    Ok,
    Error,
    /// ill-typed or outside the specified operations: not explored
    Skip,
}

impl Rpn {
    fn new() -> Rpn {
        Rpn { vars: vec![], stack: vec![], saved: BTreeMap::new() }
    }
    fn step(&mut self, t: &str) -> Step {
        let d = Dom::new(&RS);
        let op = match t {
            "+" => Some(Op::Add),
            "-" => Some(Op::Sub),
            "*" => Some(Op::Mul),
            "/" => Some(Op::Div),
            "min" => Some(Op::Min),
            "max" => Some(Op::Max),
            "==" => Some(Op::Eq),
            "!=" => Some(Op::Neq),
            "<" => Some(Op::Lt),
            "<=" => Some(Op::Lte),
            ">" => Some(Op::Gt),
            ">=" => Some(Op::Gte),
            "&&" => Some(Op::And),
            "||" => Some(Op::Or),
            "!" => Some(Op::Not),
            "?" => Some(Op::Ite),
            _ => None,
        };
        if let Some(op) = op {
            let n = op.arity();
            if self.stack.len() < n {
                return Step::Error;
            }
            let a: Vec<Fun> = self.stack.split_off(self.stack.len() - n);
            let ks: Vec<u8> = a.iter().map(|f| f.k).collect();
            let und: Vec<bool> = a.iter().map(|f| f.t.contains(&U)).collect();
            let ok = match op {
                Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Min | Op::Max => ks == [VALUE, VALUE],
                Op::Lt | Op::Lte | Op::Gt | Op::Gte => ks == [VALUE, VALUE] && !und[0] && !und[1],
                Op::Eq | Op::Neq => ks[0] == ks[1] && !und[0] && !und[1],
                Op::And | Op::Or => ks == [BOOL, BOOL] && !und[0] && !und[1],
                Op::Not => ks == [BOOL] && !und[0],
                _ => ks[0] == BOOL && ks[1] == ks[2] && !und[0],
            };
            if !ok {
                return Step::Skip;
            }
            let r = refop(op, &a.iter().collect::<Vec<_>>());
            self.stack.push(r);
            return Step::Ok;
        }
        if t == "True" || t == "False" {
            self.stack.push(Fun::b(d.konst((t == "True") as i64)));
        } else if let Some(n) = t.strip_prefix("save(").and_then(|x| x.strip_suffix(')')) {
            match self.stack.last() {
                None => return Step::Error,
                Some(f) => {
                    self.saved.insert(n.to_string(), f.clone());
                }
            }
        } else if let Some(n) = t.strip_prefix("load(").and_then(|x| x.strip_suffix(')')) {
            match self.saved.get(n) {
                None => return Step::Error,
                Some(f) => self.stack.push(f.clone()),
            }
        } else if let Ok(v) = t.parse::<i64>() {
            self.stack.push(Fun::v(d.konst(v)));
        } else {
            let i = RN.iter().position(|v| *v == t).unwrap();
            if !self.vars.iter().any(|v| v == t) {
                self.vars.push(t.to_string());
            }
            self.stack.push(Fun::v(d.var(i)));
        }
        Step::Ok
    }
}

/// Table of a handle over the named variables, whatever their levels are.
fn table_named(h: &H, names: &[&str], sizes: &[usize]) -> Result<Fun, String> {
    let d = Dom::new(sizes);
    let mut t = vec![];
    for p in 0..d.points() {
        let dg = d.digits(p);
        let mut x = h.clone();
        loop {
            match x.get_children() {
                None => {
                    t.push(if x.is_undet() {
                        U
                    } else if x.is_boolean() {
                        x.is_one() as i64
                    } else {
                        x.value().ok_or("terminal without a value")?
                    });
                    break;
                }
                Some(ch) => {
                    let l = x.get_label().ok_or("node without a label")?;
                    let i = names.iter().position(|n| *n == l).ok_or_else(|| format!("variable {}", l))?;
                    ensure!(ch.len() == sizes[i], "{} has {} states", l, ch.len());
                    x = ch[dg[i]].clone();
                }
            }
        }
    }
    Ok(Fun { k: if h.is_boolean() { BOOL } else { VALUE }, t })
}

trait RpnMgr {
    fn new() -> Self;
    fn run(&mut self, s: &str, r: &HashMap<String, usize>) -> Result<H, String>;
    fn order(&self) -> Vec<(String, usize)>;
}
impl RpnMgr for M {
    fn new() -> Self {
        MddMgr::new()
    }
    fn run(&mut self, s: &str, r: &HashMap<String, usize>) -> Result<H, String> {
        self.rpn(s, r)
    }
    fn order(&self) -> Vec<(String, usize)> {
        self.get_varorder()
    }
}
impl RpnMgr for MssMgr<i64> {
    fn new() -> Self {
        MssMgr::new()
    }
    fn run(&mut self, s: &str, r: &HashMap<String, usize>) -> Result<H, String> {
        self.rpn(s, r)
    }
    fn order(&self) -> Vec<(String, usize)> {
        self.get_varorder()
    }
}

fn ranges() -> HashMap<String, usize> {
    RN.iter().zip(RS).map(|(n, s)| (n.to_string(), s)).collect()
}

/// `ids`: nodes of functions met so far on this manager (canonicity).
fn rpn_check<R: RpnMgr>(m: &mut R, rg: &HashMap<String, usize>, s: &str, ok: Option<&Rpn>, ids: &mut FxMap<Fun, H>) -> Res {
    let before = m.order();
    match (m.run(s, rg), ok) {
        (Err(_), None) => Ok(()),
        (Ok(h), None) => Err(format!("\"{}\" is malformed but gives {}", s, table_named(&h, &RN, &RS)?.show())),
        (Err(e), Some(_)) => Err(format!("\"{}\" is well formed but gives error {}", s, e)),
        (Ok(h), Some(st)) => {
            let e = &st.stack[0];
            match ids.get(e) {
                Some(o) if o.get_node() == h.get_node() => {}
                o => {
                    let t = table_named(&h, &RN, &RS)?;
                    ensure!(t == *e, "\"{}\" denotes {} instead of {}", s, t.show(), e.show());
                    ensure!(o.is_none(), "\"{}\" denotes {} by a second node", s, t.show());
                    ids.insert(e.clone(), h);
                }
            }
            let mut w = before;
            for v in &st.vars {
                if !w.iter().any(|x| x.0 == *v) {
                    w.push((v.clone(), rg[v]));
                }
            }
            ensure!(m.order() == w, "after \"{}\" the variables are {:?} instead of {:?}", s, m.order(), w);
            Ok(())
        }
    }
}

fn rpn_dfs(toks: &[&str], pre: &mut Vec<usize>, st: &Rpn, depth: usize, f: &mut dyn FnMut(&str, Option<&Rpn>) -> Res) -> Res {
    let s = pre.iter().map(|&i| toks[i]).collect::<Vec<_>>().join(" ");
    f(&s, if st.stack.len() == 1 { Some(st) } else { None })?;
    if pre.len() == depth {
        return Ok(());
    }
    for i in 0..toks.len() {
        let mut n = st.clone();
        pre.push(i);
        match n.step(toks[i]) {
            Step::Ok => rpn_dfs(toks, pre, &n, depth, f)?,
            Step::Error => {
                let s = pre.iter().map(|&i| toks[i]).collect::<Vec<_>>().join(" ");
                f(&s, None)?;
                f(&format!("{} x", s), None)?;
            }
            Step::Skip => {}
        }
        pre.pop();
    }
    Ok(())
}

fn rpn_sweep<R: RpnMgr>(cx: &mut Cx, toks: &[&str], depth: usize, fresh: bool) {
    let rg = ranges();
    for a in 0..toks.len() {
        for b in 0..toks.len() {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("all strings of up to {} of {} tokens starting \"{} {}\" fresh={}", depth, toks.len(), toks[a], toks[b], fresh),
                |cx| {
                    let mut shared = R::new();
                    let mut ids = FxMap::default();
                    let mut n = 0u64;
                    let mut f = |s: &str, r: Option<&Rpn>| -> Res {
                        n += 1;
                        if fresh {
                            return rpn_check(&mut R::new(), &rg, s, r, &mut FxMap::default());
                        }
                        rpn_check(&mut shared, &rg, s, r, &mut ids)
                    };
                    if a == 0 && b == 0 {
                        f("", None)?;
                    }
                    let mut st = Rpn::new();
                    let s1 = st.step(toks[a]);
                    if b == 0 && s1 != Step::Skip {
                        f(toks[a], if s1 == Step::Ok && st.stack.len() == 1 { Some(&st) } else { None })?;
                    }
                    if s1 == Step::Error {
                        f(&format!("{} {}", toks[a], toks[b]), None)?;
                    } else if s1 == Step::Ok {
                        match st.step(toks[b]) {
                            Step::Ok => rpn_dfs(toks, &mut vec![a, b], &st, depth, &mut f)?,
                            Step::Error => {
                                f(&format!("{} {}", toks[a], toks[b]), None)?;
                                f(&format!("{} {} x", toks[a], toks[b]), None)?;
                            }
                            Step::Skip => {}
                        }
                    }
                    cx.states(n);
                    cx.trans(n);
                    cx.traces(n);
                    Ok(())
                },
            );
        }
    }
}

pub fn c14(cx: &mut Cx) {
    let all = [
        "x", "y", "0", "1", "2", "-1", "+", "-", "*", "/", "min", "max", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "!", "?", "True", "False",
        "save(a)", "load(a)",
    ];
    let th = cx.thorough;
    cx.section("all token strings, one manager");
    rpn_sweep::<M>(cx, &all, if th { 6 } else { 5 }, false);
    cx.section("all token strings, a fresh manager each");
    rpn_sweep::<M>(cx, &all, if th { 5 } else { 4 }, true);
    cx.section("all token strings, system manager");
    rpn_sweep::<MssMgr<i64>>(cx, &all, if th { 5 } else { 4 }, false);
    cx.section("logic and conditionals");
    rpn_sweep::<M>(cx, &["x", "y", "1", "==", "<", "&&", "||", "!", "?", "True"], if th { 8 } else { 7 }, false);
    cx.section("arithmetic and saved names");
    rpn_sweep::<M>(cx, &["x", "y", "2", "+", "-", "/", "min", "save(a)", "load(a)", "load(b)"], if th { 7 } else { 6 }, false);
    cx.section("two saved names");
    rpn_sweep::<M>(cx, &["x", "y", "-", "max", "save(a)", "load(a)", "save(b)", "load(b)"], if th { 8 } else { 7 }, false);

    cx.section("sequences of two expressions on one manager");
    let toks = ["x", "y", "-", "<", "1", "save(a)", "load(a)", "!"];
    let mut short: Vec<(String, Option<Rpn>)> = vec![];
    rpn_dfs(&toks, &mut vec![], &Rpn::new(), 4, &mut |s, r| {
        short.push((s.to_string(), r.cloned()));
        Ok(())
    })
    .unwrap();
    let mut second: Vec<(String, Option<Rpn>)> = vec![];
    rpn_dfs(&toks, &mut vec![], &Rpn::new(), if th { 4 } else { 3 }, &mut |s, r| {
        second.push((s.to_string(), r.cloned()));
        Ok(())
    })
    .unwrap();
    for (s1, r1) in &short {
        if !cx.mine() {
            continue;
        }
        let short = &second;
        cx.case(
            || format!("\"{}\" followed by every string of up to {} tokens", s1, if th { 4 } else { 3 }),
            |cx| {
                let rg = ranges();
                // later calls give other ranges: known names keep theirs
                let rg2: HashMap<String, usize> = rg.iter().map(|(k, v)| (k.clone(), v + 2)).collect();
                for (s2, r2) in short {
                    let mut m = M::new();
                    let mut ids = FxMap::default();
                    rpn_check(&mut m, &rg, s1, r1.as_ref(), &mut ids)?;
                    let known = m.get_varorder();
                    let mut rg3 = rg.clone();
                    for (k, _) in &known {
                        rg3.insert(k.clone(), rg2[k]);
                    }
                    rpn_check(&mut m, &rg3, s2, r2.as_ref(), &mut ids).map_err(|e| format!("second expression: {}", e))?;
                }
                cx.states(short.len() as u64);
                cx.trans(2 * short.len() as u64);
                cx.traces(short.len() as u64);
                Ok(())
            },
        );
    }
    cx.section("ranges");
    for r in 2..=6usize {
        for q in 2..=6usize {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("ranges {} and {} on every binary token", r, q),
                |cx| {
                    let rg: HashMap<String, usize> = [("x".to_string(), r), ("y".to_string(), q), ("unused".to_string(), 9)].into_iter().collect();
                    let d = Dom::new(&[r, q]);
                    for (t, op) in [
                        ("+", Op::Add), ("-", Op::Sub), ("*", Op::Mul), ("/", Op::Div), ("min", Op::Min), ("max", Op::Max), ("==", Op::Eq),
                        ("!=", Op::Neq), ("<", Op::Lt), ("<=", Op::Lte), (">", Op::Gt), (">=", Op::Gte),
                    ] {
                        for rev in [false, true] {
                            let mut m = M::new();
                            let h = m.rpn(&if rev { format!("y x {}", t) } else { format!("x y {}", t) }, &rg)?;
                            let (a, b) = (Fun::v(d.var(0)), Fun::v(d.var(1)));
                            let e = if rev { refop(op, &[&b, &a]) } else { refop(op, &[&a, &b]) };
                            let g = table_named(&h, &RN, &[r, q])?;
                            ensure!(g == e, "{} rev={}: {} instead of {}", t, rev, g.show(), e.show());
                            let w = if rev { vec![("y".to_string(), q), ("x".to_string(), r)] } else { vec![("x".to_string(), r), ("y".to_string(), q)] };
                            ensure!(m.get_varorder() == w, "variables {:?}", m.get_varorder());
                        }
                    }
                    cx.states(1);
                    cx.trans(24);
                    Ok(())
                },
            );
        }
    }
    cx.section("integers, whitespace and unusual names");
    if cx.mine() {
        cx.case(
            || "integer literals".into(),
            |cx| {
                let mut m = M::new();
                for v in [0i64, 1, -1, 7, -7, 10, 99, 255, 256, 65535, 65536, 1_000_000, i32::MAX as i64, i32::MIN as i64] {
                    let h = m.rpn(&format!("{}", v), &HashMap::new())?;
                    ensure!(h.value() == Some(v), "{} reads as {:?}", v, h.value());
                    ensure!(h.get_node() == m.value(v).get_node(), "{} is not the constant", v);
                    let h = m.rpn(&format!("{} {} +", v, v), &HashMap::new())?;
                    ensure!(h.value() == Some(2 * v), "{} + {}", v, v);
                }
                for s in ["x y + 1 <", " x y + 1 < ", "x\ty\n+ 1\r\n<", "x  y   +  1  <"] {
                    let h = m.rpn(s, &ranges())?;
                    let d = Dom::new(&RS);
                    let e: Vec<i64> = d.var(0).iter().zip(d.var(1)).map(|(a, b)| (a + b < 1) as i64).collect();
                    ensure!(table_named(&h, &RN, &RS)? == Fun::b(e), "{:?}", s);
                }
                for s in ["", " ", "\n"] {
                    ensure!(m.rpn(s, &ranges()).is_err(), "{:?} is not an error", s);
                }
                cx.states(1);
                cx.trans(30);
                Ok(())
            },
        );
    }
    for a in ["X", "load(a", "save(a", "load(", "save(", "save)", "(a)", "Load(a)", "SAVE(a)", "x_1", "_", "true", "false", "Min", "and", "a.b", "変数", "save", "load", "x-y", "=", "&", "|", "1x", "+x"] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("variable and saved name {:?}", a),
            |cx| {
                let rg: HashMap<String, usize> = [(a.to_string(), 4), ("y".to_string(), 3)].into_iter().collect();
                let mut m = M::new();
                let h = m.rpn(&format!("{} y {} * + save({}) load({}) +", a, a, a, a), &rg)?;
                let d = Dom::new(&[4, 3]);
                let e: Vec<i64> = (0..12).map(|p| { let g = d.digits(p); 2 * (g[0] + g[1] * g[0]) as i64 }).collect();
                let t = table_named(&h, &[a, "y"], &[4, 3])?;
                ensure!(t == Fun::v(e), "denotes {}", t.show());
                ensure!(m.get_varorder() == vec![(a.to_string(), 4), ("y".to_string(), 3)], "variables {:?}", m.get_varorder());
                ensure!(m.rpn(&format!("y load({}) +", a), &rg).is_err(), "saved name leaks into the next expression");
                ensure!(m.rpn(&format!("y save({}) load({}q) +", a, a), &rg).is_err(), "load of another name");
                cx.states(1);
                cx.trans(4);
                Ok(())
            },
        );
    }
    cx.section("names that are easy to confuse");
    crate::p_names::rpn_mss(cx);
    cx.section("long expressions");
    long_rpn(cx);
    cx.section("new variables in the middle of expressions under eager collection");
    late_vars(cx);
    cx.section("expressions under automatic collection");
    for thr in 1..=14usize {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("expressions built and re-built at collection threshold {}", thr),
            |cx| {
                let mut m = M::new();
                m.set_gc_threshold(thr);
                let ex = [
                    "x y +", "x y + 2 >= x y * 1 ?", "x y max save(a) 1 - load(a) *", "x y == !", "x 1 == y 2 == ||", "y x / 1 min", "x y < x y > ||",
                    "y y * 2 /", "x", "x save(a) y + load(a) -",
                ];
                let mut kept: Vec<(Fun, H)> = vec![];
                for round in 0..4 {
                    for (i, e) in ex.iter().enumerate() {
                        let mut st = Rpn::new();
                        for t in e.split(' ') {
                            if st.step(t) != Step::Ok {
                                return Err(format!("reference cannot read {}", e));
                            }
                        }
                        let h = m.rpn(e, &ranges())?;
                        let t = table_named(&h, &RN, &RS)?;
                        ensure!(t == st.stack[0], "\"{}\" denotes {} in round {}", e, t.show(), round);
                        if (i + round) % 3 == 0 {
                            kept.push((t, h));
                        }
                        for (t, h) in &kept {
                            ensure!(table_named(h, &RN, &RS)? == *t, "kept handle changed in round {}", round);
                        }
                    }
                    if round % 2 == 1 {
                        kept.remove(0);
                    }
                }
                cx.states(ex.len() as u64);
                cx.trans(4 * ex.len() as u64);
                Ok(())
            },
        );
    }
}

/// Variables first met in the middle of an expression while the manager collects eagerly: the
/// operands waiting on the stack belong to nobody but the expression.
fn late_vars(cx: &mut Cx) {
    let sz = [2usize, 3, 3];
    let temps = [
        "A 2 o B p C q",
        "A 2 o B 5 p q C r",
        "A 2 o save(s) B p C q load(s) r",
        "A 1 > B 2 o C 3 p ?",
        "A 5 o 2 p B 3 q C 2 r o p",
        "A 2 o B 5 p < C 2 q A ?",
    ];
    let ops = ["+", "-", "*", "max"];
    for perm in perms(3) {
        for (ti, tm) in temps.iter().enumerate() {
            if !cx.mine() {
                continue;
            }
            let perm = &perm;
            cx.case(
                || format!("\"{}\" with variables {:?}, all operators, every collection trigger", tm, perm),
                |cx| {
                    let rg: HashMap<String, usize> = (0..3).map(|v| (nm(v), sz[v])).collect();
                    for code in 0..256usize {
                        let mut e = String::new();
                        for t in tm.split(' ') {
                            let w = match t {
                                "A" => nm(perm[0]),
                                "B" => nm(perm[1]),
                                "C" => nm(perm[2]),
                                "o" => ops[code % 4].to_string(),
                                "p" => ops[code / 4 % 4].to_string(),
                                "q" => ops[code / 16 % 4].to_string(),
                                "r" => ops[code / 64].to_string(),
                                t => t.to_string(),
                            };
                            if !e.is_empty() {
                                e.push(' ');
                            }
                            e += &w;
                        }
                        if !tm.contains('r') && code >= 64 || !tm.contains('q') && code >= 16 {
                            break;
                        }
                        let want: Vec<i64> = (0..18usize)
                            .map(|p| {
                                let x = [p % 2, p / 2 % 3, p / 6];
                                let mut st: Vec<i64> = vec![];
                                let mut saved = 0;
                                for t in e.split(' ') {
                                    let v = match t {
                                        "save(s)" => {
                                            saved = *st.last().unwrap();
                                            continue;
                                        }
                                        "load(s)" => saved,
                                        "?" => {
                                            let c = st.pop().unwrap();
                                            let b = st.pop().unwrap();
                                            if st.pop().unwrap() != 0 { b } else { c }
                                        }
                                        "+" | "-" | "*" | "max" | "<" | ">" => {
                                            let b = st.pop().unwrap();
                                            let a = st.pop().unwrap();
                                            match t {
                                                "+" => a + b,
                                                "-" => a - b,
                                                "*" => a * b,
                                                "max" => a.max(b),
                                                "<" => (a < b) as i64,
                                                _ => (a > b) as i64,
                                            }
                                        }
                                        t => t.parse().unwrap_or_else(|_| x[t[1..].parse::<usize>().unwrap()] as i64),
                                    };
                                    st.push(v);
                                }
                                st[0]
                            })
                            .collect();
                        let wf = Fun::v(want);
                        for thr in [1usize, 6, 9, 12, 14, 16, 18, 20, 24, 30] {
                            at(&[ti as u64, code as u64, thr as u64]);
                            let mut m = M::new();
                            m.set_gc_threshold(thr);
                            let h = m.rpn(&e, &rg)?;
                            let names: Vec<String> = (0..3).map(nm).collect();
                            let t = table_named(&h, &names.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &sz)?;
                            ensure!(t == wf, "\"{}\" at trigger {} denotes {} instead of {}", e, thr, t.show(), wf.show());
                            cx.trans(1);
                        }
                        cx.states(1);
                    }
                    cx.traces(1);
                    Ok(())
                },
            );
        }
    }
}

// ------------------------------------------------------------------ C15

fn val_in(f: &Fun, p: usize, ss: &[i64]) -> bool {
    f.t[p] != U && ss.contains(&f.t[p])
}
fn ref_prob<T>(d: &Dom, f: &Fun, pr: &[Vec<T>], ss: &[i64], force: Option<(usize, usize)>) -> T
where
    T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy + From<f64>,
{
    let mut s = T::from(0.0);
    for p in 0..d.points() {
        let g = d.digits(p);
        if let Some((v, j)) = force {
            if g[v] != j {
                continue;
            }
        }
        if val_in(f, p, ss) {
            let mut w = T::from(1.0);
            for v in 0..d.n() {
                if force.map(|x| x.0) != Some(v) {
                    w = w * pr[v][g[v]];
                }
            }
            s = s + w;
        }
    }
    s
}

fn check_prob<T>(h: &mut H, d: &Dom, f: &Fun, pr: &[Vec<T>], ss: &[i64]) -> Res
where
    T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy + Clone + PartialEq + From<f64> + std::fmt::Debug,
{
    let pv: HashMap<String, Vec<T>> = pr.iter().enumerate().map(|(v, p)| (nm(v), p.clone())).collect();
    let e = ref_prob(d, f, pr, ss, None);
    let g = h.prob(&pv, ss);
    ensure!(g == e, "prob of {:?} in {} at {:?} is {:?} instead of {:?}", ss, f.show(), pr, g, e);
    let b = h.bmeas(&pv, ss);
    for v in 0..d.n() {
        match b.get(&nm(v)) {
            None => ensure!(!d.depends(&f.t, v), "bmeas of {} has no entry for {}", f.show(), nm(v)),
            Some(x) => {
                ensure!(x.len() + 1 == d.sizes[v], "bmeas of {} has {} entries for {}", f.show(), x.len(), nm(v));
                let c: Vec<T> = (0..d.sizes[v]).map(|j| ref_prob(d, f, pr, ss, Some((v, j)))).collect();
                for j in 1..d.sizes[v] {
                    let e = c[j] - c[j - 1];
                    ensure!(x[j - 1] == e, "bmeas {:?} of {} for {} state {} at {:?} is {:?} instead of {:?}", ss, f.show(), nm(v), j, pr, x[j - 1], e);
                }
            }
        }
    }
    for k in b.keys() {
        ensure!((0..d.n()).any(|v| nm(v) == *k), "bmeas of unknown variable {}", k);
    }
    Ok(())
}

/// Symbolic state probabilities: one symbol per state above 0, state 0 gets the rest.
fn sym<const C: usize>(sizes: &[usize]) -> Vec<Vec<Poly<C>>> {
    let mut k = 0;
    sizes
        .iter()
        .map(|&s| {
            let mut v = vec![Poly::<C>::from(1.0)];
            for _ in 1..s {
                let x = Poly::<C>::var(k);
                k += 1;
                v[0] = v[0] - x;
                v.push(x);
            }
            v
        })
        .collect()
}

fn poly_all<const C: usize>(cx: &mut Cx, sizes: &[usize], funs: &[Fun], vals: &[i64], chunk: usize) {
    let ss = subsets(vals);
    for (a, b) in chunks(funs.len(), chunk) {
        if !cx.mine() {
            continue;
        }
        let ss = &ss;
        cx.case(
            || format!("functions {} to {} over {:?}, all subsets of {:?}, symbolic probabilities", a, b, sizes, vals),
            |cx| {
                let (m, x) = mk(sizes);
                let d = Dom::new(sizes);
                let pr = sym::<C>(sizes);
                for f in &funs[a..b] {
                    let mut h = mss_build(&m, &x, f, sizes);
                    for s in ss {
                        check_prob(&mut h, &d, f, &pr, s)?;
                    }
                    if f.k == BOOL {
                        check_prob(&mut h, &d, f, &pr, &[1, 1])?;
                        check_prob(&mut h, &d, f, &pr, &[1, 0, 1])?;
                    }
                }
                cx.states((b - a) as u64);
                cx.trans(2 * ((b - a) * ss.len()) as u64);
                Ok(())
            },
        );
    }
}

pub fn c15(cx: &mut Cx) {
    let th = cx.thorough;
    cx.section("Boolean functions, all probabilities (polynomials)");
    poly_all::<27>(cx, &[2, 2, 2], &bfuns(&[2, 2, 2]), &[0, 1, 2], 16);
    poly_all::<27>(cx, &[2, 3], &bfuns(&[2, 3]), &[0, 1, 2], 8);
    poly_all::<27>(cx, &[3, 2], &ufuns(&[3, 2]), &[0, 1], 32);
    poly_all::<27>(cx, &[4], &ufuns(&[4]), &[0, 1], 16);
    poly_all::<81>(cx, &[3, 3], &bfuns(&[3, 3]), &[0, 1], 16);
    poly_all::<81>(cx, &[2, 3, 2], &bfuns(&[2, 3, 2]), &[0, 1], 64);
    cx.section("value functions, all probabilities (polynomials)");
    poly_all::<27>(cx, &[2, 3], &vfuns(&[2, 3], &[0, 1, 2]), &[0, 1, 2, 7], 16);
    poly_all::<27>(cx, &[3, 2], &vfuns(&[3, 2], &[0, 5, U]), &[0, 1, 5], 16);
    poly_all::<9>(cx, &[2, 2], &vfuns(&[2, 2], &[-1, 0, 1, 3, U]), &[-1, 0, 1, 3], 16);
    poly_all::<27>(cx, &[2, 2, 2], &vfuns(&[2, 2, 2], &[0, 1, 2]), &[0, 1, 2], 64);
    let far = [i64::MIN + 1, 0, 1 << 32, i64::MAX];
    poly_all::<9>(cx, &[2, 2], &vfuns(&[2, 2], &far), &far, 16);
    poly_all::<81>(cx, &[3, 3], &vfuns(&[3, 3], &[0, 1, 2]), &[0, 1, 2], 64);
    poly_all::<81>(cx, &[2, 2, 2, 2], &bfuns(&[2, 2, 2, 2]), &[0, 1], 256);
    if th {
        poly_all::<81>(cx, &[2, 3, 2], &vfuns(&[2, 3, 2], &[0, 1, 2]), &[0, 1, 2], 512);
        poly_all::<27>(cx, &[3, 2], &vfuns(&[3, 2], &[-1, 0, 1, 5, U]), &[-1, 0, 1, 5], 128);
        poly_all::<81>(cx, &[3, 3], &vfuns(&[3, 3], &[0, 1, 2, U]), &[0, 1, 2], 512);
    }

    cx.section("dyadic probability grid, zero and one included");
    let sizes = [2usize, 3];
    let grid2 = [[0.0, 1.0], [1.0, 0.0], [0.5, 0.5], [0.25, 0.75]];
    let grid3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.5, 0.25, 0.25], [0.25, 0.0, 0.75], [0.125, 0.5, 0.375]];
    let vf = vfuns(&sizes, &[0, 1, 2]);
    for (a, b) in chunks(vf.len(), 27) {
        if !cx.mine() {
            continue;
        }
        let vf = &vf;
        cx.case(
            || format!("value functions {} to {} over (2,3), every grid point", a, b),
            |cx| {
                let (m, x) = mk(&sizes);
                let d = Dom::new(&sizes);
                for f in &vf[a..b] {
                    let mut h = mss_build(&m, &x, f, &sizes);
                    for p in &grid2 {
                        for q in &grid3 {
                            let pr = vec![p.to_vec(), q.to_vec()];
                            for ss in [&[0i64][..], &[1], &[2, 0], &[2, 1, 0, 1], &[]] {
                                check_prob::<f64>(&mut h, &d, f, &pr, ss)?;
                            }
                        }
                    }
                }
                cx.states((b - a) as u64);
                cx.trans(((b - a) * 24 * 5 * 2) as u64);
                Ok(())
            },
        );
    }

    cx.section("diagrams on recycled places");
    crate::p_recycled::mss_handles(cx, "prob and bmeas", &crate::p_recycled::mss_sets(), &|_, h, d, f| {
        let pr: Vec<Vec<f64>> = (0..d.n()).map(|v| [vec![0.25, 0.75], vec![0.125, 0.5, 0.375]][d.sizes[v] - 2].clone()).collect();
        [&[0i64][..], &[1], &[4, 2], &[-1, 1], &[]].iter().try_for_each(|ss| check_prob::<f64>(h, d, f, &pr, ss))
    });
    cx.section("query histories on one handle, collections in between");
    let hist = vfuns(&sizes, &[0, 1, 2]);
    for (a, b) in chunks(hist.len(), 9) {
        if !cx.mine() {
            continue;
        }
        let hist = &hist;
        cx.case(
            || format!("functions {} to {} over (2,3): all pairs of queries, operations and collections between", a, b),
            |cx| {
                let d = Dom::new(&sizes);
                let (mut m, x) = mk(&sizes);
                let prs: [Vec<Vec<f64>>; 2] = [vec![vec![0.5, 0.5], vec![0.5, 0.25, 0.25]], vec![vec![0.25, 0.75], vec![0.125, 0.5, 0.375]]];
                let sss: [&[i64]; 4] = [&[0], &[1], &[2], &[1, 2]];
                m.set_gc_threshold(if a % 2 == 0 { 1 } else { 40 });
                for (n, f) in hist[a..b].iter().enumerate() {
                    let mut h = mss_build(&m, &x, f, &sizes);
                    let c = m.value(1);
                    let mut hb = h.ge(&c);
                    let fb = Fun::b(f.t.iter().map(|v| (*v >= 1) as i64).collect());
                    for q1 in 0..8 {
                        for q2 in 0..8 {
                            check_prob(&mut h, &d, f, &prs[q1 % 2], sss[q1 / 2])?;
                            check_prob(&mut hb, &d, &fb, &prs[q2 % 2], sss[q1 / 2])?;
                            match (n + q1 + q2) % 4 {
                                0 => {
                                    m.gc(&[]);
                                }
                                1 => m.clear_cache(),
                                2 => {
                                    let _ = h.add(&x[q2 % 2]).mul(&h);
                                }
                                _ => {}
                            }
                            check_prob(&mut h, &d, f, &prs[q2 % 2], sss[q2 / 2]).map_err(|e| format!("second query: {}", e))?;
                            check_prob(&mut hb, &d, &fb, &prs[q1 % 2], sss[q2 / 2]).map_err(|e| format!("second query: {}", e))?;
                        }
                    }
                }
                cx.states((b - a) as u64);
                cx.trans(((b - a) * 64 * 8) as u64);
                cx.traces(((b - a) * 64) as u64);
                Ok(())
            },
        );
    }

    cx.section("functions on any two of five variables; extra names in the map are ignored");
    let big = [2usize, 3, 2, 4, 3];
    for i in 0..5usize {
        for j in 0..5usize {
            if i == j || !cx.mine() {
                continue;
            }
            cx.case(
                || format!("all functions of (x{} = 1, x{}) into three values over {:?}", i, j, big),
                |cx| {
                    let d = Dom::new(&big);
                    let (m, x) = mk(&big);
                    let pr: Vec<Vec<f64>> = big
                        .iter()
                        .map(|&s| match s {
                            2 => vec![0.25, 0.75],
                            3 => vec![0.5, 0.125, 0.375],
                            _ => vec![0.125, 0.5, 0.25, 0.125],
                        })
                        .collect();
                    for c in 0..81usize {
                        let t: Vec<i64> = (0..d.points())
                            .map(|p| {
                                let g = d.digits(p);
                                let k = (g[i] == 1) as u32 + 2 * (g[j] >= 1) as u32;
                                (c / 3usize.pow(k) % 3) as i64
                            })
                            .collect();
                        for f in [Fun::v(t.clone()), Fun::b(t.iter().map(|v| (*v >= 1) as i64).collect())] {
                            let mut h = mss_build(&m, &x, &f, &big);
                            check_prob(&mut h, &d, &f, &pr, &[1])?;
                            check_prob(&mut h, &d, &f, &pr, &[0, 2])?;
                        }
                    }
                    let mut pv: HashMap<String, Vec<f64>> = pr.iter().enumerate().map(|(v, p)| (nm(v), p.clone())).collect();
                    pv.insert("other".into(), vec![0.5]);
                    let mut h = x[i].clone();
                    ensure!(h.prob(&pv, &[1]) == pr[i][1], "a name that is no variable changes the result");
                    cx.states(162);
                    cx.trans(162 * 4);
                    Ok(())
                },
            );
        }
    }
    cx.section("names that are easy to confuse");
    crate::p_names::prob_mss(cx);
    cx.section("large systems in closed form");
    crate::p_large::prob_mss(cx);
    cx.section("wide diagrams: answers in closed form");
    crate::p_wide::prob_mss(cx);
    cx.section("nodes with large numbers");
    crate::p_wide::far_mss(cx, |_, h, d, f| {
        let pr: Vec<Vec<f64>> = (0..6).map(|v| [0.5, 0.25, 0.75][v % 3]).map(|p| vec![1.0 - p, p]).collect();
        for ss in [&[0i64][..], &[1], &[5], &[0, 5]] {
            check_prob(h, d, f, &pr, ss)?;
        }
        Ok(())
    });
    cx.section("variables with many states");
    wide_cases(cx, |_, h, d, f| {
        let mut vals = f.t.clone();
        vals.sort();
        vals.dedup();
        let even: Vec<i64> = vals.iter().copied().step_by(2).collect();
        for one in [None, Some(0), Some(1), Some(17)] {
            let pr: Vec<Vec<f64>> = d
                .sizes
                .iter()
                .map(|&s| match one {
                    // all weight on one state
                    Some(j) => (0..s).map(|i| if i == j % s { 1.0 } else { 0.0 }).collect(),
                    None => {
                        let t = (4 * s).next_power_of_two() as f64;
                        let mut p: Vec<f64> = (0..s - 1).map(|i| (1 + i % 3) as f64 / t).collect();
                        p.push(1.0 - p.iter().sum::<f64>());
                        p
                    }
                })
                .collect();
            check_prob(h, d, f, &pr, &even)?;
            check_prob(h, d, f, &pr, &[vals[vals.len() / 2]])?;
        }
        Ok(16)
    });
    cx.section("sums of up to 8 four-state components");
    for n in 2..=8usize {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("sum, minimum and maximum of {} components against convolution", n),
            |cx| {
                let sizes = vec![4usize; n];
                let (m, x) = mk(&sizes);
                let p = [0.25, 0.5, 0.125, 0.125];
                let mut s = m.value(0);
                for y in &x {
                    s = s.add(y);
                }
                let pv: HashMap<String, Vec<f64>> = (0..n).map(|v| (nm(v), p.to_vec())).collect();
                let conv = |k: usize| -> Vec<f64> {
                    let mut d = vec![1.0];
                    for _ in 0..k {
                        let mut e = vec![0.0; d.len() + 3];
                        for (i, a) in d.iter().enumerate() {
                            for (j, b) in p.iter().enumerate() {
                                e[i + j] += a * b;
                            }
                        }
                        d = e;
                    }
                    d
                };
                let (dn, dm) = (conv(n), conv(n - 1));
                for v in 0..=3 * n {
                    ensure!(s.prob(&pv, &[v as i64]) == dn[v], "P(sum = {})", v);
                    let b = s.bmeas(&pv, &[v as i64]);
                    let c = |j: usize| if v >= j && v - j < dm.len() { dm[v - j] } else { 0.0 };
                    for k in 0..n {
                        for j in 1..4 {
                            ensure!(b[&nm(k)][j - 1] == c(j) - c(j - 1), "importance of {} state {} for sum {}", nm(k), j, v);
                        }
                    }
                }
                let (mut mn, mut mx) = (m.min(&x), m.max(&x));
                let mut cdf = 0.0f64;
                for v in 0..4i64 {
                    let below = cdf;
                    cdf += p[v as usize];
                    ensure!(mx.prob(&pv, &[v]) == cdf.powi(n as i32) - below.powi(n as i32), "P(max = {})", v);
                    ensure!(mn.prob(&pv, &[v]) == (1.0 - below).powi(n as i32) - (1.0 - cdf).powi(n as i32), "P(min = {})", v);
                }
                let mut big = s.gt(&m.value(3));
                ensure!(big.prob(&pv, &[1]) == dn[4..].iter().sum::<f64>(), "P(sum > 3)");
                cx.states(4);
                cx.trans(6 * n as u64 + 14);
                Ok(())
            },
        );
    }
}

// ------------------------------------------------------------------ C16

/// label at the members of the family, U elsewhere
fn strata(d: &Dom, t: &[i64], cut: bool) -> Vec<i64> {
    if t.len() > 100 {
        // monotone: a comparable member of the same stratum implies a neighbouring one
        return (0..t.len()).map(|p| if near(d, p, cut, |q| t[q] == t[p]) { U } else { t[p] }).collect();
    }
    (0..t.len())
        .map(|p| {
            let dom = (0..t.len()).any(|q| q != p && t[q] == t[p] && if cut { d.leq(p, q) } else { d.leq(q, p) });
            if dom {
                U
            } else {
                t[p]
            }
        })
        .collect()
}
/// does one of the points one step below (above for cuts) satisfy the predicate?
fn near(d: &Dom, p: usize, cut: bool, f: impl Fn(usize) -> bool) -> bool {
    let mut st = 1;
    for &s in &d.sizes {
        let g = (p / st) % s;
        if (cut && g + 1 < s && f(p + st)) || (!cut && g > 0 && f(p - st)) {
            return true;
        }
        st *= s;
    }
    false
}
fn level(d: &Dom, t: &[i64], cut: bool, v: i64) -> BTreeSet<usize> {
    let inn = |q: usize| if cut { t[q] <= v } else { t[q] >= v };
    if t.len() > 100 {
        return (0..t.len()).filter(|&p| inn(p) && !near(d, p, cut, inn)).collect();
    }
    (0..t.len())
        .filter(|&p| inn(p) && !(0..t.len()).any(|q| q != p && inn(q) && if cut { d.leq(p, q) } else { d.leq(q, p) }))
        .collect()
}
fn to_point(d: &Dom, names: &[String], v: &HashMap<String, usize>) -> Result<usize, String> {
    ensure!(v.len() == names.len(), "vector {:?} does not name every variable once", v);
    let mut g = vec![];
    for (i, n) in names.iter().enumerate() {
        let x = *v.get(n).ok_or_else(|| format!("vector {:?} lacks {}", v, n))?;
        ensure!(x < d.sizes[i], "vector {:?} has a state out of range", v);
        g.push(x);
    }
    Ok(d.point(&g))
}
fn points(d: &Dom, names: &[String], mut it: impl Iterator<Item = HashMap<String, usize>>) -> Result<BTreeSet<usize>, String> {
    let mut o = BTreeSet::new();
    for v in it.by_ref() {
        let p = to_point(d, names, &v)?;
        ensure!(o.insert(p), "vector {:?} reported twice", v);
    }
    ensure!(it.next().is_none() && it.next().is_none(), "items after the end");
    Ok(o)
}
fn hs(v: &[i64]) -> HashSet<i64> {
    v.iter().copied().collect()
}
/// The family as a table, read through every single-label query; all other queries must agree.
fn read_family(z: &ZmddNode<i64>, d: &Dom, names: &[String], cut: bool) -> Result<Vec<i64>, String> {
    let mut t = vec![U; d.points()];
    ensure!(z.is_cut() == cut, "is_cut is {}", z.is_cut());
    let w: Vec<(String, usize)> = names.iter().cloned().zip(d.sizes.iter().copied()).collect();
    ensure!(z.vars() == &w[..], "vars {:?} instead of {:?}", z.vars(), w);
    let ls = z.labels();
    ensure!(ls.windows(2).all(|x| x[0] < x[1]), "labels {:?}", ls);
    for &l in &ls {
        let ps = points(d, names, z.extract(&hs(&[l])))?;
        ensure!(!ps.is_empty(), "label {} without a vector", l);
        ensure!(z.count(&hs(&[l])) == ps.len() as u64, "count of label {} is {}, {} vectors", l, z.count(&hs(&[l])), ps.len());
        for p in ps {
            ensure!(t[p] == U, "vector {:?} under labels {} and {}", d.digits(p), t[p], l);
            t[p] = l;
        }
    }
    let all = points(d, names, z.extract(&hs(&ls)))?;
    let e: BTreeSet<usize> = (0..t.len()).filter(|&p| t[p] != U).collect();
    ensure!(all == e && z.count(&hs(&ls)) == e.len() as u64, "the strata together are {:?}, one by one {:?}", all, e);
    let odd: Vec<i64> = [i64::MAX, -77, 1 << 40].into_iter().filter(|v| !ls.contains(v)).collect();
    ensure!(z.extract(&hs(&odd)).next().is_none() && z.count(&hs(&odd)) == 0 && z.count(&hs(&[])) == 0, "vectors under a label that is not there");
    Ok(t)
}

fn check_min(m: &MssMgr<i64>, h: &H, d: &Dom, names: &[String], f: &Fun, deep: bool) -> Result<u64, String> {
    let mono = monotone(d, &f.t);
    let mut n = 0;
    for cut in [false, true] {
        let what = if cut { "mincut" } else { "minpath" };
        let z = if cut { m.mincut(h) } else { m.minpath(h) };
        n += 1;
        let z = match (z, mono) {
            (None, false) => continue,
            (None, true) => return Err(format!("{} of the monotone {} is None", what, f.show())),
            (Some(z), false) => {
                return Err(format!("{} of the non-monotone {} is {:?}", what, f.show(), z.extract(&hs(&z.labels())).collect::<Vec<_>>()))
            }
            (Some(z), true) => z,
        };
        let e = strata(d, &f.t, cut);
        let g = read_family(&z, d, names, cut).map_err(|e| format!("{} of {}: {}", what, f.show(), e))?;
        if g != e {
            return Err(format!("{} of {} over {:?} is {} instead of {}", what, f.show(), d.sizes, Fun::v(g).show(), Fun::v(e).show()));
        }
        let mut vals: Vec<i64> = f.t.clone();
        vals.sort();
        vals.dedup();
        let lo = vals[0];
        let hi = *vals.last().unwrap();
        let near: Vec<i64> = if hi.abs() < 1 << 40 && lo.abs() < 1 << 40 && hi - lo < 100 {
            (lo - 1..=hi + 1).collect()
        } else {
            let mut c: Vec<i64> = vals.iter().flat_map(|v| [v.saturating_sub(1), *v, v.saturating_add(1)]).collect();
            c.sort();
            c.dedup();
            c
        };
        for v in near {
            let g = points(d, names, z.extract_level(v).into_iter()).map_err(|e| format!("{} level {} of {}: {}", what, v, f.show(), e))?;
            let e = level(d, &f.t, cut, v);
            ensure!(g == e, "{} level {} of {} is {:?} instead of {:?}", what, v, f.show(), g, e);
            n += 1;
        }
        if deep {
            for s in subsets(&vals) {
                let g = points(d, names, z.extract(&hs(&s)))?;
                let e: BTreeSet<usize> = (0..g_len(&f.t)).filter(|&p| e_at(&f.t, d, p, cut) && s.contains(&f.t[p])).collect();
                ensure!(g == e && z.count(&hs(&s)) == e.len() as u64, "{} labels {:?} of {}: {:?} instead of {:?}", what, s, f.show(), g, e);
            }
            // asking again changes nothing, and gives the same node
            let z2 = if cut { m.mincut(h) } else { m.minpath(h) }.ok_or("None the second time")?;
            ensure!(z2.get_id() == z.get_id(), "{} of {} asked twice gives two nodes", what, f.show());
        }
    }
    ensure!(mss_table(h, &d.sizes)? == *f, "the function itself changed");
    Ok(n)
}
/// Minimal vectors of a function of the first variables of a manager that has defined more of
/// them: those are at 0 in a minimal vector and at their highest state in a maximal one.
fn far_min(m: &MssMgr<i64>, h: &H, d: &Dom, f: &Fun) -> Result<(), String> {
    let names: Vec<String> = (0..d.n()).map(nm).collect();
    let mono = monotone(d, &f.t);
    let mut vals: Vec<i64> = f.t.clone();
    vals.sort();
    vals.dedup();
    for cut in [false, true] {
        let what = if cut { "mincut" } else { "minpath" };
        let z = if cut { m.mincut(h) } else { m.minpath(h) };
        ensure!(z.is_some() == mono, "{} of {} is {}", what, f.show(), if mono { "None" } else { "a family, but the function is not monotone" });
        let Some(z) = z else { continue };
        for v in &vals {
            let mut it = vec![];
            for x in z.extract(&hs(&[*v])) {
                ensure!(
                    x.iter().all(|(k, s)| names.contains(k) || *s == cut as usize),
                    "{} of {}: {:?} moves a variable the function does not mention",
                    what,
                    f.show(),
                    x
                );
                it.push(x.into_iter().filter(|(k, _)| names.contains(k)).collect());
            }
            let g = points(d, &names, it.into_iter())?;
            let e: BTreeSet<usize> = (0..g_len(&f.t)).filter(|&p| e_at(&f.t, d, p, cut) && f.t[p] == *v).collect();
            ensure!(g == e, "{} value {} of {}: {:?} instead of {:?}", what, v, f.show(), g, e);
        }
    }
    Ok(())
}
fn g_len(t: &[i64]) -> usize {
    t.len()
}
fn e_at(t: &[i64], d: &Dom, p: usize, cut: bool) -> bool {
    !(0..t.len()).any(|q| q != p && t[q] == t[p] && if cut { d.leq(p, q) } else { d.leq(q, p) })
}

/// All monotone tables over d with values from the ascending alphabet.
fn mono_tables(d: &Dom, al: &[i64]) -> Vec<Vec<i64>> {
    let n = d.points();
    let mut out = vec![];
    let mut t: Vec<i64> = vec![];
    fn rec(d: &Dom, al: &[i64], n: usize, t: &mut Vec<i64>, out: &mut Vec<Vec<i64>>) {
        if t.len() == n {
            out.push(t.clone());
            return;
        }
        let p = t.len();
        let mut lo = i64::MIN;
        let mut st = 1;
        for s in &d.sizes {
            if (p / st) % s > 0 {
                lo = lo.max(t[p - st]);
            }
            st *= s;
        }
        for &a in al {
            if a >= lo {
                t.push(a);
                rec(d, al, n, t, out);
                t.pop();
            }
        }
    }
    rec(d, al, n, &mut t, &mut out);
    out
}

fn min_all(cx: &mut Cx, sizes: &[usize], funs: &[Fun], chunk: usize, deep: bool) {
    let d = Dom::new(sizes);
    for (a, b) in chunks(funs.len(), chunk) {
        if !cx.mine() {
            continue;
        }
        let d = &d;
        cx.case(
            || format!("functions {} to {} of {} over {:?} ({} ..)", a, b, funs.len(), sizes, funs[a].show()),
            |cx| {
                let (m, x) = mks(sizes);
                let names: Vec<String> = (0..sizes.len()).map(nm).collect();
                let mut n = 0;
                for (i, f) in funs[a..b].iter().enumerate() {
                    at(&[(a + i) as u64]);
                    let h = mss_build(m.mdd(), &x, f, sizes);
                    n += check_min(&m, &h, d, &names, f, deep)?;
                    if i % 64 == 63 {
                        m.gc(&[]);
                    }
                }
                cx.states((b - a) as u64);
                cx.trans(n);
                Ok(())
            },
        );
    }
}
fn fv(ts: Vec<Vec<i64>>) -> Vec<Fun> {
    ts.into_iter().map(Fun::v).collect()
}
fn fb(ts: Vec<Vec<i64>>) -> Vec<Fun> {
    ts.into_iter().map(Fun::b).collect()
}

/// Every ordered pair of functions on one system manager: the first one's families, a
/// collection that keeps some of what was made, then the second one's.
fn recycled(cx: &mut Cx) {
    for sizes in [[2usize, 3], [3, 2]] {
        let d = Dom::new(&sizes);
        let mono = mono_tables(&d, &[0, 1, 2]);
        let other: Vec<Vec<i64>> = all_tables(6, &[0, 2]).into_iter().chain(mono.iter().cloned()).collect();
        for keep in 0..4u32 {
            for t in &mono {
                if !cx.mine() {
                    continue;
                }
                let (d, other) = (&d, &other);
                cx.case(
                    || format!("{:?} over {:?}, then a collection keeping (function, families)={:#04b}, then each of {} functions", t, sizes, keep, other.len()),
                    |cx| {
                        let (m, x) = mks(&sizes);
                        let names: Vec<String> = (0..2).map(nm).collect();
                        let f = Fun::v(t.clone());
                        let mut n = 0;
                        for u in other {
                            at(&u.iter().map(|v| *v as u64).collect::<Vec<_>>());
                            let h = mss_build(m.mdd(), &x, &f, &sizes);
                            let (a, c) = (m.minpath(&h).ok_or("None")?, m.mincut(&h).ok_or("None")?);
                            let h = Some(h).filter(|_| keep & 1 != 0);
                            let ac = Some((a, c)).filter(|_| keep & 2 != 0);
                            m.gc(&[]);
                            let e = Fun::v(u.clone());
                            let g = mss_build(m.mdd(), &x, &e, &sizes);
                            n += check_min(&m, &g, d, &names, &e, false)?;
                            let eb = Fun::b(u.iter().map(|v| (*v > 0) as i64).collect());
                            let gb = g.gt(&m.value(0));
                            n += check_min(&m, &gb, d, &names, &eb, false)?;
                            if let Some(h) = h {
                                ensure!(mss_table(&h, &sizes)? == f, "the kept function changed");
                            }
                            if let Some((a, c)) = ac {
                                ensure!(read_family(&a, d, &names, false)? == strata(d, t, false), "the kept path family changed");
                                ensure!(read_family(&c, d, &names, true)? == strata(d, t, true), "the kept cut family changed");
                                if monotone(d, u) {
                                    let b = m.minpath(&g).ok_or("None")?;
                                    ensure!((a.get_id() == b.get_id()) == (strata(d, t, false) == strata(d, u, false)), "node identity of the path families");
                                    let b = m.mincut(&g).ok_or("None")?;
                                    ensure!((c.get_id() == b.get_id()) == (strata(d, t, true) == strata(d, u, true)), "node identity of the cut families");
                                }
                            }
                        }
                        cx.states(other.len() as u64);
                        cx.trans(n);
                        cx.traces(other.len() as u64);
                        Ok(())
                    },
                );
            }
        }
    }
}

pub fn c16(cx: &mut Cx) {
    let th = cx.thorough;
    cx.section("all Boolean functions, monotone or not");
    for s in [&[2usize][..], &[3], &[5], &[2, 2], &[2, 3], &[3, 2], &[2, 2, 2], &[3, 3], &[2, 4], &[4, 2]] {
        min_all(cx, s, &bfuns(s), 32, true);
    }
    min_all(cx, &[2, 2, 3], &bfuns(&[2, 2, 3]), 256, false);
    min_all(cx, &[3, 2, 2], &bfuns(&[3, 2, 2]), 256, false);
    cx.section("all value functions, monotone or not");
    min_all(cx, &[2], &vfuns(&[2], &[-2, -1, 0, 1, 4]), 32, true);
    min_all(cx, &[4], &vfuns(&[4], &[-1, 0, 1, 2]), 32, true);
    min_all(cx, &[2, 2], &vfuns(&[2, 2], &[-1, 0, 1, 3]), 32, true);
    min_all(cx, &[2, 3], &vfuns(&[2, 3], &[0, 1, 2]), 32, true);
    min_all(cx, &[3, 2], &vfuns(&[3, 2], &[-1, 0, 2]), 32, true);
    min_all(cx, &[2, 2, 2], &vfuns(&[2, 2, 2], &[0, 1, 2]), 256, false);
    let wide = [i64::MIN + 1, -3_000_000_000, 1 << 32, i64::MAX];
    min_all(cx, &[4], &vfuns(&[4], &wide), 32, true);
    min_all(cx, &[2, 2], &vfuns(&[2, 2], &wide), 32, true);
    min_all(cx, &[2, 3], &vfuns(&[2, 3], &[i64::MIN + 1, 0, i64::MAX]), 64, true);
    min_all(cx, &[3, 3], &vfuns(&[3, 3], &[0, 1, 2]), 512, false);
    min_all(cx, &[2, 2, 2, 2], &bfuns(&[2, 2, 2, 2]), 1024, false);
    if th {
        min_all(cx, &[3, 3], &vfuns(&[3, 3], &[-1, 0, 1, 2]), 1024, false);
        min_all(cx, &[2, 3, 2], &vfuns(&[2, 3, 2], &[0, 1, 2]), 2048, false);
        min_all(cx, &[3, 2, 3], &bfuns(&[3, 2, 3]), 1024, false);
        min_all(cx, &[2, 2, 2, 2], &bfuns(&[2, 2, 2, 2]), 1024, true);
    }
    cx.section("all monotone Boolean functions over larger domains");
    for s in [&[3usize, 3, 2][..], &[2, 3, 3], &[4, 4], &[2, 2, 2, 2], &[3, 2, 3], &[5, 5], &[2, 2, 2, 3]] {
        let d = Dom::new(s);
        min_all(cx, s, &fb(mono_tables(&d, &[0, 1])), 32, true);
    }
    for s in [&[3usize, 3, 3][..], &[4, 4, 2], &[2, 2, 3, 3], &[2, 2, 2, 2, 2], &[4, 4, 3]] {
        let d = Dom::new(s);
        min_all(cx, s, &fb(mono_tables(&d, &[0, 1])), 64, th);
    }
    cx.section("all monotone value functions over larger domains");
    for (s, al) in [
        (&[3usize, 3][..], &[0i64, 1, 2][..]),
        (&[2, 2, 2], &[0, 1, 2, 3]),
        (&[2, 3, 2], &[0, 1, 2]),
        (&[4, 3], &[0, 1, 2]),
        (&[3, 2], &[-3, 0, 1, 2, 9]),
    ] {
        let d = Dom::new(s);
        let f = mono_tables(&d, al);
        min_all(cx, s, &fv(f), 64, true);
    }
    {
        for (s, al) in [(&[3usize, 3][..], &[0i64, 1, 2, 3][..]), (&[2, 2, 2, 2], &[0, 1, 2]), (&[3, 3, 2], &[0, 1, 2]), (&[4, 4], &[0, 1, 2]), (&[2, 2, 3], &[0, 1, 2, 3])] {
            let d = Dom::new(s);
            let f = mono_tables(&d, al);
            min_all(cx, s, &fv(f), 256, th);
        }
    }
    cx.section("variables the function does not use, and variables defined later");
    for pos in 0..4usize {
        for kind in [BOOL, VALUE] {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("all monotone functions of two variables among four, unused positions {} kind {}", pos, kind),
                |cx| {
                    let used = [(0usize, 1usize), (1, 2), (0, 3), (2, 3)][pos];
                    let sizes = [3usize, 2, 3, 2];
                    let d = Dom::new(&sizes);
                    let sub = Dom::new(&[sizes[used.0], sizes[used.1]]);
                    let names: Vec<String> = (0..4).map(nm).collect();
                    let (mut m, x) = mks(&sizes);
                    let mut n = 0;
                    for t in mono_tables(&sub, if kind == BOOL { &[0, 1] } else { &[0, 1, 2] }) {
                        let f = Fun { k: kind, t: (0..36).map(|p| { let g = d.digits(p); t[sub.point(&[g[used.0], g[used.1]])] }).collect() };
                        let h = mss_build(m.mdd(), &x, &f, &sizes);
                        n += check_min(&m, &h, &d, &names, &f, false)?;
                    }
                    // a family keeps the variables of the moment it was made
                    let h = mss_build(m.mdd(), &x, &Fun::v(d.var(used.1)), &sizes);
                    let (a, c) = (m.minpath(&h).ok_or("None")?, m.mincut(&h).ok_or("None")?);
                    let y = m.defvar("late", 4);
                    ensure!(read_family(&a, &d, &names, false)? == strata(&d, &d.var(used.1), false), "path family after a later definition");
                    ensure!(read_family(&c, &d, &names, true)? == strata(&d, &d.var(used.1), true), "cut family after a later definition");
                    let d2 = Dom::new(&[3, 2, 3, 2, 4]);
                    let mut names2 = names.clone();
                    names2.push("late".into());
                    let sum = h.add(&y);
                    let st: Vec<i64> = (0..d2.points()).map(|p| { let g = d2.digits(p); (g[used.1] + g[4]) as i64 }).collect();
                    n += check_min(&m, &sum, &d2, &names2, &Fun::v(st), false)?;
                    cx.states(1);
                    cx.trans(n);
                    Ok(())
                },
            );
        }
    }
    cx.section("diagrams on recycled places");
    let sets: Vec<(Vec<usize>, Vec<Fun>)> = crate::p_recycled::mss_sets().into_iter().map(|(s, f)| (s, f.into_iter().filter(|f| !f.t.contains(&U)).collect())).collect();
    crate::p_recycled::mss_handles(cx, "minimal vectors", &sets, &|m, h, d, f| {
        let names: Vec<String> = (0..d.n()).map(nm).collect();
        check_min(m, h, d, &names, f, false).map(|_| ())
    });
    cx.section("families on recycled places");
    let mono: Vec<Fun> = mono_tables(&Dom::new(&[2, 3, 2]), &[0, 1, 2]).into_iter().map(Fun::v).collect();
    crate::p_recycled::mss_families(cx, "minimal vectors", &[2, 3, 2], &mono, &|m, _, h, d, f| {
        far_min(m, h, d, f)?;
        for cut in [false, true] {
            let z = if cut { m.mincut(h) } else { m.minpath(h) }.ok_or("None")?;
            let mut e = f.t.clone();
            e.sort();
            e.dedup();
            let mut g = z.labels();
            g.sort();
            ensure!(g == e, "labels {:?} instead of {:?}", g, e);
        }
        Ok(())
    });
    cx.section("several functions through one manager");
    let d = Dom::new(&[2, 3]);
    let mono = mono_tables(&d, &[0, 1, 2]);
    for (i, t) in mono.iter().enumerate() {
        if !cx.mine() {
            continue;
        }
        let (mono, d) = (&mono, &d);
        cx.case(
            || format!("families of {:?} while those of every other function are made", t),
            |cx| {
                let (m, x) = mks(&[2, 3]);
                let names: Vec<String> = (0..2).map(nm).collect();
                let h = mss_build(m.mdd(), &x, &Fun::v(t.clone()), &[2, 3]);
                let hb = h.ge(&m.value(1));
                let (a, c) = (m.minpath(&h).ok_or("None")?, m.mincut(&h).ok_or("None")?);
                let (ab, cb) = (m.minpath(&hb).ok_or("None")?, m.mincut(&hb).ok_or("None")?);
                let bt: Vec<i64> = t.iter().map(|v| (*v >= 1) as i64).collect();
                let mut n = 0;
                for u in mono.iter() {
                    let g = mss_build(m.mdd(), &x, &Fun::v(u.clone()), &[2, 3]);
                    n += check_min(&m, &g, d, &names, &Fun::v(u.clone()), false)?;
                    let gb = g.gt(&m.value(0));
                    n += check_min(&m, &gb, d, &names, &Fun::b(u.iter().map(|v| (*v > 0) as i64).collect()), false)?;
                    ensure!(read_family(&a, d, &names, false)? == strata(d, t, false), "path family changed after {:?}", u);
                    ensure!(read_family(&c, d, &names, true)? == strata(d, t, true), "cut family changed after {:?}", u);
                    ensure!(read_family(&ab, d, &names, false)? == strata(d, &bt, false), "Boolean path family changed after {:?}", u);
                    ensure!(read_family(&cb, d, &names, true)? == strata(d, &bt, true), "Boolean cut family changed after {:?}", u);
                }
                let _ = i;
                cx.states(1);
                cx.trans(n);
                Ok(())
            },
        );
    }
    cx.section("all pairs of functions with a collection in between");
    recycled(cx);
    cx.section("larger systems in closed form");
    for n in 2..=6usize {
        for s in 2..=4usize {
            if !cx.mine() || s.pow(n as u32) > 1100 {
                continue;
            }
            cx.case(
                || format!("sum, minimum, maximum, threshold of {} components with {} states", n, s),
                |cx| {
                    let sizes = vec![s; n];
                    let d = Dom::new(&sizes);
                    let (m, x) = mks(&sizes);
                    let names: Vec<String> = (0..n).map(nm).collect();
                    let mut sum = m.value(0);
                    for y in &x {
                        sum = sum.add(y);
                    }
                    let dig = |p: usize| d.digits(p).into_iter().map(|v| v as i64).collect::<Vec<_>>();
                    let tab = |f: &dyn Fn(&[i64]) -> i64| -> Vec<i64> { (0..d.points()).map(|p| f(&dig(p))).collect() };
                    let mut k = 0;
                    let ts = tab(&|v| v.iter().sum());
                    k += check_min(&m, &sum, &d, &names, &Fun::v(ts.clone()), false)?;
                    k += check_min(&m, &m.min(&x), &d, &names, &Fun::v(tab(&|v| *v.iter().min().unwrap())), false)?;
                    k += check_min(&m, &m.max(&x), &d, &names, &Fun::v(tab(&|v| *v.iter().max().unwrap())), false)?;
                    let c = (n * (s - 1) / 2) as i64;
                    let g = sum.ge(&m.value(c));
                    k += check_min(&m, &g, &d, &names, &Fun::b(ts.iter().map(|v| (*v >= c) as i64).collect()), false)?;
                    let w = sum.lt(&m.value(c));
                    k += check_min(&m, &w, &d, &names, &Fun::b(ts.iter().map(|v| (*v < c) as i64).collect()), false)?;
                    cx.states(5);
                    cx.trans(k);
                    Ok(())
                },
            );
        }
    }
    cx.section("names that are easy to confuse");
    crate::p_names::minimal_mss(cx);
    cx.section("components with many states");
    wide_min(cx);
    cx.section("one point changed in a function of components with many states");
    one_dip(cx);
    cx.section("systems of 30 components in closed form");
    crate::p_large::min_mss(cx);
    cx.section("wide diagrams: answers in closed form");
    crate::p_wide::min_mss(cx);
    cx.section("nodes with large numbers");
    crate::p_wide::far_mss(cx, |m, h, d, f| far_min(m, h, d, f));
    cx.section("families with more than 2^16 members");
    crate::p_long::long_families(cx);
    cx.section("thousands of labels, levels with thousands of members");
    crate::p_lists::many_labels(cx);
}

/// Monotone functions of variables with many states (every table is monotone by construction).
fn wide_tables(d: &Dom, boolean: bool) -> Vec<Vec<i64>> {
    let dig: Vec<Vec<i64>> = (0..d.points()).map(|p| d.digits(p).into_iter().map(|v| v as i64).collect()).collect();
    let last = d.n() - 1;
    let (s0, s1) = (d.sizes[0] as i64, d.sizes[last] as i64);
    let mut o: Vec<Vec<i64>> = vec![];
    let mut add = |f: &dyn Fn(&[i64]) -> i64| o.push(dig.iter().map(|g| f(g)).collect());
    let pick = |s: i64| {
        let mut v: Vec<i64> = vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, s / 2, s - 2, s - 1, s];
        v.retain(|x| *x >= 0 && *x <= s);
        v.sort();
        v.dedup();
        v
    };
    for a in pick(s0) {
        for b in pick(s1) {
            if boolean {
                add(&|g| (g[0] >= a && g[last] >= b) as i64);
                add(&|g| (g[0] >= a || g[last] >= b) as i64);
            } else if a % 2 == 0 {
                add(&|g| (g[0] >= a) as i64 + 2 * (g[last] >= b) as i64);
                add(&|g| if g[0] >= a { 3 + (g[last] >= b) as i64 } else { -2 });
            }
        }
    }
    if boolean {
        for c in pick(s0 + s1) {
            add(&|g| (g.iter().sum::<i64>() >= c) as i64);
        }
    } else {
        add(&|g| g.iter().sum());
        add(&|g| *g.iter().min().unwrap());
        add(&|g| *g.iter().max().unwrap());
        add(&|g| g.iter().map(|x| x + 1).product());
        add(&|g| g[0] / 7 + g[last] / 3);
        add(&|g| (g[0] - 16).max(0) + g[last]);
        add(&|g| g[0].min(16) * 1000 + g[last].min(17));
    }
    o.sort();
    o.dedup();
    o
}
const WIDE: [&[usize]; 5] = [&[300, 2], &[2, 300], &[20, 33], &[5, 2, 70], &[700]];

fn wide_min(cx: &mut Cx) {
    for sizes in WIDE {
        for boolean in [true, false] {
            let d = Dom::new(sizes);
            let ts = wide_tables(&d, boolean);
            for (a, b) in chunks(ts.len(), 48) {
                if !cx.mine() {
                    continue;
                }
                let (d, ts) = (&d, &ts);
                cx.case(
                    || format!("{} monotone functions {} to {} over {:?}", if boolean { "Boolean" } else { "value" }, a, b, sizes),
                    |cx| {
                        let (m, x) = mks(sizes);
                        let names: Vec<String> = (0..d.n()).map(nm).collect();
                        for (i, t) in ts[a..b].iter().enumerate() {
                            at(&[(a + i) as u64]);
                            let f = if boolean { Fun::b(t.clone()) } else { Fun::v(t.clone()) };
                            let h = mss_build(m.mdd(), &x, &f, sizes);
                            let mut vals = t.clone();
                            vals.sort();
                            vals.dedup();
                            for cut in [false, true] {
                                let z = if cut { m.mincut(&h) } else { m.minpath(&h) }.ok_or("None for a monotone function")?;
                                let e = strata(d, t, cut);
                                let g = read_family(&z, d, &names, cut)?;
                                if let Some(p) = (0..g.len()).find(|&p| g[p] != e[p]) {
                                    return Err(format!("function {}, cut={}: vector {:?} has label {} instead of {}", a + i, cut, d.digits(p), Fun::v(vec![g[p]]).show(), Fun::v(vec![e[p]]).show()));
                                }
                                for v in [vals[0] - 1, vals[0], vals[vals.len() / 2], vals[vals.len() - 1], vals[vals.len() - 1] + 1] {
                                    let g = points(d, &names, z.extract_level(v).into_iter())?;
                                    ensure!(g == level(d, t, cut, v), "function {}, cut={}: level {} has {} vectors", a + i, cut, v, g.len());
                                }
                            }
                            // spoiled at one point: not monotone any more (unless the point is extreme)
                            let mut u = t.clone();
                            let p = [1usize, u.len() / 2, u.len() - 2][i % 3];
                            u[p] = if boolean { 1 - u[p] } else { u[p] + 100_000 };
                            let mono = monotone(d, &u);
                            let h = mss_build(m.mdd(), &x, &if boolean { Fun::b(u) } else { Fun::v(u) }, sizes);
                            ensure!(m.minpath(&h).is_some() == mono && m.mincut(&h).is_some() == mono, "function {} changed at {:?}: monotone {}", a + i, d.digits(p), mono);
                        }
                        cx.states((b - a) as u64);
                        cx.trans(14 * (b - a) as u64);
                        Ok(())
                    },
                );
            }
        }
    }
}

/// A monotone function spoiled at one point, every point in turn.
fn one_dip(cx: &mut Cx) {
    for sizes in WIDE {
        for boolean in [true, false] {
            let d = Dom::new(sizes);
            let sum = |p: usize| d.digits(p).iter().sum::<usize>() as i64;
            let mid = sum(d.points() - 1) / 2;
            for (a, b) in chunks(d.points(), 64) {
                if !cx.mine() {
                    continue;
                }
                let (d, sum) = (&d, &sum);
                cx.case(
                    || format!("{} function over {:?} changed at the points {} to {}", if boolean { "threshold" } else { "sum" }, sizes, a, b),
                    |cx| {
                        let (m, x) = mks(sizes);
                        let t: Vec<i64> = (0..d.points()).map(|p| if boolean { (sum(p) >= mid) as i64 } else { sum(p) }).collect();
                        for q in a..b {
                            at(&[q as u64]);
                            for up in [false, true] {
                                let mut u = t.clone();
                                u[q] = if boolean { up as i64 } else if up { u[q] + 2 } else { u[q] - 2 };
                                let mono = monotone(d, &u);
                                let h = mss_build(m.mdd(), &x, &if boolean { Fun::b(u) } else { Fun::v(u) }, sizes);
                                for cut in [false, true] {
                                    let z = if cut { m.mincut(&h) } else { m.minpath(&h) };
                                    ensure!(z.is_some() == mono, "changed {} at {:?}, cut={}: monotone {}, answer {}", if up { "upwards" } else { "downwards" }, d.digits(q), cut, mono, z.is_some());
                                }
                            }
                        }
                        cx.states(2 * (b - a) as u64);
                        cx.trans(4 * (b - a) as u64);
                        Ok(())
                    },
                );
            }
        }
    }
}

// ------------------------------------------------------------------ C17

fn top_n(d: &Dom, f: &Fun) -> usize {
    d.top_var(&f.t).map(|v| v + 1).unwrap_or(0)
}
fn sub_points(d: &Dom, top: usize, f: &Fun, ss: &[i64]) -> BTreeSet<Vec<usize>> {
    let n: usize = d.sizes[..top].iter().product();
    (0..n).filter(|&p| val_in(f, p, ss)).map(|p| d.digits(p)[..top].to_vec()).collect()
}
fn vec_of(top: usize, v: &HashMap<String, usize>) -> Result<Vec<usize>, String> {
    ensure!(v.len() == top, "vector {:?} instead of {} variables", v, top);
    (0..top).map(|i| v.get(&nm(i)).copied().ok_or_else(|| format!("{:?} lacks {}", v, nm(i)))).collect()
}
fn check_count(h: &H, d: &Dom, f: &Fun, ss: &[i64]) -> Res {
    let top = top_n(d, f);
    let e = sub_points(d, top, f, ss);
    let s = hs(ss);
    let c = h.mdd_count(&s);
    ensure!(c == e.len() as u64, "count of {:?} in {} over {:?} is {} instead of {}", ss, f.show(), d.sizes, c, e.len());
    let mut it = h.mdd_extract(&s);
    ensure!(it.len() == e.len() as u64, "iterator length of {:?} in {} is {} instead of {}", ss, f.show(), it.len(), e.len());
    let mut g = BTreeSet::new();
    for v in it.by_ref() {
        let w = vec_of(top, &v).map_err(|x| format!("{:?} in {}: {}", ss, f.show(), x))?;
        ensure!(g.insert(w), "{:?} in {}: {:?} reported twice", ss, f.show(), v);
    }
    ensure!(it.next().is_none() && it.next().is_none(), "items after the end");
    ensure!(g == e, "extract of {:?} in {} over {:?} is {:?} instead of {:?}", ss, f.show(), d.sizes, g, e);
    Ok(())
}
fn count_all(cx: &mut Cx, sizes: &[usize], funs: &[Fun], vals: &[i64], chunk: usize) {
    let d = Dom::new(sizes);
    let ss = subsets(vals);
    for (a, b) in chunks(funs.len(), chunk) {
        if !cx.mine() {
            continue;
        }
        let (d, ss) = (&d, &ss);
        cx.case(
            || format!("functions {} to {} of {} over {:?}, every subset of {:?}", a, b, funs.len(), sizes, vals),
            |cx| {
                let (m, x) = mk(sizes);
                for (i, f) in funs[a..b].iter().enumerate() {
                    at(&[(a + i) as u64]);
                    let h = mss_build(&m, &x, f, sizes);
                    for s in ss {
                        check_count(&h, d, f, s)?;
                    }
                }
                cx.states((b - a) as u64);
                cx.trans(3 * ((b - a) * ss.len()) as u64);
                Ok(())
            },
        );
    }
}

/// Functions of variables with many states that are not monotone.
fn wide_mixed(d: &Dom) -> Vec<Fun> {
    let dig: Vec<Vec<i64>> = (0..d.points()).map(|p| d.digits(p).into_iter().map(|v| v as i64).collect()).collect();
    let last = d.n() - 1;
    let tab = |f: &dyn Fn(&[i64]) -> i64| -> Vec<i64> { dig.iter().map(|g| f(g)).collect() };
    let mut o = vec![];
    for c in [2i64, 3, 8, 16, 17, 256] {
        o.push(Fun::v(tab(&|g| (g[0] + g[last]) % c)));
        o.push(Fun::b(tab(&|g| (g[0] % c == g[last] % c) as i64)));
        o.push(Fun::b(tab(&|g| (g[0] == c || g[last] == c) as i64)));
        o.push(Fun::v(tab(&|g| if g[0] >= c { g[last] - g[0] } else { 5 })));
    }
    let step = |v: Vec<Vec<i64>>| { let k = v.len().div_ceil(12); v.into_iter().step_by(k) };
    o.extend(step(wide_tables(d, true)).map(Fun::b));
    o.extend(step(wide_tables(d, false)).map(Fun::v));
    o
}
fn wide_cases(cx: &mut Cx, f: impl Fn(&M, &mut H, &Dom, &Fun) -> Result<u64, String>) {
    for sizes in WIDE {
        let d = Dom::new(sizes);
        let funs = wide_mixed(&d);
        for (a, b) in chunks(funs.len(), 12) {
            if !cx.mine() {
                continue;
            }
            let (d, funs, f) = (&d, &funs, &f);
            cx.case(
                || format!("functions {} to {} over {:?}", a, b, sizes),
                |cx| {
                    let (m, x) = mk(sizes);
                    for (i, g) in funs[a..b].iter().enumerate() {
                        at(&[(a + i) as u64]);
                        let mut h = mss_build(&m, &x, g, sizes);
                        let n = f(&m, &mut h, d, g)?;
                        cx.trans(n);
                    }
                    cx.states((b - a) as u64);
                    Ok(())
                },
            );
        }
    }
}

pub fn c17(cx: &mut Cx) {
    let th = cx.thorough;
    cx.section("Boolean functions, all selections");
    for s in [&[2usize][..], &[3], &[5], &[2, 2], &[2, 3], &[3, 2], &[2, 2, 2], &[3, 3], &[2, 4]] {
        count_all(cx, s, &bfuns(s), &[0, 1, 2], 32);
    }
    for s in [&[3usize][..], &[2, 2], &[2, 3]] {
        count_all(cx, s, &ufuns(s), &[0, 1], 32);
    }
    for s in [&[2usize, 3, 2][..], &[3, 2, 2], &[2, 2, 3]] {
        count_all(cx, s, &bfuns(s), &[0, 1], 256);
    }
    cx.section("value functions, all selections");
    count_all(cx, &[2], &vfuns(&[2], &[-1, 0, 1, 3, U]), &[-1, 0, 1, 3], 32);
    count_all(cx, &[4], &vfuns(&[4], &[0, 1, 2]), &[0, 1, 2, 3], 32);
    count_all(cx, &[2, 2], &vfuns(&[2, 2], &[-1, 0, 1, 3, U]), &[-1, 0, 1, 3], 32);
    count_all(cx, &[2, 3], &vfuns(&[2, 3], &[0, 1, 2]), &[0, 1, 2, 7], 32);
    count_all(cx, &[3, 2], &vfuns(&[3, 2], &[0, 1, U]), &[0, 1, 2], 32);
    count_all(cx, &[2, 2, 2], &vfuns(&[2, 2, 2], &[0, 1, 2]), &[0, 1, 2], 256);
    let far = [i64::MIN + 1, 0, 1 << 32, i64::MAX];
    count_all(cx, &[2, 2], &vfuns(&[2, 2], &far), &far, 32);
    count_all(cx, &[2, 3], &vfuns(&[2, 3], &far[1..]), &far, 64);
    count_all(cx, &[3, 3], &vfuns(&[3, 3], &[0, 1, 2]), &[0, 1, 2], 512);
    count_all(cx, &[2, 2, 2, 2], &bfuns(&[2, 2, 2, 2]), &[0, 1], 1024);
    count_all(cx, &[2, 3], &vfuns(&[2, 3], &[-1, 0, 1, 2, U]), &[-1, 0, 1, 2], 256);
    if th {
        count_all(cx, &[2, 3, 2], &vfuns(&[2, 3, 2], &[0, 1, 2]), &[0, 1, 2], 2048);
        count_all(cx, &[3, 3], &vfuns(&[3, 3], &[0, 1, 2, U]), &[0, 1, 2], 1024);
        count_all(cx, &[3, 2, 3], &bfuns(&[3, 2, 3]), &[0, 1], 2048);
    }
    cx.section("all functions of two variables placed on any levels of five");
    let big = [2usize, 3, 4, 2, 3];
    let d = Dom::new(&big);
    for i in 0..5usize {
        for j in 0..5usize {
            if i == j || !cx.mine() {
                continue;
            }
            let d = &d;
            cx.case(
                || format!("all functions of (x{} = 1, x{} > 0) into three values, levels of {:?}", i, j, big),
                |cx| {
                    let (m, x) = mk(&big);
                    for c in 0..81usize {
                        let t: Vec<i64> = (0..d.points())
                            .map(|p| {
                                let g = d.digits(p);
                                let k = (g[i] == 1) as u32 + 2 * (g[j] >= 1) as u32;
                                (c / 3usize.pow(k) % 3) as i64
                            })
                            .collect();
                        for f in [Fun::v(t.clone()), Fun::b(t.iter().map(|v| (*v >= 1) as i64).collect())] {
                            let h = mss_build(&m, &x, &f, &big);
                            for s in [&[0i64][..], &[1], &[0, 1, 2], &[2, 1]] {
                                check_count(&h, d, &f, s)?;
                            }
                        }
                    }
                    cx.states(162);
                    cx.trans(162 * 12);
                    Ok(())
                },
            );
        }
    }
    cx.section("counts over many variables");
    for n in 1..=31usize {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{} four-state variables: sum parity, all zero, single variables", n),
            |cx| {
                let sizes = vec![4usize; n];
                let (m, x) = mk(&sizes);
                let all = 1u64 << (2 * n); // n <= 31
                let (zero, one) = (m.value(0), m.value(1));
                let eqs: Vec<H> = x.iter().map(|y| y.eq(&zero)).collect();
                let a = m.and(&eqs);
                let o = m.or(&eqs);
                ensure!(a.mdd_count(&hs(&[1])) == 1 && a.mdd_count(&hs(&[0])) == all - 1 && a.mdd_count(&hs(&[0, 1])) == all, "conjunction");
                let none = 3u64.pow(n as u32);
                ensure!(o.mdd_count(&hs(&[0])) == none && o.mdd_count(&hs(&[1])) == all - none, "disjunction");
                let mx = m.max(&x);
                ensure!(mx.mdd_count(&hs(&[0])) == 1 && mx.mdd_count(&hs(&[1])) == (1u64 << n) - 1 && mx.mdd_count(&hs(&[0, 1, 2])) == none, "maximum");
                ensure!(mx.mdd_count(&hs(&[0, 1, 2, 3])) == all && mx.mdd_count(&hs(&[4])) == 0, "maximum, all values");
                let mut par = m.boolean(false);
                for y in x.iter().rev() {
                    par = y.ge(&one).xor(&par);
                }
                // P(parity) by (even - odd) = (1 - 3)^n
                let diff: i128 = (-2i128).pow(n as u32);
                let odd = ((all as i128 - diff) / 2) as u64;
                ensure!(par.mdd_count(&hs(&[1])) == odd && par.mdd_count(&hs(&[0])) == all - odd, "parity");
                for (i, y) in x.iter().enumerate() {
                    ensure!(y.mdd_count(&hs(&[2])) == 1 << (2 * i), "variable {}", i);
                    ensure!(eqs[i].mdd_count(&hs(&[0])) == 3 << (2 * i), "variable {} not zero", i);
                }
                if n <= 4 {
                    ensure!(mx.mdd_extract(&hs(&[2])).count() as u64 == none - (1 << n), "extract of the maximum");
                }
                cx.states(5);
                cx.trans(12 + 2 * n as u64);
                Ok(())
            },
        );
    }
    cx.section("variables with many states");
    wide_cases(cx, |_, h, d, f| {
        let mut vals = f.t.clone();
        vals.sort();
        vals.dedup();
        let even: Vec<i64> = vals.iter().copied().step_by(2).collect();
        let k = vals.len();
        for s in [&[][..], &[vals[0]], &[vals[k / 2]], &[vals[k - 1]], &[vals[0] - 1], &even, &vals] {
            check_count(h, d, f, s)?;
        }
        Ok(21)
    });
    cx.section("diagrams on recycled places");
    crate::p_recycled::mss_handles(cx, "count and extract", &crate::p_recycled::mss_sets(), &|_, h, d, f| subsets(&[-1, 0, 1, 2, 4]).iter().try_for_each(|ss| check_count(h, d, f, ss)));
    cx.section("interleaved iterators and queries");
    let sizes = [2usize, 3];
    let d = Dom::new(&sizes);
    let funs = vfuns(&sizes, &[0, 1, 2]);
    for (a, b) in chunks(funs.len(), 27) {
        if !cx.mine() {
            continue;
        }
        let (d, funs) = (&d, &funs);
        cx.case(
            || format!("value functions {} to {} over (2,3): three iterators advanced in turn, counts in between, collections", a, b),
            |cx| {
                let (mut m, x) = mk(&sizes);
                m.set_gc_threshold(if a % 2 == 0 { 1 } else { 30 });
                for f in &funs[a..b] {
                    let h = mss_build(&m, &x, f, &sizes);
                    let hb = h.ge(&m.value(1));
                    let fb = Fun::b(f.t.iter().map(|v| (*v >= 1) as i64).collect());
                    let (s0, s1, s2) = (vec![0i64, 1], vec![2i64], vec![1i64]);
                    let (e0, e1, e2) =
                        (sub_points(d, top_n(d, f), f, &s0), sub_points(d, top_n(d, f), f, &s1), sub_points(d, top_n(d, &fb), &fb, &s2));
                    let (mut i0, mut i1, mut i2) = (h.mdd_extract(&hs(&s0)), h.mdd_extract(&hs(&s1)), hb.mdd_extract(&hs(&s2)));
                    let tops = (top_n(d, f), top_n(d, &fb));
                    drop(h);
                    drop(hb);
                    let (mut g0, mut g1, mut g2) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
                    loop {
                        let (v0, v1, v2) = (i0.next(), i1.next(), i2.next());
                        ensure!(i0.len() == e0.len() as u64 && i1.len() == e1.len() as u64 && i2.len() == e2.len() as u64, "length changes during iteration of {}", f.show());
                        m.gc(&[]);
                        let _ = x[0].add(&x[1]);
                        m.clear_cache();
                        if v0.is_none() && v1.is_none() && v2.is_none() {
                            break;
                        }
                        for (v, g, t) in [(v0, &mut g0, tops.0), (v1, &mut g1, tops.0), (v2, &mut g2, tops.1)] {
                            if let Some(v) = v {
                                ensure!(g.insert(vec_of(t, &v)?), "{:?} twice in {}", v, f.show());
                            }
                        }
                    }
                    ensure!(g0 == e0 && g1 == e1 && g2 == e2, "interleaved extraction of {}: {:?} {:?} {:?}", f.show(), g0, g1, g2);
                }
                cx.states((b - a) as u64);
                cx.trans(3 * (b - a) as u64);
                Ok(())
            },
        );
    }
    cx.section("names that are easy to confuse");
    crate::p_names::extract_mss(cx);
    cx.section("large systems in closed form");
    crate::p_large::count_mss(cx);
    cx.section("wide diagrams: answers in closed form");
    crate::p_wide::count_mss(cx);
    cx.section("nodes with large numbers");
    crate::p_wide::far_mss(cx, |_, h, d, f| {
        for ss in [&[0i64][..], &[1], &[5], &[0, 5], &[]] {
            check_count(h, d, f, ss)?;
        }
        Ok(())
    });
    cx.section("iterators with more than 2^16 items");
    crate::p_long::long_paths_mss(cx);
}

// ------------------------------------------------------------------ C18

pub fn c18(cx: &mut Cx) {
    let th = cx.thorough;
    let ops = [Op::LIntersect, Op::LSetdiff];
    cx.section("core: pairs of all labelled families");
    for (s, al) in [
        (&[2usize, 2][..], &[0i64, 1, U][..]),
        (&[2, 2], &[0, 1, 2, U]),
        (&[3], &[0, 1, 7, U]),
        (&[4], &[0, 1, U]),
        (&[2, 3], &[0, U]),
        (&[2, 3], &[0, 1, U]),
        (&[2, 2, 2], &[3, U]),
    ] {
        let f = vfuns(s, al);
        if f.len() > 300 {
            pairs::<ZmC>(cx, &Layout::std(s), &f, &f, &ops, false, false);
            continue;
        }
        for l in layouts(s, true) {
            pairs::<ZmC>(cx, &l, &f, &f, &ops, false, false);
        }
    }
    cx.section("core: pairs with empty computed tables, reversed construction");
    for (s, al) in [(&[2usize, 2][..], &[0i64, 1, U][..]), (&[3], &[0, 1, U])] {
        let f = vfuns(s, al);
        for l in layouts(s, false) {
            pairs::<ZmC>(cx, &l, &f, &f, &ops, true, false);
            pairs::<ZmC>(cx, &l, &f, &f, &ops, false, true);
        }
    }
    if th {
        let f = vfuns(&[2, 2, 2], &[0, 1, U]);
        pairs::<ZmC>(cx, &Layout::std(&[2, 2, 2]), &f, &f, &ops, false, false);
    }
    cx.section("handle histories with drops, clones and collections");
    crate::eng::sequences::<crate::p_gc::MssMachine>(cx, 4);
    cx.section("operations across collections: every slot recycled");
    crate::eng::epochs::<ZmC>(cx, &Layout::std(&[2, 3]), &crate::p_gc::shapes_zm(), &[0, 2, 6, 12]);
    cx.section("families on recycled places");
    let mono: Vec<Fun> = mono_tables(&Dom::new(&[2, 3]), &[0, 1, 2]).into_iter().map(Fun::v).collect();
    let others = mono.clone();
    crate::p_recycled::mss_families(cx, "intersect and setdiff", &[2, 3], &mono, &|m, x, h, d, f| {
        let names: Vec<String> = (0..d.n()).map(nm).collect();
        let read = |z: &mss::prelude::ZmddNode<i64>, cut: bool| -> Result<Vec<i64>, String> {
            let mut t = vec![U; d.points()];
            for v in z.labels() {
                for x in z.extract(&hs(&[v])) {
                    ensure!(x.iter().all(|(k, s)| names.contains(k) || *s == cut as usize), "{:?}", x);
                    let x: HashMap<String, usize> = x.into_iter().filter(|(k, _)| names.contains(k)).collect();
                    for p in points(d, &names, std::iter::once(x))? {
                        ensure!(t[p] == U, "vector twice");
                        t[p] = v;
                    }
                }
            }
            Ok(t)
        };
        for cut in [false, true] {
            let a = if cut { m.mincut(h) } else { m.minpath(h) }.ok_or("None")?;
            let ta = strata(d, &f.t, cut);
            ensure!(read(&a, cut)? == ta, "the family itself");
            for g in others.iter().step_by(3) {
                let k = mss_build(m.mdd(), x, g, &d.sizes);
                let b = if cut { m.mincut(&k) } else { m.minpath(&k) }.ok_or("None")?;
                let tb = strata(d, &g.t, cut);
                let (i, s) = (a.intersect(&b), a.setdiff(&b));
                let e: Vec<i64> = (0..ta.len()).map(|p| if ta[p] == tb[p] { ta[p] } else { U }).collect();
                ensure!(read(&i, cut)? == e, "intersection with that of {}", g.show());
                let e: Vec<i64> = (0..ta.len()).map(|p| if ta[p] == tb[p] { U } else { ta[p] }).collect();
                ensure!(read(&s, cut)? == e, "difference with that of {}", g.show());
            }
        }
        Ok(())
    });
    cx.section("families of systems of 30 components in closed form");
    crate::p_large::min_mss(cx);
    crate::p_long::long_families(cx);
    cx.section("forests of a million families: every family as an operand");
    let n = 1u32 << if th { 21 } else { 19 };
    crate::p_long::big::<ZmC>(cx, n, &crate::p_long::label_forms());
    crate::p_long::huge::<ZmC>(cx, if th { 21 } else { 20 }, crate::p_long::VU1, &[Op::LIntersect, Op::LSetdiff]);
    cx.section("core: setting the baseline member");
    for (s, al) in [(&[2usize, 2][..], &[0i64, 1, U][..]), (&[3], &[0, 1, 2, U]), (&[2, 3], &[0, 1, U]), (&[2, 2, 2], &[1, U])] {
        let f = vfuns(s, al);
        for (a, b) in chunks(f.len(), 64) {
            if !cx.mine() {
                continue;
            }
            let f = &f;
            cx.case(
                || format!("families {} to {} over {:?}, baseline set to -1, 0, 1, 5", a, b, s),
                |cx| {
                    let mut bank = Bank::<ZmC>::new(&Layout::std(s));
                    for x in &f[a..b] {
                        let id = bank.id(x)?;
                        for v in [-1i64, 0, 1, 5] {
                            let r = bank.c.m.set_baseline(id as usize, v) as u64;
                            let mut e = x.clone();
                            if e.t[0] == U {
                                e.t[0] = v;
                            }
                            bank.check_is(&e, r).map_err(|m| format!("baseline {} of {}: {}", v, x.show(), m))?;
                            ensure!(bank.c.table(id)? == *x, "the operand changed");
                        }
                    }
                    cx.states((b - a) as u64);
                    cx.trans(4 * (b - a) as u64);
                    Ok(())
                },
            );
        }
    }
    for cut in [false, true] {
        cx.section(if cut { "cut families of all pairs of monotone functions" } else { "path families of all pairs of monotone functions" });
        for (s, al) in [(&[2usize, 3][..], &[0i64, 1, 2][..]), (&[2, 2, 2], &[0, 1]), (&[3, 3], &[0, 1]), (&[4], &[0, 1, 2, 3]), (&[2, 2], &[-1, 0, 1, 2])] {
            fam_pairs(cx, s, &mono_tables(&Dom::new(s), al), cut, al == [0, 1]);
        }
        fam_pairs(cx, &[2, 2, 2], &mono_tables(&Dom::new(&[2, 2, 2]), &[0, 1, 2]), cut, false);
        fam_pairs(cx, &[3, 3], &mono_tables(&Dom::new(&[3, 3]), &[0, 1, 2]), cut, false);
        fam_pairs(cx, &[2, 2, 2, 2], &mono_tables(&Dom::new(&[2, 2, 2, 2]), &[0, 1]), cut, true);
        if th {
            fam_pairs(cx, &[3, 3, 2], &mono_tables(&Dom::new(&[3, 3, 2]), &[0, 1]), cut, true);
            fam_pairs(cx, &[4, 4], &mono_tables(&Dom::new(&[4, 4]), &[0, 1, 2]), cut, false);
            fam_pairs(cx, &[2, 2, 2], &mono_tables(&Dom::new(&[2, 2, 2]), &[-1, 0, 1, 2]), cut, false);
        }
        for sizes in WIDE {
            let d = Dom::new(sizes);
            for boolean in [true, false] {
                let ts = wide_tables(&d, boolean);
                let k = ts.len().div_ceil(18);
                let ts: Vec<Vec<i64>> = ts.into_iter().step_by(k).collect();
                fam_pairs(cx, sizes, &ts, cut, boolean);
            }
        }
        cx.section("chains of two operations, every association");
        fam_chains(cx, &[2, 2], &mono_tables(&Dom::new(&[2, 2]), &[0, 1, 2]), cut);
        fam_chains(cx, &[2, 3], &mono_tables(&Dom::new(&[2, 3]), &[0, 1]), cut);
    }
}

fn lw(x: &[i64], y: &[i64], diff: bool) -> Vec<i64> {
    x.iter().zip(y).map(|(&u, &v)| if (u == v) != diff { u } else { U }).collect()
}

fn fam_pairs(cx: &mut Cx, sizes: &[usize], mono: &[Vec<i64>], cut: bool, boolean: bool) {
    let d = Dom::new(sizes);
    let names: Vec<String> = (0..sizes.len()).map(nm).collect();
    for i in 0..mono.len() {
        if !cx.mine() {
            continue;
        }
        let (d, names) = (&d, &names);
        cx.case(
            || if d.points() > 100 {
                format!("{} family of wide function {} of {} with every other over {:?}", if cut { "cut" } else { "path" }, i, mono.len(), sizes)
            } else {
                format!("{} family of {:?} with that of every monotone function over {:?}", if cut { "cut" } else { "path" }, mono[i], sizes)
            },
            |cx| {
                let (m, x) = mks(sizes);
                let mkf = |t: &Vec<i64>| -> Result<(ZmddNode<i64>, Vec<i64>), String> {
                    let f = if boolean { Fun::b(t.clone()) } else { Fun::v(t.clone()) };
                    let h = mss_build(m.mdd(), &x, &f, sizes);
                    Ok((if cut { m.mincut(&h) } else { m.minpath(&h) }.ok_or("None for a monotone function")?, strata(d, t, cut)))
                };
                let (a, sa) = mkf(&mono[i])?;
                let mut ids: HashMap<Vec<i64>, (usize, ZmddNode<i64>)> = HashMap::new();
                ids.insert(sa.clone(), (a.get_id(), a.clone()));
                for (j, t) in mono.iter().enumerate() {
                    at(&[i as u64, j as u64]);
                    let (b, sb) = mkf(t)?;
                    for (z, e, what) in [
                        (b.clone(), sb.clone(), "the family"),
                        (a.intersect(&b), lw(&sa, &sb, false), "a intersect b"),
                        (b.intersect(&a), lw(&sb, &sa, false), "b intersect a"),
                        (a.setdiff(&b), lw(&sa, &sb, true), "a - b"),
                        (b.setdiff(&a), lw(&sb, &sa, true), "b - a"),
                    ] {
                        match ids.get(&e) {
                            Some((id, _)) if *id == z.get_id() => {}
                            known => {
                                let g = read_family(&z, d, names, cut).map_err(|x| format!("{} for b of {:?}: {}", what, t, x))?;
                                ensure!(g == e, "{} for b of {:?} is {} instead of {}", what, t, Fun::v(g).show(), Fun::v(e).show());
                                ensure!(known.is_none(), "{} for b of {:?} is a second node of the same family", what, t);
                                ids.insert(e, (z.get_id(), z));
                            }
                        }
                    }
                }
                for (e, (_, z)) in &ids {
                    ensure!(read_family(z, d, names, cut)? == *e, "a family changed later");
                }
                cx.states(1);
                cx.trans(4 * mono.len() as u64);
                Ok(())
            },
        );
    }
}

fn fam_chains(cx: &mut Cx, sizes: &[usize], mono: &[Vec<i64>], cut: bool) {
    let d = Dom::new(sizes);
    let names: Vec<String> = (0..sizes.len()).map(nm).collect();
    for i in 0..mono.len() {
        if !cx.mine() {
            continue;
        }
        let (d, names) = (&d, &names);
        cx.case(
            || format!("cut={} a of {:?}, every b and c: (a op b) op c and a op (b op c)", cut, mono[i]),
            |cx| {
                let (m, x) = mks(sizes);
                let fams: Vec<(ZmddNode<i64>, Vec<i64>)> = mono
                    .iter()
                    .map(|t| {
                        let h = mss_build(m.mdd(), &x, &Fun::v(t.clone()), sizes);
                        (if cut { m.mincut(&h) } else { m.minpath(&h) }.unwrap(), strata(d, t, cut))
                    })
                    .collect();
                let mut ids: HashMap<Vec<i64>, (usize, ZmddNode<i64>)> = HashMap::new();
                let ap = |p: &ZmddNode<i64>, q: &ZmddNode<i64>, diff: bool| if diff { p.setdiff(q) } else { p.intersect(q) };
                let (a, sa) = &fams[i];
                for (b, sb) in &fams {
                    for (c, sc) in &fams {
                        for o in 0..4 {
                            let (o1, o2) = (o & 1 == 1, o & 2 == 2);
                            for (z, e) in [
                                (ap(&ap(a, b, o1), c, o2), lw(&lw(sa, sb, o1), sc, o2)),
                                (ap(a, &ap(b, c, o1), o2), lw(sa, &lw(sb, sc, o1), o2)),
                            ] {
                                match ids.get(&e) {
                                    Some((id, _)) if *id == z.get_id() => {}
                                    known => {
                                        let g = read_family(&z, d, names, cut)?;
                                        ensure!(g == e, "chain {} is {} instead of {}", o, Fun::v(g).show(), Fun::v(e).show());
                                        ensure!(known.is_none(), "chain {} gives a second node of the same family", o);
                                        ids.insert(e, (z.get_id(), z));
                                    }
                                }
                            }
                        }
                    }
                }
                cx.states(1);
                cx.trans(16 * (mono.len() * mono.len()) as u64);
                Ok(())
            },
        );
    }
}

fn long_rpn(cx: &mut Cx) {
    use crate::p_bss::{long_tokens, short_err};
    for n in [3usize, 17, 100, 255, 256, 257, 1000, 5000, 70_000] {
        for shape in 0..6 {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("expressions of shape {} and length {}", shape, n),
                |cx| {
                    let rg = ranges();
                    for (ops, vars) in [
                        (&["min", "max"][..], &["x", "y", "1"][..]),
                        (&["max", "-", "min", "+"], &["y", "2", "x"]),
                        (&["-"], &["x", "y", "3"]),
                        (&["min"], &["y", "x"]),
                        (&["&&", "||"], &["True", "False", "True"]),
                    ] {
                        if ops.contains(&"-") && n > 1000 && (shape == 3 || shape == 2) {
                            continue; // values outgrow i64
                        }
                        for thr in [1usize << 20, 1, 40] {
                            let t = long_tokens(shape, n, ops, vars);
                            let mut r = Rpn::new();
                            let mut ok = true;
                            for x in &t {
                                match r.step(x) {
                                    Step::Ok => {}
                                    Step::Error => {
                                        ok = false;
                                        break;
                                    }
                                    Step::Skip => return Err(format!("reference cannot read {}", x)),
                                }
                            }
                            ok &= r.stack.len() == 1;
                            let mut m = M::new();
                            m.set_gc_threshold(thr);
                            let s = t.join(" ");
                            let mut ids = FxMap::default();
                            for _ in 0..2 {
                                rpn_check(&mut m, &rg, &s, if ok { Some(&r) } else { None }, &mut ids).map_err(short_err)?;
                            }
                            cx.trans(2 * t.len() as u64);
                        }
                    }
                    cx.states(1);
                    cx.traces(30);
                    Ok(())
                },
            );
        }
    }
    for n in [255usize, 256, 257, 700] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{} variables introduced by one expression", n),
            |cx| {
                for op in ["min", "max"] {
                    let mut m = M::new();
                    m.set_gc_threshold(64);
                    let name = |i: usize| format!("w{}", (i * 7919) % 100_003);
                    let rg: HashMap<String, usize> = (0..n).map(|i| (name(i), 2 + i % 2)).collect();
                    let mut t: Vec<String> = (0..n).map(name).collect();
                    for _ in 1..n {
                        t.push(op.to_string());
                    }
                    let h = m.rpn(&t.join(" "), &rg)?;
                    ensure!(m.get_varorder() == (0..n).map(|i| (name(i), 2 + i % 2)).collect::<Vec<_>>(), "variables in order of first use");
                    // walk: one variable away from the neutral state
                    let root = h.clone();
                    let walk = |f: &dyn Fn(usize) -> usize| -> Result<i64, String> {
                        let mut g = root.clone();
                        while let Some(c) = g.get_children() {
                            let l = g.get_level().ok_or("no level")?;
                            g = c[f(l)].clone();
                        }
                        g.value().ok_or("no value".into())
                    };
                    for i in (0..n).step_by(if n > 300 { 7 } else { 1 }) {
                        for s in 0..2 + i % 2 {
                            let neutral = |v: usize| if op == "min" { 1 + v % 2 } else { 0 };
                            let got = walk(&|v| if v == i { s } else { neutral(v) })?;
                            let e = if op == "min" { s.min(1) } else { s } as i64;
                            ensure!(got == e, "{} of {} variables with variable {} in state {}: {}", op, n, i, s, got);
                        }
                    }
                    cx.trans(n as u64);
                }
                cx.states(1);
                Ok(())
            },
        );
    }
}
