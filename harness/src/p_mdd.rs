//! C05 (multi-valued Boolean diagrams), C06 (arithmetic), C07 (comparisons, conditionals).
use crate::core::*;
use crate::cx::{at, Cx};
use crate::eng::*;
use crate::p_gc::{mss_build, mss_table};
use crate::refm::*;
use mss::prelude::{MddMgr, MddNode};

pub fn bfuns(sizes: &[usize]) -> Vec<Fun> {
    all_tables(Dom::new(sizes).points(), &[0, 1]).into_iter().map(Fun::b).collect()
}
pub fn ufuns(sizes: &[usize]) -> Vec<Fun> {
    all_tables(Dom::new(sizes).points(), &[0, 1, U]).into_iter().map(Fun::b).collect()
}
pub fn vfuns(sizes: &[usize], al: &[i64]) -> Vec<Fun> {
    all_tables(Dom::new(sizes).points(), al).into_iter().map(Fun::v).collect()
}

const BIN: &[Op] = &[Op::And, Op::Or, Op::Xor, Op::Imp, Op::Nand, Op::Nor, Op::Xnor];

pub fn c05(cx: &mut Cx) {
    cx.section("pairs of all Boolean functions over mixed domains, 7 operations");
    for sz in [vec![2], vec![3], vec![4], vec![5], vec![2, 2], vec![2, 3], vec![3, 2], vec![2, 4], vec![4, 2], vec![2, 2, 2]] {
        let f = bfuns(&sz);
        for l in layouts(&sz, true) {
            pairs::<MddC>(cx, &l, &f, &f, BIN, false, false);
        }
        pairs::<MddC>(cx, &Layout::std(&sz), &f, &f, &[Op::Not], false, false);
    }
    let f33 = bfuns(&[3, 3]);
    pairs::<MddC>(cx, &Layout::std(&[3, 3]), &f33, &f33, BIN, false, false);
    cx.section("pairs with empty computed tables, reversed construction");
    for sz in [vec![3], vec![2, 3], vec![3, 2], vec![2, 2, 2]] {
        let f = bfuns(&sz);
        pairs::<MddC>(cx, &Layout::std(&sz), &f, &f, BIN, true, false);
        pairs::<MddC>(cx, &Layout::std(&sz), &f, &f, BIN, false, true);
    }
    cx.section("if-then-else of all triples");
    for sz in [vec![3], vec![4], vec![2, 2], vec![2, 3], vec![3, 2]] {
        let f = bfuns(&sz);
        for l in layouts(&sz, sz.len() == 2) {
            triples::<MddC>(cx, &l, &f, &f, &f, false);
        }
        if f.len() <= 16 {
            triples::<MddC>(cx, &Layout::std(&sz), &f, &f, &f, true);
        }
    }
    let f222 = bfuns(&[2, 2, 2]);
    let k222: Vec<Fun> = if cx.thorough { f222.clone() } else { f222.iter().step_by(5).cloned().collect() };
    triples::<MddC>(cx, &Layout::std(&[2, 2, 2]), &k222, &f222, &f222, false);
    cx.section("undetermined points: if-then-else branches, negation, filling");
    for sz in [vec![2], vec![3], vec![2, 2]] {
        let (f, u) = (bfuns(&sz), ufuns(&sz));
        triples::<MddC>(cx, &Layout::std(&sz), &f, &u, &u, false);
        for l in layouts(&sz, true) {
            ite_partial::<MddC>(cx, &l, &u, &u);
        }
    }
    for sz in [vec![2], vec![3], vec![2, 2], vec![2, 3], vec![3, 2]] {
        let u = ufuns(&sz);
        pairs::<MddC>(cx, &Layout::std(&sz), &u, &u, &[Op::Not, Op::Replace], false, false);
        if u.len() < 100 {
            pairs::<MddC>(cx, &Layout::std(&sz), &u, &u, &[Op::Replace], true, false);
        }
    }
    cx.section("variables with many states");
    wide(cx);
    cx.section("more than 2^16 nodes and variables");
    large(cx);
    cx.section("handles: pairs and conditionals over (2,3)");
    wrapper_bool(cx);
    cx.section("handle histories with drops, clones and collections");
    crate::eng::sequences::<crate::p_gc::MssMachine>(cx, 4);
    cx.section("operations across collections: every slot recycled");
    crate::eng::epochs::<MddC>(cx, &Layout::std(&[2, 3]), &crate::p_gc::shapes_mdd(), &[0, 2, 6, 12]);
    cx.section("forests of a million nodes: every node as an operand");
    let n = 1u32 << if cx.thorough { 21 } else { 19 };
    crate::p_long::big::<MddC>(cx, n, &crate::p_long::mdd_forms());
    crate::p_long::huge::<MddC>(cx, if cx.thorough { 21 } else { 20 }, crate::p_long::B01, &[Op::And, Op::Or, Op::Xor, Op::Imp]);
    if cx.thorough {
        cx.section("pairs of all Boolean functions over (2,2,3) and (3,3)");
        let f = bfuns(&[2, 2, 3]);
        pairs::<MddC>(cx, &Layout::std(&[2, 2, 3]), &f, &f, BIN, false, false);
        for l in layouts(&[3, 3], true) {
            pairs::<MddC>(cx, &l, &f33, &f33, BIN, true, false);
        }
        cx.section("if-then-else of triples over (3,3)");
        let k: Vec<Fun> = f33.iter().step_by(3).cloned().collect();
        triples::<MddC>(cx, &Layout::std(&[3, 3]), &k, &f33, &f33, false);
    }
}

fn wide(cx: &mut Cx) {
    for sz in [[255usize, 3], [256, 2], [257, 2], [3, 300], [2, 70_000]] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("domain {:?}: thresholds and single states of the wide variable, all pairs of 24", sz),
            |cx| {
                let l = Layout::std(&sz);
                let w = if sz[0] > sz[1] { 0 } else { 1 };
                let n = sz[w];
                let d = Dom::new(&sz);
                let xs: Vec<usize> = (0..d.points()).map(|p| d.digits(p)[w]).collect();
                let ys: Vec<usize> = (0..d.points()).map(|p| d.digits(p)[1 - w]).collect();
                let cut = [0, 1, n / 2, n - 2, n - 1, 254 % n, 255 % n, 256 % n];
                let mut fs: Vec<Fun> = vec![];
                for &c in &cut {
                    fs.push(Fun::b(xs.iter().map(|&x| (x >= c) as i64).collect()));
                    fs.push(Fun::b(xs.iter().map(|&x| (x == c) as i64).collect()));
                    fs.push(Fun::b(xs.iter().zip(&ys).map(|(&x, &y)| (x == c || (y == 1 && x % 7 == 3)) as i64).collect()));
                }
                let few = n > 1000;
                let fs: Vec<Fun> = if few { fs.into_iter().step_by(4).collect() } else { fs };
                let mut b = Bank::<MddC>::new(&l);
                let ids = fs.iter().map(|f| b.id(f)).collect::<Result<Vec<_>, _>>()?;
                for i in 0..fs.len() {
                    for j in 0..fs.len() {
                        at(&[i as u64, j as u64]);
                        for &op in BIN {
                            let r = b.c.op(op, &[ids[i], ids[j]]);
                            b.check(op, &[&fs[i], &fs[j]], r).map_err(|e| e.chars().take(400).collect::<String>())?;
                        }
                        let k = (i * 5 + j) % fs.len();
                        let r = b.c.op(Op::Ite, &[ids[i], ids[j], ids[k]]);
                        b.check(Op::Ite, &[&fs[i], &fs[j], &fs[k]], r).map_err(|e| e.chars().take(400).collect::<String>())?;
                    }
                }
                cx.states(fs.len() as u64);
                cx.trans((8 * fs.len() * fs.len()) as u64);
                Ok(())
            },
        );
    }
}

fn large(cx: &mut Cx) {
    if cx.mine() {
        cx.case(
            || "70000 ternary variables: pairs at power-of-two distances".into(),
            |cx| {
                let n = 70_000usize;
                let mut m = mddcore::prelude::MddManager::new();
                let h: Vec<usize> = (0..n).map(|i| m.create_header(i, &format!("v{}", i), 3)).collect();
                let (z, o) = (m.zero(), m.one());
                let x: Vec<usize> = h.iter().map(|&h| m.create_node(h, &[z, z, o])).collect();
                let y: Vec<usize> = h.iter().map(|&h| m.create_node(h, &[z, o, o])).collect();
                let mut s: Vec<usize> = x.iter().chain(&y).copied().collect();
                s.sort();
                s.dedup();
                ensure!(s.len() == 2 * n, "two variables share a node");
                let mut cnt = 0;
                for e in 0..17 {
                    for i in (0..n).step_by(997) {
                        let j = i + (1usize << e);
                        if j >= n {
                            break;
                        }
                        let a = m.and(x[i], y[j]);
                        let ae = m.create_node(h[j], &[z, x[i], x[i]]);
                        let b = m.or(y[j], x[i]);
                        let be = m.create_node(h[j], &[x[i], o, o]);
                        let c = m.xor(y[i], x[j]);
                        let ni = m.create_node(h[i], &[o, z, z]);
                        let ce = m.create_node(h[j], &[y[i], y[i], ni]);
                        let d = m.ite(y[j], x[i], y[i]);
                        let de = m.create_node(h[j], &[y[i], x[i], x[i]]);
                        ensure!(a == ae && b == be && c == ce && d == de, "operations on variables {} {}", i, j);
                        cnt += 4;
                    }
                }
                cx.states(2 * n as u64);
                cx.trans(cnt);
                Ok(())
            },
        );
    }
    if cx.mine() {
        cx.case(
            || "domain (2,2,2,2,3): 2^17 nodes built from pairs of 4-variable functions".into(),
            |cx| {
                let l = Layout::std(&[2, 2, 2, 2, 3]);
                let mut c = MddC::new(&l);
                let n = 1u64 << 16;
                let ids: Vec<u64> = (0..n)
                    .map(|f| {
                        let t = bits(16, f);
                        let mut tt = t.clone();
                        tt.extend(t.clone());
                        tt.extend(t);
                        c.build(&Fun::b(tt))
                    })
                    .collect();
                let (z, o) = (c.m.zero() as u64, c.m.one() as u64);
                let x4 = c.mk(BOOL, 4, &[z, o, z]);
                let mut seen = FxMap::default();
                for f in 0..n {
                    let g = (f * 40503 + 7) & 0xffff;
                    for (a, b) in [(f, g), (g ^ 0x8000, f)] {
                        let r = c.op(Op::Ite, &[x4, ids[a as usize], ids[b as usize]]);
                        let e = c.mk(BOOL, 4, &[ids[b as usize], ids[a as usize], ids[b as usize]]);
                        ensure!(r == e, "ite(x4=1, {:#x}, {:#x})", a, b);
                        if let Some(k) = seen.insert(r, (a, b)) {
                            ensure!(k == (a, b), "one node for {:?} and {:?}", k, (a, b));
                        }
                        let nn = c.op(Op::Not, &[r]);
                        ensure!(c.op(Op::And, &[nn, r]) == z && c.op(Op::Or, &[r, nn]) == o && c.op(Op::Xor, &[r, nn]) == o, "complement laws for {:?}", (a, b));
                    }
                }
                for (r, (a, b)) in seen.iter() {
                    let t = c.table(*r)?;
                    let e: Vec<i64> = bits(16, *b).into_iter().chain(bits(16, *a)).chain(bits(16, *b)).collect();
                    ensure!(t.t == e, "{:?} reads back wrong", (a, b));
                }
                cx.states(seen.len() as u64);
                cx.trans(5 * seen.len() as u64);
                Ok(())
            },
        );
    }
}

pub fn hop(op: Op, a: &MddNode<i64>, b: &MddNode<i64>) -> MddNode<i64> {
    match op {
        Op::And => a.and(b),
        Op::Or => a.or(b),
        Op::Xor => a.xor(b),
        Op::Add => a.add(b),
        Op::Sub => a.sub(b),
        Op::Mul => a.mul(b),
        Op::Div => a.div(b),
        Op::Min => a.min(b),
        Op::Max => a.max(b),
        Op::Eq => a.eq(b),
        Op::Neq => a.ne(b),
        Op::Lt => a.lt(b),
        Op::Lte => a.le(b),
        Op::Gt => a.gt(b),
        Op::Gte => a.ge(b),
        _ => unreachable!(),
    }
}

/// Handles: all pairs of `funs` under `ops`, results compared by node with canonical handles.
pub fn handle_pairs(cx: &mut Cx, sizes: &[usize], funs: &[Fun], ops: &[Op]) {
    let mut st: Option<(MddMgr<i64>, Vec<MddNode<i64>>, Vec<MddNode<i64>>, FxMap<Fun, MddNode<i64>>)> = None;
    for (i, f) in funs.iter().enumerate() {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("handles over {:?}: {} with every g under {:?}", sizes, f.show(), ops),
            |cx| {
                let (m, x, hs, known) = st.get_or_insert_with(|| {
                    let mut m: MddMgr<i64> = MddMgr::new();
                    let x: Vec<MddNode<i64>> = sizes.iter().enumerate().map(|(v, &s)| m.defvar(&nm(v), s)).collect();
                    let hs = funs.iter().map(|f| mss_build(&m, &x, f, sizes)).collect();
                    (m, x, hs, FxMap::default())
                });
                let t = mss_table(&hs[i], sizes)?;
                ensure!(t == *f, "handle reads back as {}", t.show());
                for (j, g) in funs.iter().enumerate() {
                    at(&[i as u64, j as u64]);
                    for &op in ops {
                        let r = if op == Op::Not { hs[i].not() } else { hop(op, &hs[i], &hs[j]) };
                        let e = if op == Op::Not { refop(op, &[f]) } else { refop(op, &[f, g]) };
                        let want = known.entry(e.clone()).or_insert_with(|| mss_build(m, x, &e, sizes));
                        if r.get_node() != want.get_node() {
                            let t = mss_table(&r, sizes)?;
                            return Err(format!("{:?} with {}: got {} (canonical: {}), expected {}", op, g.show(), t.show(), t != e, e.show()));
                        }
                    }
                }
                cx.states(1);
                cx.trans((funs.len() * ops.len()) as u64);
                Ok(())
            },
        );
    }
}

pub fn handle_ite(cx: &mut Cx, sizes: &[usize], conds: &[Fun], br: &[Fun]) {
    let mut st: Option<(MddMgr<i64>, Vec<MddNode<i64>>, Vec<MddNode<i64>>, Vec<MddNode<i64>>, FxMap<Fun, MddNode<i64>>)> = None;
    for (i, f) in conds.iter().enumerate() {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("handles over {:?}: ite({}, every g, every h)", sizes, f.show()),
            |cx| {
                let (m, x, cs, bs, known) = st.get_or_insert_with(|| {
                    let mut m: MddMgr<i64> = MddMgr::new();
                    let x: Vec<MddNode<i64>> = sizes.iter().enumerate().map(|(v, &s)| m.defvar(&nm(v), s)).collect();
                    let cs = conds.iter().map(|f| mss_build(&m, &x, f, sizes)).collect();
                    let bs = br.iter().map(|f| mss_build(&m, &x, f, sizes)).collect();
                    (m, x, cs, bs, FxMap::default())
                });
                for (j, g) in br.iter().enumerate() {
                    for (k, h) in br.iter().enumerate() {
                        at(&[i as u64, j as u64, k as u64]);
                        let r = cs[i].ite(&bs[j], &bs[k]);
                        let e = refop(Op::Ite, &[f, g, h]);
                        let want = known.entry(e.clone()).or_insert_with(|| mss_build(m, x, &e, sizes));
                        if r.get_node() != want.get_node() {
                            let t = mss_table(&r, sizes)?;
                            return Err(format!("ite(.., {}, {}): got {}, expected {}", g.show(), h.show(), t.show(), e.show()));
                        }
                    }
                }
                cx.states(1);
                cx.trans((br.len() * br.len()) as u64);
                Ok(())
            },
        );
    }
}

fn wrapper_bool(cx: &mut Cx) {
    let f = bfuns(&[2, 3]);
    handle_pairs(cx, &[2, 3], &f, &[Op::And, Op::Or, Op::Xor, Op::Not]);
    let g: Vec<Fun> = f.iter().step_by(if cx.thorough { 1 } else { 3 }).cloned().collect();
    handle_ite(cx, &[2, 3], &f, &g);
    let f = bfuns(&[4]);
    handle_pairs(cx, &[4], &f, &[Op::And, Op::Or, Op::Xor, Op::Not]);
    handle_ite(cx, &[4], &f, &f);
}

// ------------------------------------------------------------------ C06
const ARI: &[Op] = &[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem, Op::Min, Op::Max, Op::Replace];
const ARI2: &[Op] = &[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Min, Op::Max];

pub fn c06(cx: &mut Cx) {
    cx.section("pairs of all value functions, 8 operations");
    let runs: Vec<(Vec<usize>, Vec<i64>)> = vec![
        (vec![2], vec![-7, -2, -1, 0, 1, 2, 3, 100, U]),
        (vec![3], vec![-1, 0, 1, 2, U]),
        (vec![3], vec![-3, 0, 2, 7]),
        (vec![2, 2], vec![-1, 0, 1, U]),
        (vec![2, 2], vec![0, 1, 2, 5]),
        (vec![2, 3], vec![0, 1, 2]),
        (vec![3, 2], vec![0, 1, U]),
        (vec![2, 2, 2], vec![0, 1]),
    ];
    for (sz, al) in &runs {
        let f = vfuns(sz, al);
        for l in layouts(sz, f.len() < 300) {
            pairs::<MtC>(cx, &l, &f, &f, ARI, false, false);
            if f.len() > 600 {
                break;
            }
        }
    }
    cx.section("pairs with empty computed tables, reversed construction");
    for (sz, al) in [(vec![2], vec![-2, -1, 0, 1, 3, U]), (vec![3], vec![-1, 0, 1, U]), (vec![2, 2], vec![0, 1, -2]), (vec![2, 2], vec![1, 2, U])] {
        let f = vfuns(&sz, &al);
        pairs::<MtC>(cx, &Layout::std(&sz), &f, &f, ARI, true, false);
        pairs::<MtC>(cx, &Layout::std(&sz), &f, &f, ARI, false, true);
    }
    cx.section("large magnitudes");
    let big = i64::MAX;
    let f = vfuns(&[2], &[big, -big, big - 1, 1 << 32, (1 << 32) + 1, -(1 << 31), 0, 1, -1, U]);
    pairs::<MtC>(cx, &Layout::std(&[2]), &f, &f, &[Op::Min, Op::Max, Op::Div, Op::Rem, Op::Replace], false, false);
    let h = 1i64 << 61;
    let f = vfuns(&[2], &[h, -h, h - 1, 1 << 32, (1 << 32) + 1, -(1 << 31), 0, 1, -1, U]);
    pairs::<MtC>(cx, &Layout::std(&[2]), &f, &f, &[Op::Add, Op::Sub], false, false);
    let f = vfuns(&[2], &[1 << 30, -(1 << 30), (1 << 16) + 1, 65535, 0, 1, -1, U]);
    pairs::<MtC>(cx, &Layout::std(&[2]), &f, &f, &[Op::Mul], false, false);
    cx.section("combined manager: pairs of all value functions");
    for (sz, al) in [(vec![2], vec![-2, -1, 0, 1, 3, U]), (vec![3], vec![-1, 0, 2, U]), (vec![2, 2], vec![-1, 0, 1, 4]), (vec![2, 3], vec![0, 1])] {
        let f = vfuns(&sz, &al);
        pairs::<Mt2C>(cx, &Layout::std(&sz), &f, &f, ARI2, false, false);
    }
    cx.section("32-bit terminals");
    i32s(cx);
    cx.section("more than 2^16 terminals and nodes");
    large_values(cx);
    cx.section("handles: pairs of all value functions");
    handle_pairs(cx, &[2, 2], &vfuns(&[2, 2], &[-1, 0, 2, 3]), ARI2);
    handle_pairs(cx, &[3], &vfuns(&[3], &[-1, 0, 1, 2, U]), ARI2);
    handle_pairs(cx, &[2, 3], &vfuns(&[2, 3], &[0, 1, 2]).into_iter().step_by(3).collect::<Vec<_>>(), ARI2);
    cx.section("handle histories with drops, clones and collections");
    crate::eng::sequences::<crate::p_gc::MssMachine>(cx, 4);
    cx.section("operations across collections: every slot recycled");
    crate::eng::epochs::<MtC>(cx, &Layout::std(&[2, 3]), &crate::p_gc::shapes_mt(), &[0, 2, 6, 12]);
    cx.section("forests of a million nodes: every node as an operand");
    let n = 1u32 << if cx.thorough { 21 } else { 18 };
    crate::p_long::big::<MtC>(cx, n, &crate::p_long::val_forms());
    crate::p_long::big::<MtC>(cx, n, &crate::p_long::replace_forms());
    crate::p_long::huge::<MtC>(cx, if cx.thorough { 21 } else { 20 }, crate::p_long::V01, &[Op::Add, Op::Sub, Op::Mul, Op::Min, Op::Max]);
    crate::p_long::big::<Mt2C>(cx, n, &crate::p_long::val_forms());
    if cx.thorough {
        cx.section("larger alphabets");
        for (sz, al) in [
            (vec![2, 2], vec![-2, -1, 0, 1, 2, U]),
            (vec![3], vec![-3, -1, 0, 1, 2, 3, U]),
            (vec![2, 3], vec![0, 1, 2, U]),
            (vec![3, 2], vec![-1, 0, 1, 2]),
            (vec![2, 2, 2], vec![0, 1, U]),
        ] {
            let f = vfuns(&sz, &al);
            pairs::<MtC>(cx, &Layout::std(&sz), &f, &f, ARI, false, false);
        }
    }
}

fn i32s(cx: &mut Cx) {
    let vals = [-5i32, -1, 0, 1, 2, 7, i32::MAX, i32::MIN + 1];
    for (a0, &x) in vals.iter().enumerate() {
        for &y in &vals {
            if !cx.mine() {
                continue;
            }
            let _ = a0;
            cx.case(
                || format!("i32 terminals: [{},{}] with every pair of {:?}", x, y, vals),
                |cx| {
                    let mut m: mddcore::prelude::MtMddManager<i32> = mddcore::prelude::MtMddManager::new();
                    let h = m.create_header(0, "x", 2);
                    let mk = |m: &mut mddcore::prelude::MtMddManager<i32>, a: Option<i32>, b: Option<i32>| {
                        let u = m.undet();
                        let p = a.map_or(u, |v| m.value(v));
                        let q = b.map_or(u, |v| m.value(v));
                        m.create_node(h, &[p, q])
                    };
                    let f = mk(&mut m, Some(x), Some(y));
                    for &z in &vals {
                        for &w in &vals {
                            let g = mk(&mut m, Some(z), Some(w));
                            type F = fn(i32, i32) -> Option<i32>;
                            let ops: [(&str, F); 7] = [
                                ("add", |a, b| a.checked_add(b)),
                                ("sub", |a, b| a.checked_sub(b)),
                                ("mul", |a, b| a.checked_mul(b)),
                                ("div", |a, b| if b == 0 { None } else { Some(a / b) }),
                                ("rem", |a, b| if b == 0 { None } else { Some(a % b) }),
                                ("min", |a, b| Some(a.min(b))),
                                ("max", |a, b| Some(a.max(b))),
                            ];
                            for (n, e) in ops {
                                let (p, q) = (e(x, z), e(y, w));
                                let ovf = |a: i32, b: i32| matches!(n, "add" | "sub" | "mul") && e(a, b).is_none();
                                if ovf(x, z) || ovf(y, w) {
                                    continue;
                                }
                                let r = match n {
                                    "add" => m.add(f, g),
                                    "sub" => m.sub(f, g),
                                    "mul" => m.mul(f, g),
                                    "div" => m.div(f, g),
                                    "rem" => m.rem(f, g),
                                    "min" => m.min(f, g),
                                    _ => m.max(f, g),
                                };
                                let want = mk(&mut m, p, q);
                                ensure!(r == want, "{} with [{},{}] is not [{:?},{:?}]", n, z, w, p, q);
                            }
                        }
                    }
                    cx.states(1);
                    cx.trans(64 * 7);
                    Ok(())
                },
            );
        }
    }
}

fn large_values(cx: &mut Cx) {
    if !cx.mine() {
        return;
    }
    cx.case(
        || "17 two-state variables: binary-weighted sum, its multiples and extrema at every vector".into(),
        |cx| {
            let n = 17usize;
            let mut c = MtC::new(&Layout::std(&vec![2; n]));
            let z = c.term(VALUE, 0);
            let mut x = vec![];
            for v in 0..n {
                let w = c.term(VALUE, 1 << v);
                x.push(c.mk(VALUE, v, &[z, w]));
            }
            let mut s = z;
            for v in 0..n {
                s = c.op(Op::Add, &[s, x[(v * 5) % n]]);
            }
            let three = c.term(VALUE, 3);
            let t = c.op(Op::Mul, &[three, s]);
            let s2 = c.op(Op::Add, &[s, s]);
            let t2 = c.op(Op::Add, &[s2, s]);
            ensure!(t == t2, "3*s and s+s+s are different nodes");
            let back = c.op(Op::Div, &[t, three]);
            ensure!(back == s, "3*s/3 is not s");
            let zero = c.op(Op::Sub, &[t, t2]);
            ensure!(zero == z, "s-s is not the constant 0");
            let k = c.term(VALUE, 70_000);
            let mx = c.op(Op::Max, &[s, k]);
            let mn = c.op(Op::Min, &[k, s]);
            let sum = c.op(Op::Add, &[mx, mn]);
            let sk = c.op(Op::Add, &[s, k]);
            ensure!(sum == sk, "max+min is not the sum");
            for p in 0..1usize << n {
                let ev = |mut id: u64| -> Result<i64, String> {
                    loop {
                        match c.view(id)? {
                            View::Term(v) => return Ok(v),
                            View::Node(l, ch) => id = ch[p >> l & 1],
                        }
                    }
                };
                let v = p as i64;
                ensure!(ev(s)? == v, "sum at {:#x} is {}", p, ev(s)?);
                ensure!(ev(mx)? == v.max(70_000) && ev(mn)? == v.min(70_000), "extrema at {:#x}", p);
                if p % 64 == 5 {
                    ensure!(ev(t)? == 3 * v, "3s at {:#x}", p);
                }
            }
            cx.states(1 << n);
            cx.trans(n as u64 + 11);
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ C07
const CMP: &[Op] = &[Op::Eq, Op::Neq, Op::Lt, Op::Lte, Op::Gt, Op::Gte];

pub fn c07(cx: &mut Cx) {
    cx.section("pairs of all value functions, 6 comparisons");
    let runs: Vec<(Vec<usize>, Vec<i64>)> = vec![
        (vec![2], vec![-7, -1, 0, 1, 2, 3, 100, i64::MAX, -i64::MAX]),
        (vec![3], vec![-1, 0, 1, 2, 7]),
        (vec![2, 2], vec![-1, 0, 1, 2]),
        (vec![2, 3], vec![0, 1, 2]),
        (vec![3, 2], vec![-1, 0]),
        (vec![2, 2, 2], vec![0, 1]),
    ];
    for (sz, al) in &runs {
        let f = vfuns(sz, al);
        for l in layouts(sz, f.len() < 300) {
            pairs::<Mt2C>(cx, &l, &f, &f, CMP, false, false);
            if f.len() > 600 {
                break;
            }
        }
    }
    cx.section("comparisons with empty computed tables, reversed construction");
    for (sz, al) in [(vec![3], vec![-1, 0, 1, 2]), (vec![2, 2], vec![0, 1, 2]), (vec![2, 3], vec![0, 1])] {
        let f = vfuns(&sz, &al);
        pairs::<Mt2C>(cx, &Layout::std(&sz), &f, &f, CMP, true, false);
        pairs::<Mt2C>(cx, &Layout::std(&sz), &f, &f, CMP, false, true);
    }
    cx.section("if-then-else between value functions");
    for (sz, al) in [(vec![2], vec![-1, 0, 1, 2, U]), (vec![3], vec![0, 1, 2, U]), (vec![2, 2], vec![0, 1, 2]), (vec![2, 2], vec![1, U])] {
        let (c, f) = (bfuns(&sz), vfuns(&sz, &al));
        for l in layouts(&sz, true) {
            triples::<Mt2C>(cx, &l, &c, &f, &f, false);
        }
        triples::<Mt2C>(cx, &Layout::std(&sz), &c, &f, &f, true);
    }
    let (c, f) = (bfuns(&[2, 3]), vfuns(&[2, 3], &[0, 3]));
    triples::<Mt2C>(cx, &Layout::std(&[2, 3]), &c, &f, &f, false);
    cx.section("if-then-else between Boolean functions in the combined manager");
    for sz in [vec![3], vec![2, 2], vec![2, 3]] {
        let c = bfuns(&sz);
        triples::<Mt2C>(cx, &Layout::std(&sz), &c, &c, &c, false);
        pairs::<Mt2C>(cx, &Layout::std(&sz), &c, &c, &[Op::And, Op::Or, Op::Xor, Op::Not], false, false);
    }
    for sz in [vec![2], vec![3], vec![2, 2]] {
        let (c, u) = (bfuns(&sz), ufuns(&sz));
        triples::<Mt2C>(cx, &Layout::std(&sz), &c, &u, &u, false);
    }
    cx.section("if-then-else with undetermined conditions");
    for (sz, al) in [(vec![2], vec![-1, 0, 1, U]), (vec![3], vec![0, 1, U]), (vec![2, 2], vec![0, 1, U])] {
        let (c, f) = (ufuns(&sz), vfuns(&sz, &al));
        ite_partial::<Mt2C>(cx, &Layout::std(&sz), &c, &f);
        ite_partial::<Mt2C>(cx, &Layout::std(&sz), &c, &c);
    }
    cx.section("guarded values");
    for (sz, al) in [(vec![2], vec![-1, 0, 1, 2, U]), (vec![3], vec![0, 1, 2, U]), (vec![2, 2], vec![0, 1, 2, U]), (vec![2, 3], vec![0, 3, U])] {
        let (c, f) = (bfuns(&sz), vfuns(&sz, &al));
        for l in layouts(&sz, true) {
            pairs::<Mt2C>(cx, &l, &c, &f, &[Op::Vif], false, false);
        }
        pairs::<Mt2C>(cx, &Layout::std(&sz), &c, &f, &[Op::Vif], true, false);
    }
    cx.section("operation mixes on the same operands");
    mixes(cx);
    cx.section("many states and many values");
    wide_cmp(cx);
    cx.section("handles: comparisons and conditionals");
    handle_pairs(cx, &[2, 2], &vfuns(&[2, 2], &[-1, 0, 2, 3]), CMP);
    handle_pairs(cx, &[3], &vfuns(&[3], &[-1, 0, 1, 2, 5]), CMP);
    handle_pairs(cx, &[2, 3], &vfuns(&[2, 3], &[0, 1, 2]).into_iter().step_by(2).collect::<Vec<_>>(), CMP);
    handle_ite(cx, &[2, 2], &bfuns(&[2, 2]), &vfuns(&[2, 2], &[0, 1, U]));
    handle_ite(cx, &[2, 2], &bfuns(&[2, 2]), &ufuns(&[2, 2]));
    handle_ite(cx, &[3], &bfuns(&[3]), &vfuns(&[3], &[-1, 0, 1, 5]));
    cx.section("handle histories with drops, clones and collections");
    crate::eng::sequences::<crate::p_gc::MssMachine>(cx, 4);
    cx.section("operations across collections: every slot recycled");
    crate::eng::epochs::<Mt2C>(cx, &Layout::std(&[2, 3]), &crate::p_gc::shapes_mt2(), &[0, 2, 6, 12, 14]);
    cx.section("forests of a million nodes: every node as an operand");
    let n = 1u32 << if cx.thorough { 21 } else { 18 };
    crate::p_long::big::<Mt2C>(cx, n, &crate::p_long::cmp_forms());
    crate::p_long::huge::<Mt2C>(cx, if cx.thorough { 21 } else { 20 }, crate::p_long::V01, &[Op::Eq, Op::Lt, Op::Gte]);
    if cx.thorough {
        cx.section("larger alphabets");
        for (sz, al) in [(vec![2, 2], vec![-2, -1, 0, 1, 2, 3]), (vec![2, 3], vec![-1, 0, 1, 2]), (vec![3, 2], vec![0, 1, 2]), (vec![2, 2, 2], vec![0, 1, 2])] {
            let f = vfuns(&sz, &al);
            let f: Vec<Fun> = if f.len() > 4100 { f.into_iter().step_by(3).collect() } else { f };
            pairs::<Mt2C>(cx, &Layout::std(&sz), &f, &f, CMP, false, false);
        }
        let (c, f) = (bfuns(&[2, 3]), vfuns(&[2, 3], &[0, 1, U]));
        triples::<Mt2C>(cx, &Layout::std(&[2, 3]), &c, &f, &f, false);
    }
}

/// Every sequence of 2 operations on the same operands in a fresh combined manager.
fn mixes(cx: &mut Cx) {
    let f = vfuns(&[2, 2], &[0, 1, 2]);
    let ops: Vec<Op> = ARI2.iter().chain(CMP).copied().collect();
    for (i, a) in f.iter().enumerate() {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("operand {} with every third operand: every ordered pair of operations on a fresh manager", a.show()),
            |cx| {
                let mut n = 0;
                for (j, b) in f.iter().enumerate() {
                    if (i + j) % 3 != 0 {
                        continue;
                    }
                    for &p in &ops {
                        let mut k = Bank::<Mt2C>::new(&Layout::std(&[2, 2]));
                        let (x, y) = (k.id(a)?, k.id(b)?);
                        for &q in &ops {
                            let r = k.c.op(p, &[x, y]);
                            k.check(p, &[a, b], r)?;
                            let r = k.c.op(q, &[x, y]);
                            k.check(q, &[a, b], r).map_err(|e| format!("after {:?}: {}", p, e))?;
                            let r = k.c.op(q, &[y, x]);
                            k.check(q, &[b, a], r).map_err(|e| format!("after {:?}: {}", p, e))?;
                            n += 3;
                        }
                    }
                }
                cx.states(1);
                cx.trans(n);
                Ok(())
            },
        );
    }
}

fn wide_cmp(cx: &mut Cx) {
    for sz in [[257usize, 2], [3, 300], [2, 70_000]] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("domain {:?}: comparisons of the wide variable with constants, offsets and itself", sz),
            |cx| {
                let l = Layout::std(&sz);
                let d = Dom::new(&sz);
                let w = if sz[0] > sz[1] { 0 } else { 1 };
                let n = sz[w] as i64;
                let x = Fun::v(d.var(w));
                let y = Fun::v(d.var(1 - w));
                let mut fs = vec![x.clone(), y.clone(), refop(Op::Add, &[&x, &y]), Fun::v(x.t.iter().map(|v| n - 1 - v).collect())];
                for c in [0, 1, n / 2, n - 1, 255, 256] {
                    fs.push(Fun::v(d.konst(c)));
                }
                let mut b = Bank::<Mt2C>::new(&l);
                let ids = fs.iter().map(|f| b.id(f)).collect::<Result<Vec<_>, _>>()?;
                for i in 0..fs.len() {
                    for j in 0..fs.len() {
                        at(&[i as u64, j as u64]);
                        for &op in CMP.iter().chain(&[Op::Min, Op::Max, Op::Sub]) {
                            let r = b.c.op(op, &[ids[i], ids[j]]);
                            b.check(op, &[&fs[i], &fs[j]], r).map_err(|e| e.chars().take(400).collect::<String>())?;
                        }
                        let cond = refop(Op::Lt, &[&fs[j], &fs[i]]);
                        let c = b.id(&cond)?;
                        let r = b.c.op(Op::Ite, &[c, ids[i], ids[j]]);
                        b.check(Op::Ite, &[&cond, &fs[i], &fs[j]], r).map_err(|e| e.chars().take(400).collect::<String>())?;
                    }
                }
                cx.states(fs.len() as u64);
                cx.trans((10 * fs.len() * fs.len()) as u64);
                Ok(())
            },
        );
    }
}
