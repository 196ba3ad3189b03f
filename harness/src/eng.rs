//! Exploration engines shared by the properties.
use crate::core::*;
use crate::cx::{at, Cx, Res};
use crate::refm::*;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_i64(&mut self, x: i64) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

/// A manager together with the node of every function met so far.
pub struct Bank<C: Core> {
    pub c: C,
    pub known: FxMap<Fun, u64>,
}

impl<C: Core> Bank<C> {
    pub fn new(l: &Layout) -> Self {
        Bank { c: C::new(l), known: FxMap::default() }
    }
    /// The node of `f`: built by node construction and read back on first sight.
    pub fn id(&mut self, f: &Fun) -> Result<u64, String> {
        if let Some(&x) = self.known.get(f) {
            return Ok(x);
        }
        let x = self.c.build(f);
        let t = self.c.table(x)?;
        ensure!(t == *f, "building {} gives a diagram of {}", f.show(), t.show());
        self.known.insert(f.clone(), x);
        Ok(x)
    }
    pub fn check(&mut self, op: Op, args: &[&Fun], r: u64) -> Res {
        let e = refop(op, args);
        self.check_is(&e, r).map_err(|m| {
            format!(
                "{:?}({}) : {}",
                op,
                args.iter().map(|a| a.show()).collect::<Vec<_>>().join(", "),
                m
            )
        })
    }
    /// Result node `r` must be *the* node of function `e`.
    pub fn check_is(&mut self, e: &Fun, r: u64) -> Res {
        let x = self.id(e)?;
        if x != r {
            let t = self.c.table(r)?;
            if t != *e {
                return Err(format!("expected {}, got {}", e.show(), t.show()));
            }
            return Err(format!("right function {} but not the canonical node", e.show()));
        }
        Ok(())
    }
}

/// Three-level layouts exercising header order, level gaps and large levels.
pub fn layouts(sizes: &[usize], all_orders: bool) -> Vec<Layout> {
    let n = sizes.len();
    let seq: Vec<usize> = (0..n).collect();
    let mut v = vec![Layout::std(sizes)];
    let gaps: Vec<usize> = (0..n).map(|i| i * 3 + 1).collect();
    let big: Vec<usize> = (0..n).map(|i| [0usize, 300, 70_000, 5_000_000_000][i.min(3)] + i.saturating_sub(3)).collect();
    let rev: Vec<usize> = seq.iter().rev().copied().collect();
    v.push(Layout::with(sizes, &gaps, &rev));
    v.push(Layout::with(sizes, &big, &seq));
    if all_orders {
        for p in perms(n) {
            if p != seq {
                v.push(Layout::with(sizes, &seq, &p));
            }
        }
    }
    v
}

/// All ordered pairs of `funs` under all binary `ops`, results compared with the reference
/// both as functions and as canonical nodes.
/// `cold`: computed tables emptied before every operation. `rev`: operands built in reverse.
pub fn pairs<C: Core>(cx: &mut Cx, l: &Layout, funs: &[Fun], gs: &[Fun], ops: &[Op], cold: bool, rev: bool) {
    let mut bank: Option<(Bank<C>, Vec<u64>, Vec<u64>)> = None;
    for &op in ops {
        for (i, f) in funs.iter().enumerate() {
            if !cx.mine() {
                continue;
            }
            let l2 = l.clone();
            cx.case(
                || format!("{} {} {:?}({}, every g) cold={} rev={}", C::NAME, l2.show(), op, f.show(), cold, rev),
                |cx| {
                    if bank.is_none() {
                        let mut b = Bank::<C>::new(l);
                        if rev {
                            for f in funs.iter().rev() {
                                b.id(f)?;
                            }
                        }
                        let ids = funs.iter().map(|f| b.id(f)).collect::<Result<Vec<_>, _>>()?;
                        let gids = gs.iter().map(|f| b.id(f)).collect::<Result<Vec<_>, _>>()?;
                        bank = Some((b, ids, gids));
                    }
                    let (b, ids, gids) = bank.as_mut().unwrap();
                    if op == ops[0] && !cold && !rev {
                        cx.states(1);
                    }
                    if op.arity() == 1 {
                        let r = b.c.op(op, &[ids[i]]);
                        cx.trans(1);
                        return b.check(op, &[f], r);
                    }
                    for (j, g) in gs.iter().enumerate() {
                        at(&[i as u64, j as u64]);
                        if cold {
                            b.c.clear_cache();
                        }
                        let r = b.c.op(op, &[ids[i], gids[j]]);
                        b.check(op, &[f, g], r)?;
                    }
                    cx.trans(gs.len() as u64);
                    Ok(())
                },
            );
        }
    }
}

/// All triples under the ternary operation.
pub fn triples<C: Core>(cx: &mut Cx, l: &Layout, fs: &[Fun], gs: &[Fun], hs: &[Fun], cold: bool) {
    let mut bank: Option<(Bank<C>, Vec<u64>, Vec<u64>, Vec<u64>)> = None;
    for (i, f) in fs.iter().enumerate() {
        for (j, g) in gs.iter().enumerate() {
            if !cx.mine() {
                continue;
            }
            let l2 = l.clone();
            cx.case(
                || format!("{} {} ite({}, {}, every h) cold={}", C::NAME, l2.show(), f.show(), g.show(), cold),
                |cx| {
                    if bank.is_none() {
                        let mut b = Bank::<C>::new(l);
                        let a = fs.iter().map(|f| b.id(f)).collect::<Result<Vec<_>, _>>()?;
                        let c = gs.iter().map(|f| b.id(f)).collect::<Result<Vec<_>, _>>()?;
                        let d = hs.iter().map(|f| b.id(f)).collect::<Result<Vec<_>, _>>()?;
                        bank = Some((b, a, c, d));
                    }
                    let (b, fi, gi, hi) = bank.as_mut().unwrap();
                    for (k, h) in hs.iter().enumerate() {
                        at(&[i as u64, j as u64, k as u64]);
                        if cold {
                            b.c.clear_cache();
                        }
                        let r = b.c.op(Op::Ite, &[fi[i], gi[j], hi[k]]);
                        b.check(Op::Ite, &[f, g, h], r)?;
                    }
                    cx.trans(hs.len() as u64);
                    Ok(())
                },
            );
        }
    }
}

/// If-then-else with conditions that are undetermined somewhere: a determined condition selects
/// its branch, an undetermined one gives undetermined, or the common value of equal branches.
pub fn ite_partial<C: Core>(cx: &mut Cx, l: &Layout, fs: &[Fun], gs: &[Fun]) {
    let mut bank: Option<Bank<C>> = None;
    for (i, f) in fs.iter().enumerate() {
        if !cx.mine() {
            continue;
        }
        let l2 = l.clone();
        cx.case(
            || format!("{} {} ite({}, every g, every h)", C::NAME, l2.show(), f.show()),
            |cx| {
                let b = bank.get_or_insert_with(|| Bank::<C>::new(l));
                let x = b.id(f)?;
                let gi = gs.iter().map(|g| b.id(g)).collect::<Result<Vec<_>, _>>()?;
                for (j, g) in gs.iter().enumerate() {
                    for (k, h) in gs.iter().enumerate() {
                        at(&[i as u64, j as u64, k as u64]);
                        let r = b.c.op(Op::Ite, &[x, gi[j], gi[k]]);
                        let t = b.c.table(r)?;
                        for p in 0..t.t.len() {
                            let ok = match f.t[p] {
                                1 => t.t[p] == g.t[p],
                                0 => t.t[p] == h.t[p],
                                _ => t.t[p] == U || (t.t[p] == g.t[p] && g.t[p] == h.t[p]),
                            };
                            ensure!(ok, "g={} h={}: got {}", g.show(), h.show(), t.show());
                        }
                    }
                }
                cx.states(1);
                cx.trans((gs.len() * gs.len()) as u64);
                Ok(())
            },
        );
    }
}

/// One operation with a distinguished operand position, the others taken from `aux`.
#[derive(Clone)]
pub struct Shape {
    pub op: Op,
    pub pos: usize,
    pub aux: Vec<Fun>,
    pub fs: std::rc::Rc<Vec<Fun>>,
}

impl Shape {
    pub fn args<'a>(&'a self, f: &'a Fun) -> Vec<&'a Fun> {
        let mut v: Vec<&Fun> = self.aux.iter().collect();
        v.insert(self.pos, f);
        v
    }
}

/// Garbage-collection histories on one long-lived manager: for every shape, every ordered
/// pair (f, g) and every choice of what is kept,
///   F := f; R := op(F, aux); gc(keep); G := g; S := op(G, aux)
/// and S, and everything kept, must still be exact.
pub fn epochs<C: Core>(cx: &mut Cx, l: &Layout, shapes: &[Shape], masks: &[u32]) {
    let mut c: Option<C> = None;
    for (si, sh) in shapes.iter().enumerate() {
        for &mask in masks {
            for f in sh.fs.iter() {
                if !cx.mine() {
                    continue;
                }
                let l2 = l.clone();
                cx.case(
                    || {
                        format!(
                            "{} {} F={} R={:?}(F at {}, aux {:?}) {}gc keep F={} R={} aux={} then every G, S={:?}(G, aux)",
                            C::NAME, l2.show(), f.show(), sh.op, sh.pos,
                            sh.aux.iter().map(|x| x.show()).collect::<Vec<_>>(),
                            if mask & 8 != 0 { "(new manager) " } else { "" },
                            mask & 1 != 0, mask & 2 != 0, mask & 4 != 0, sh.op
                        )
                    },
                    |cx| {
                        let c = c.get_or_insert_with(|| C::new(l));
                        if mask == masks[0] {
                            cx.states(1);
                        }
                        for (gi, g) in sh.fs.iter().enumerate() {
                            at(&[si as u64, mask as u64, gi as u64]);
                            if mask & 8 != 0 {
                                // no garbage of the previous round, so that the collection below
                                // may find nothing to reclaim in one of several forests
                                *c = C::new(l);
                            }
                            let aux: Vec<u64> = sh.aux.iter().map(|x| c.build(x)).collect();
                            let fid = c.build(f);
                            let mut a = aux.clone();
                            a.insert(sh.pos, fid);
                            let rid = c.op(sh.op, &a);
                            let rf = refop(sh.op, &sh.args(f));
                            let mut roots = vec![];
                            if mask & 1 != 0 {
                                roots.push(fid);
                            }
                            if mask & 2 != 0 {
                                roots.push(rid);
                            }
                            if mask & 4 != 0 {
                                roots.extend(&aux);
                            }
                            let exact = c.reach(&roots)?;
                            c.gc(&roots);
                            ensure!(
                                c.live() == exact.len(),
                                "g={}: after gc {} nodes are live, {} are reachable",
                                g.show(), c.live(), exact.len()
                            );
                            let gid = c.build(g);
                            let aux2: Vec<u64> = sh.aux.iter().map(|x| c.build(x)).collect();
                            let mut a = aux2.clone();
                            a.insert(sh.pos, gid);
                            let sid = c.op(sh.op, &a);
                            let sf = refop(sh.op, &sh.args(g));
                            let chk = |what: &str, id: u64, e: &Fun| -> Res {
                                let t = c.table(id)?;
                                ensure!(t == *e, "g={}: {} is {} instead of {}", g.show(), what, t.show(), e.show());
                                Ok(())
                            };
                            chk("S", sid, &sf)?;
                            chk("G", gid, g)?;
                            if mask & 1 != 0 {
                                chk("kept F", fid, f)?;
                                ensure!((fid == gid) == (f == g), "g={}: node identity of F and G", g.show());
                            }
                            if mask & 2 != 0 {
                                chk("kept R", rid, &rf)?;
                                ensure!(
                                    (rid == sid) == (rf == sf),
                                    "g={}: node identity of R and S: same node {} same function {}",
                                    g.show(), rid == sid, rf == sf
                                );
                            }
                            if mask & 4 != 0 {
                                for (x, e) in aux.iter().zip(&sh.aux) {
                                    chk("kept aux", *x, e)?;
                                }
                                ensure!(aux == aux2, "g={}: kept operands were duplicated", g.show());
                            }
                            let again = c.build(&sf);
                            ensure!(again == sid, "g={}: S is not the canonical node of {}", g.show(), sf.show());
                        }
                        cx.trans(2 * sh.fs.len() as u64);
                        cx.traces(sh.fs.len() as u64);
                        Ok(())
                    },
                );
            }
        }
    }
}

/// gc with every pair of roots out of a forest holding all `funs`; the survivors are exact,
/// the live count is exact, and the rebuilt forest is canonical.
pub fn gc_roots<C: Core>(cx: &mut Cx, l: &Layout, funs: &[Fun], ops: &[Op]) {
    let mut c: Option<C> = None;
    for (i, f) in funs.iter().enumerate() {
        if !cx.mine() {
            continue;
        }
        let l2 = l.clone();
        cx.case(
            || format!("{} {} forest of {} functions, gc with roots {{{}, every g}}", C::NAME, l2.show(), funs.len(), f.show()),
            |cx| {
                let c = c.get_or_insert_with(|| C::new(l));
                cx.states(1);
                for (j, g) in funs.iter().enumerate().skip(i) {
                    at(&[i as u64, j as u64]);
                    for x in funs.iter() {
                        c.build(x);
                    }
                    let (a, b) = (c.build(f), c.build(g));
                    let op = ops[(i + j) % ops.len()];
                    let args: Vec<u64> = [a, b, a][..op.arity()].to_vec();
                    let rargs: Vec<&Fun> = [f, g, f][..op.arity()].to_vec();
                    c.op(op, &args);
                    let keep = c.reach(&[a, b])?;
                    c.gc(&[a, b]);
                    ensure!(c.live() == keep.len(), "g={}: {} live after gc, {} reachable", g.show(), c.live(), keep.len());
                    for (id, e) in [(a, f), (b, g)] {
                        let t = c.table(id)?;
                        ensure!(t == *e, "g={}: kept {} became {}", g.show(), e.show(), t.show());
                    }
                    let r = c.op(op, &args);
                    let e = refop(op, &rargs);
                    let t = c.table(r)?;
                    ensure!(t == e, "g={}: {:?} after gc gives {} instead of {}", g.show(), op, t.show(), e.show());
                    ensure!(c.build(&e) == r, "g={}: {:?} after gc is not canonical", g.show(), op);
                    ensure!(c.build(f) == a && c.build(g) == b, "g={}: kept node was duplicated", g.show());
                }
                cx.trans(2 * (funs.len() - i) as u64);
                cx.traces((funs.len() - i) as u64);
                Ok(())
            },
        );
    }
}

/// A machine over handles: actions on a few registers. `act` returns false when the action is
/// not enabled. `check` compares every live handle with the reference.
pub trait Machine: Sized {
    const NAME: &'static str;
    fn new() -> Self;
    fn n_actions() -> usize;
    fn name(a: usize) -> &'static str;
    fn act(&mut self, a: usize) -> Result<bool, String>;
    fn check(&mut self) -> Res;
    fn finish(&mut self) -> Res;
    /// Back to the initial registers on the same manager (whose arrays, free lists and computed
    /// tables keep their past).
    fn reset(&mut self) {
        *self = Self::new();
    }
}

pub fn seq_names<M: Machine>(s: &[usize]) -> String {
    s.iter().map(|&a| M::name(a)).collect::<Vec<_>>().join(" ; ")
}

/// Every enabled sequence of exactly `depth` actions (all shorter ones are its prefixes),
/// each on a fresh manager, checked after every action.
pub fn sequences<M: Machine>(cx: &mut Cx, depth: usize) {
    let n = M::n_actions();
    for a in 0..n {
        for b in 0..n {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("{}: all histories of {} actions starting with [{}]", M::NAME, depth, seq_names::<M>(&[a, b])),
                |cx| {
                    let mut s = vec![0; depth];
                    s[0] = a;
                    s[1] = b;
                    loop {
                        let mut failed_at = None;
                        {
                            let mut m = M::new();
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
                                for (i, &x) in s.iter().enumerate() {
                                    if !m.act(x)? {
                                        failed_at = Some(i);
                                        return Ok(());
                                    }
                                    m.check()?;
                                }
                                m.finish()
                            }));
                            match r {
                                Ok(Ok(())) => {}
                                Ok(Err(e)) => return Err(format!("history [{}]: {}", seq_names::<M>(&s), e)),
                                Err(_) => {
                                    // the manager may be poisoned: leak it
                                    std::mem::forget(m);
                                    return Err(format!(
                                        "history [{}]: panic {}",
                                        seq_names::<M>(&s),
                                        crate::cx::LAST_PANIC.with(|p| p.borrow().clone())
                                    ));
                                }
                            }
                        }
                        let pos = match failed_at {
                            Some(i) => i,
                            None => {
                                cx.traces(1);
                                cx.trans(depth as u64);
                                depth - 1
                            }
                        };
                        // next sequence in order, skipping everything behind a disabled action
                        let mut p = pos;
                        for q in p + 1..depth {
                            s[q] = 0;
                        }
                        loop {
                            if p < 2 {
                                return Ok(());
                            }
                            s[p] += 1;
                            if s[p] < n {
                                break;
                            }
                            s[p] = 0;
                            p -= 1;
                        }
                    }
                },
            );
        }
    }
    cx.states(0);
}

/// Every enabled sequence of exactly `depth` actions out of `alphabet`, one after the other on a
/// manager that is only emptied in between (one manager per pair of first actions), checked after
/// every action.
pub fn sequences_on<M: Machine>(cx: &mut Cx, alphabet: &[usize], depth: usize) {
    let n = alphabet.len();
    for a in 0..n {
        for b in 0..n {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || {
                    format!(
                        "{}: all histories of {} actions out of {{{}}} starting with [{}], one after the other on one manager",
                        M::NAME, depth, alphabet.iter().map(|&x| M::name(x)).collect::<Vec<_>>().join(", "),
                        seq_names::<M>(&[alphabet[a], alphabet[b]])
                    )
                },
                |cx| {
                    let mut s = vec![0; depth];
                    s[0] = a;
                    s[1] = b;
                    let mut m = std::mem::ManuallyDrop::new(M::new());
                    let mut done = 0u64;
                    let r = loop {
                        let mut failed_at = None;
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
                            for (i, &x) in s.iter().enumerate() {
                                if !m.act(alphabet[x])? {
                                    failed_at = Some(i);
                                    break;
                                }
                                m.check()?;
                            }
                            if failed_at.is_none() {
                                m.finish()?;
                            }
                            m.reset();
                            Ok(())
                        }));
                        let names = || s.iter().map(|&x| M::name(alphabet[x])).collect::<Vec<_>>().join(" ; ");
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(e)) => break Err(format!("history number {} [{}]: {}", done, names(), e)),
                            Err(_) => {
                                break Err(format!(
                                    "history number {} [{}]: panic {}",
                                    done, names(),
                                    crate::cx::LAST_PANIC.with(|p| p.borrow().clone())
                                ))
                            }
                        }
                        let mut p = match failed_at {
                            Some(i) => i,
                            None => {
                                done += 1;
                                depth - 1
                            }
                        };
                        for q in p + 1..depth {
                            s[q] = 0;
                        }
                        loop {
                            if p < 2 {
                                break;
                            }
                            s[p] += 1;
                            if s[p] < n {
                                break;
                            }
                            s[p] = 0;
                            p -= 1;
                        }
                        if p < 2 {
                            break Ok(());
                        }
                    };
                    cx.traces(done);
                    cx.trans(done * depth as u64);
                    if r.is_ok() {
                        unsafe { std::mem::ManuallyDrop::drop(&mut m) };
                    }
                    r
                },
            );
        }
    }
    cx.states(0);
}
