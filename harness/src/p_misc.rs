//! C19 the computed table, C21 dot text and sizes, C22 variables, order, introspection and
//! independence of managers.
use crate::core::*;
use crate::cx::{at, Cx, Res};
use crate::eng::*;
use crate::p_bdd::{build_h, table_h};
use crate::p_gc::{mss_build, mss_table, zdd_table};
use crate::p_mdd::{bfuns, ufuns, vfuns};
use crate::refm::*;
use bss::prelude::{BddMgr, BddNode, BssMgr, ZddMgr, ZddNode};
use common::prelude::ComputeCache;
use mss::prelude::{MddMgr, MddNode, MssMgr};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

// ------------------------------------------------------------------ C19

type Key = (u32, u32, u32);

/// Keys that share a slot with `base` in a fresh table, found by observing evictions. A table
/// that never evicts yields arbitrary keys.
fn rivals(base: Key, n: usize) -> Vec<Key> {
    let mut out = vec![];
    let mut c = ComputeCache::new();
    let gen = |i: u32| (base.0 % 3, i % 251 + 1, i / 251 % 251);
    let mut i = 0;
    while out.len() < n && i < 60_000 {
        let k = gen(i);
        i += 1;
        if k == base {
            continue;
        }
        c.clear();
        c.put(base.0, base.1, base.2, 5);
        c.put(k.0, k.1, k.2, 6);
        if c.get(base.0, base.1, base.2).is_none() {
            out.push(k);
        }
        if i % 4096 == 0 {
            c = ComputeCache::new();
        }
    }
    let mut j = 1;
    while out.len() < n {
        out.push((base.0, base.1 + j, base.2));
        j += 1;
    }
    out
}

struct Table {
    c: ComputeCache,
    r: BTreeMap<Key, u32>,
    keys: Vec<Key>,
}
impl Table {
    fn new(keys: &[Key]) -> Table {
        Table { c: ComputeCache::new(), r: BTreeMap::new(), keys: keys.to_vec() }
    }
    fn check(&self) -> Res {
        let mut found = 0;
        for k in &self.keys {
            if let Some(v) = self.c.get(k.0, k.1, k.2) {
                found += 1;
                match self.r.get(k) {
                    None => return Err(format!("key {:?} is found with {} but is not stored", k, v)),
                    Some(w) => ensure!(*w == v, "key {:?} gives {} instead of {}", k, v, w),
                }
            }
        }
        ensure!(self.c.len() == found, "len is {}, {} keys are found", self.c.len(), found);
        ensure!(self.c.is_empty() == (found == 0), "is_empty is {}", self.c.is_empty());
        Ok(())
    }
    fn put(&mut self, k: Key, v: u32) -> Res {
        self.c.put(k.0, k.1, k.2, v);
        self.r.insert(k, v);
        Ok(())
    }
    fn purge(&mut self, live: &[bool], three: bool) {
        let l = |x: u32| live[x as usize];
        if three {
            self.c.retain_live3(live);
            self.r.retain(|k, v| l(k.0) && l(k.1) && l(k.2) && l(*v));
        } else {
            self.c.retain_live(live);
            self.r.retain(|k, v| l(k.1) && l(k.2) && l(*v));
        }
    }
    fn clear(&mut self) {
        self.c.clear();
        self.r.clear();
    }
}

fn cache_seqs(cx: &mut Cx, depth: usize) {
    let base: Key = (1, 2, 3);
    let rv = rivals(base, 2);
    // two rivals of the base, a permutation of its words, a neighbour
    let keys = vec![base, rv[0], rv[1], (3, 2, 1)];
    let vals = [4u32, 0];
    let nput = keys.len() * vals.len();
    // node ids 0..=300 are live except:
    let dead: Vec<Vec<u32>> = vec![vec![2], vec![4], vec![rv[0].2.max(rv[0].1)], vec![1]];
    let nact = nput + 1 + dead.len() + 2;
    let name = |a: usize| -> String {
        if a < nput {
            format!("put({:?},{})", keys[a / 2], vals[a % 2])
        } else if a == nput {
            "clear".into()
        } else if a <= nput + dead.len() {
            format!("purge dead={:?}", dead[a - nput - 1])
        } else {
            format!("purge3 dead={:?}", dead[(a - nput - dead.len() - 1) * 3])
        }
    };
    let run = |t: &mut Table, a: usize| {
        let live = |d: &[u32]| -> Vec<bool> { (0..=300u32).map(|x| !d.contains(&x)).collect() };
        if a < nput {
            t.put(keys[a / 2], vals[a % 2]).unwrap();
        } else if a == nput {
            t.clear();
        } else if a <= nput + dead.len() {
            t.purge(&live(&dead[a - nput - 1]), false);
        } else {
            t.purge(&live(&dead[(a - nput - dead.len() - 1) * 3]), true);
        }
    };
    for a in 0..nact {
        for b in 0..nact {
            if !cx.mine() {
                continue;
            }
            let (keys, name, run) = (&keys, &name, &run);
            cx.case(
                || format!("all sequences of {} operations on a fresh table starting [{}; {}]", depth, name(a), name(b)),
                |cx| {
                    let total = nact.pow(depth as u32 - 2);
                    for s in 0..total {
                        let mut t = Table::new(keys);
                        let mut seq = vec![a, b];
                        let mut s = s;
                        for _ in 2..depth {
                            seq.push(s % nact);
                            s /= nact;
                        }
                        for (i, &x) in seq.iter().enumerate() {
                            run(&mut t, x);
                            if i >= 1 {
                                t.check().map_err(|e| format!("after {:?}: {}", seq[..=i].iter().map(|x| name(*x)).collect::<Vec<_>>(), e))?;
                            }
                        }
                    }
                    cx.trans(depth as u64 * total as u64);
                    cx.traces(total as u64);
                    Ok(())
                },
            );
        }
    }
    cx.states(0);
}

/// Long histories through every growth step.
fn cache_growth(cx: &mut Cx, sizes: &[usize]) {
    for &n in sizes {
        for pat in 0..6usize {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("{} distinct keys of pattern {} stored, every key looked up at every doubling; overwritten; purged; cleared", n, pat),
                |cx| {
                    let key = |i: usize| -> Key {
                        let i = i as u32;
                        match pat {
                            0 => (i % 9, i / 9 % 1021, i / 9189),
                            1 => (7, i, 0),
                            2 => (0, 0, i),
                            3 => (i, i, i),
                            4 => (i & 15, (i >> 4) & 0xfff, (i >> 16) | 0x1000),
                            _ => (i.wrapping_mul(0x9e37_79b1), i, u32::MAX - 1 - i),
                        }
                    };
                    let mut c = ComputeCache::new();
                    let val = |i: usize, r: usize| -> u32 { (i as u32).wrapping_mul(2654435761).wrapping_add(r as u32) % (u32::MAX - 1) };
                    let look = |c: &ComputeCache, m: usize, r: usize, ctx: &str| -> Result<usize, String> {
                        let mut found = 0;
                        for i in 0..m {
                            let k = key(i);
                            if let Some(v) = c.get(k.0, k.1, k.2) {
                                ensure!(v == val(i, r), "{}: key {:?} gives {} instead of {}", ctx, k, v, val(i, r));
                                found += 1;
                            }
                        }
                        for i in m..m + 1000 {
                            let k = key(i);
                            ensure!(c.get(k.0, k.1, k.2).is_none(), "{}: key {:?} is found but was not stored", ctx, k);
                        }
                        ensure!(c.len() == found, "{}: len is {}, {} keys are found", ctx, c.len(), found);
                        Ok(found)
                    };
                    for i in 0..n {
                        let k = key(i);
                        c.put(k.0, k.1, k.2, val(i, 0));
                        if c.get(k.0, k.1, k.2) != Some(val(i, 0)) {
                            let g = c.get(k.0, k.1, k.2);
                            ensure!(g.is_none(), "key {:?} just stored with {} gives {:?}", k, val(i, 0), g);
                        }
                        if (i + 1).is_power_of_two() && i > 1000 {
                            look(&c, i + 1, 0, "while growing")?;
                        }
                    }
                    look(&c, n, 0, "full")?;
                    for r in 1..3 {
                        for i in 0..n {
                            let k = key(i);
                            c.put(k.0, k.1, k.2, val(i, r));
                        }
                        look(&c, n, r, "overwritten")?;
                    }
                    c.clear();
                    ensure!(c.is_empty() && look(&c, n, 2, "cleared")? == 0, "keys found after a clear");
                    cx.states(n as u64);
                    cx.trans(3 * n as u64);
                    Ok(())
                },
            );
        }
    }
}

/// Purges of a populated table with every choice of dead word positions.
fn cache_purge(cx: &mut Cx) {
    for ids in [20usize, 150] {
        for d in 0..ids.min(40) {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("table over {} node ids, purge with node {} (and pairs) dead", ids, d),
                |cx| {
                    for three in [false, true] {
                        for d2 in [d, (d + 1) % ids, ids - 1] {
                            let mut keys = vec![];
                            for op in 0..5u32 {
                                for f in 0..ids as u32 {
                                    for g in (0..ids as u32).step_by(if ids > 50 { 11 } else { 1 }) {
                                        keys.push((op, f, g));
                                    }
                                }
                            }
                            let mut t = Table::new(&keys);
                            for (i, k) in keys.iter().enumerate() {
                                t.put(*k, ((i * 7) % ids) as u32)?;
                            }
                            t.check()?;
                            let live: Vec<bool> = (0..ids).map(|x| x != d && x != d2).collect();
                            t.purge(&live, three);
                            t.check().map_err(|e| format!("after the purge (3 words: {}): {}", three, e))?;
                            // the dead ids come back as other nodes
                            for (i, k) in keys.iter().enumerate().step_by(3) {
                                t.put(*k, ((i * 11 + 1) % ids) as u32)?;
                            }
                            t.check().map_err(|e| format!("stored again: {}", e))?;
                            t.purge(&vec![true; ids], three);
                            t.check().map_err(|e| format!("purge with everything live: {}", e))?;
                        }
                    }
                    cx.states(1);
                    cx.trans(6 * 4);
                    Ok(())
                },
            );
        }
    }
}

/// Keys that differ in one bit, or in the order of their words, are different keys.
fn cache_one_bit(cx: &mut Cx) {
    let bases: Vec<Key> = {
        let mut v = vec![(0, 0, 0), (1, 1, 1), (7, 5, 3), (2, 0x1_0000, 0x2_0000), (8, 0xfff_ffff, 0x1000_0000), (3, u32::MAX - 1, 1), (u32::MAX, u32::MAX, u32::MAX)];
        for i in 0..40u32 {
            v.push((i % 9, i.wrapping_mul(0x9e37_79b1) >> (i % 17), i.wrapping_mul(0x85eb_ca6b) >> (i % 23)));
        }
        v
    };
    for fill in [0u32, 12_288, 100_000, 800_000] {
        for word in 0..3 {
            if !cx.mine() {
                continue;
            }
            cx.case(
                || format!("table with {} other entries: keys that differ in one bit of word {}", fill, word),
                |cx| {
                    let mut c = ComputeCache::new();
                    for i in 0..fill {
                        c.put(20 + i % 5, i, i / 3, i);
                    }
                    let mut n = 0u64;
                    for &k in &bases {
                        for bit in 0..32 {
                            let mut w = [k.0, k.1, k.2];
                            w[word] ^= 1 << bit;
                            let f = (w[0], w[1], w[2]);
                            for (v1, v2) in [(0, 1), (1 << (bit % 32), u32::MAX - 1 - bit), (u32::MAX - 1, 1 << 31)] {
                                c.put(k.0, k.1, k.2, v1);
                                let g = c.get(k.0, k.1, k.2);
                                ensure!(g == Some(v1), "key {:?} stored with {} gives {:?}", k, v1, g);
                                if v1 == 0 && n == 0 {
                                    let g = c.get(f.0, f.1, f.2);
                                    ensure!(g.is_none(), "key {:?} gives {:?}; only {:?} was stored", f, g, k);
                                }
                                c.put(f.0, f.1, f.2, v2);
                                let g = c.get(f.0, f.1, f.2);
                                ensure!(g == Some(v2), "key {:?} stored with {} gives {:?}", f, v2, g);
                                let g = c.get(k.0, k.1, k.2);
                                ensure!(g.is_none() || g == Some(v1), "key {:?} stored with {} gives {:?} after {:?} was stored with {}", k, v1, g, f, v2);
                                n += 1;
                            }
                        }
                        let mut p = vec![(k.0, k.2, k.1), (k.1, k.0, k.2), (k.2, k.1, k.0), (k.1, k.2, k.0), (k.2, k.0, k.1)];
                        p.retain(|x| *x != k);
                        for f in p {
                            c.put(k.0, k.1, k.2, 5);
                            c.put(f.0, f.1, f.2, 6);
                            let g = c.get(k.0, k.1, k.2);
                            ensure!(g.is_none() || g == Some(5), "key {:?} stored with 5 gives {:?} after {:?} was stored with 6", k, g, f);
                            n += 1;
                        }
                    }
                    // every single-bit neighbour of a key stored alone is absent
                    let mut c = ComputeCache::new();
                    for &k in &bases {
                        c.clear();
                        c.put(k.0, k.1, k.2, 9);
                        for b in 0..96 {
                            let mut w = [k.0, k.1, k.2];
                            w[b / 32] ^= 1 << (b % 32);
                            let g = c.get(w[0], w[1], w[2]);
                            ensure!(g.is_none(), "key {:?} gives {:?}; only {:?} was stored", w, g, k);
                            n += 1;
                        }
                    }
                    cx.states(bases.len() as u64);
                    cx.trans(n);
                    Ok(())
                },
            );
        }
    }
}

/// Liveness of operands and results with large node numbers.
fn cache_purge_high(cx: &mut Cx) {
    let top = if cx.thorough { 28 } else { 23 };
    for three in [false, true] {
        for bit in [7u32, 8, 15, 16, 19, 20, 22, 23, 24, 26, 27] {
            if bit >= top || !cx.mine() {
                continue;
            }
            cx.case(
                || format!("purge ({} key words are nodes): node 2^{} (+2, and its low twin) live or dead", if three { 3 } else { 2 }, bit),
                |cx| {
                    let hi = 1usize << bit;
                    for dead in [hi, hi + 2, 2, 3] {
                        let ids = [0u32, 1, 2, 3, hi as u32, hi as u32 + 1, hi as u32 + 2];
                        let mut keys = vec![];
                        for a in ids {
                            for b in ids {
                                for op in if three { &ids[..] } else { &[0u32, 5][..] } {
                                    keys.push((*op, a, b));
                                }
                            }
                        }
                        for rot in 0..ids.len() {
                            let mut t = Table::new(&keys);
                            for (i, k) in keys.iter().enumerate() {
                                t.put(*k, ids[(i + rot) % ids.len()])?;
                            }
                            let mut live = vec![true; hi + 3];
                            live[dead] = false;
                            t.purge(&live, three);
                            t.check().map_err(|e| format!("node {} dead: {}", dead, e))?;
                            if hi > 1 << 20 {
                                break;
                            }
                        }
                    }
                    cx.states(1);
                    cx.trans(4 * 7);
                    Ok(())
                },
            );
        }
    }
}

/// Every ordered pair of operations on the same operands, the tables cleared or not between;
/// for the operands in both orders and with the first result fed back.
fn op_mixes<C: Core>(cx: &mut Cx, sizes: &[usize], fs: &[Fun], gs: &[Fun], ops: &[Op]) {
    let l = Layout::std(sizes);
    for f in fs {
        if !cx.mine() {
            continue;
        }
        let l = &l;
        cx.case(
            || format!("{} {}: f={} with every g, every ordered pair of {:?}, tables cleared or kept", C::NAME, l.show(), f.show(), ops),
            |cx| {
                let mut b = Bank::<C>::new(l);
                let x = b.id(f)?;
                let mut n = 0;
                let arg = |op: Op, x: u64, y: u64| -> Vec<u64> {
                    match op.arity() {
                        1 => vec![x],
                        2 => vec![x, y],
                        _ => vec![x, y, x],
                    }
                };
                for (j, g) in gs.iter().enumerate() {
                    let y = b.id(g)?;
                    let farg = |op: Op, f: &Fun, g: &Fun| -> Vec<Fun> {
                        match op.arity() {
                            1 => vec![f.clone()],
                            2 => vec![f.clone(), g.clone()],
                            _ => vec![f.clone(), g.clone(), f.clone()],
                        }
                    };
                    for (pi, &p) in ops.iter().enumerate() {
                        for (qi, &q) in ops.iter().enumerate() {
                            at(&[j as u64, pi as u64, qi as u64]);
                            b.c.clear_cache();
                            let r1 = b.c.op(p, &arg(p, x, y));
                            let fa = farg(p, f, g);
                            b.check(p, &fa.iter().collect::<Vec<_>>(), r1)?;
                            if (pi + qi + j) % 4 == 0 {
                                b.c.clear_cache();
                            }
                            for (u, v, fu, fv) in [(x, y, f, g), (y, x, g, f)] {
                                if q.arity() == 3 && u == y && f.k != g.k {
                                    continue;
                                }
                                let r2 = b.c.op(q, &arg(q, u, v));
                                let fa = farg(q, fu, fv);
                                b.check(q, &fa.iter().collect::<Vec<_>>(), r2).map_err(|e| format!("after {:?}: {}", p, e))?;
                            }
                            // again from the tables
                            let r3 = b.c.op(p, &arg(p, x, y));
                            ensure!(r3 == r1, "{:?}({}, {}) repeated after {:?} gives another node", p, f.show(), g.show(), q);
                            n += 4;
                        }
                    }
                }
                cx.states(1);
                cx.trans(n);
                Ok(())
            },
        );
    }
}

pub fn c19(cx: &mut Cx) {
    let th = cx.thorough;
    cx.section("all operation sequences on a fresh table");
    cache_seqs(cx, if th { 6 } else { 5 });
    cx.section("growth to the ceiling");
    cache_growth(cx, if th { &[100, 12_287, 12_288, 12_289, 30_000, 200_000, 1_600_000, 13_000_000] } else { &[100, 12_287, 12_288, 12_289, 30_000, 200_000] });
    cx.section("purging with dead operands and results");
    cache_purge(cx);
    cache_purge_high(cx);
    cx.section("keys that differ in one bit or in the order of their words");
    cache_one_bit(cx);
    cx.section("managers: every ordered pair of operations, tables cleared or kept");
    let b3 = bfuns(&[2, 2]);
    let bops = [Op::Not, Op::And, Op::Or, Op::Xor, Op::Imp, Op::Nand, Op::Nor, Op::Xnor, Op::Ite];
    op_mixes::<BddC>(cx, &[2, 2], &b3, &b3, &bops);
    let zops = [Op::Union, Op::Intersect, Op::Setdiff, Op::Product, Op::Divide];
    let z: Vec<Fun> = b3.iter().filter(|f| f.t.contains(&1)).cloned().collect();
    op_mixes::<ZddC>(cx, &[2, 2], &z, &z, &zops);
    let m3 = bfuns(&[3]);
    let mops = [Op::Not, Op::And, Op::Or, Op::Xor, Op::Ite];
    op_mixes::<MddC>(cx, &[3], &m3, &m3, &mops);
    op_mixes::<MddC>(cx, &[2, 2], &b3, &b3, &mops);
    let v3 = vfuns(&[3], &[0, 1, 2]);
    let aops = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem, Op::Min, Op::Max];
    op_mixes::<MtC>(cx, &[3], &v3, &v3, &aops);
    let cops = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Min, Op::Max, Op::Eq, Op::Neq, Op::Lt, Op::Lte, Op::Gt, Op::Gte];
    op_mixes::<Mt2C>(cx, &[3], &v3, &v3, &cops);
    let lops = [Op::LIntersect, Op::LSetdiff];
    let l3 = vfuns(&[3], &[0, 1, U]);
    op_mixes::<ZmC>(cx, &[3], &l3, &l3, &lops);
    let l22 = vfuns(&[2, 2], &[0, 1, U]);
    op_mixes::<ZmC>(cx, &[2, 2], &l22, &l22, &lops);
    if th {
        let b8 = bfuns(&[2, 2, 2]);
        op_mixes::<BddC>(cx, &[2, 2, 2], &b8, &b8, &bops);
        let z8: Vec<Fun> = b8.iter().filter(|f| f.t.contains(&1)).cloned().collect();
        op_mixes::<ZddC>(cx, &[2, 2, 2], &z8, &z8, &zops);
        op_mixes::<MddC>(cx, &[2, 3], &bfuns(&[2, 3]), &bfuns(&[2, 3]), &mops);
        let v22 = vfuns(&[2, 2], &[0, 1, 2]);
        op_mixes::<Mt2C>(cx, &[2, 2], &v22, &v22, &cops);
        op_mixes::<MtC>(cx, &[2, 2], &v22, &v22, &aops);
    }
}

// ------------------------------------------------------------------ C21

struct Graph {
    /// name -> label
    nodes: BTreeMap<String, String>,
    /// name -> branch -> name
    edges: BTreeMap<String, BTreeMap<usize, String>>,
    root: String,
    n_edges: usize,
}

fn quoted(s: &str) -> Option<(&str, &str)> {
    let s = s.trim_start().strip_prefix('"')?;
    let e = s.find('"')?;
    Some((&s[..e], &s[e + 1..]))
}
fn label_of(s: &str) -> Option<String> {
    let i = s.find("label=")?;
    quoted(&s[i + 6..]).map(|x| x.0.to_string())
}

fn parse_dot(t: &str) -> Result<Graph, String> {
    let i = t.find('{').ok_or("no opening brace")?;
    let j = t.rfind('}').ok_or("no closing brace")?;
    ensure!(t[..i].trim() == "digraph" || t[..i].trim().starts_with("digraph "), "not a digraph");
    let mut g = Graph { nodes: BTreeMap::new(), edges: BTreeMap::new(), root: String::new(), n_edges: 0 };
    let mut targets = BTreeSet::new();
    for st in t[i + 1..j].split(';') {
        let st = st.trim();
        if st.is_empty() || !st.starts_with('"') {
            continue;
        }
        let (a, rest) = quoted(st).ok_or("bad statement")?;
        if let Some(r) = rest.trim_start().strip_prefix("->") {
            let (b, rest) = quoted(r).ok_or("bad edge")?;
            let l = label_of(rest).ok_or_else(|| format!("edge without a label: {}", st))?;
            let l: usize = l.parse().map_err(|_| format!("edge label {}", l))?;
            ensure!(g.edges.entry(a.to_string()).or_default().insert(l, b.to_string()).is_none(), "two edges {} from {}", l, a);
            targets.insert(b.to_string());
            g.n_edges += 1;
        } else {
            let l = label_of(rest).ok_or_else(|| format!("node without a label: {}", st))?;
            ensure!(g.nodes.insert(a.to_string(), l).is_none(), "node {} drawn twice", a);
        }
    }
    let roots: Vec<&String> = g.nodes.keys().filter(|n| !targets.contains(*n)).collect();
    ensure!(roots.len() == 1, "{} nodes without an incoming edge", roots.len());
    g.root = roots[0].clone();
    for x in &targets {
        ensure!(g.nodes.contains_key(x), "edge to {} which is not drawn", x);
    }
    for x in g.edges.keys() {
        ensure!(g.nodes.contains_key(x), "edge from {} which is not drawn", x);
    }
    Ok(g)
}

#[derive(Clone, Copy, PartialEq)]
pub enum Dd {
    /// missing edge: undetermined; skipped variable: irrelevant
    Plain,
    /// missing edge: no set; skipped variable: absent
    Zdd,
    Zmdd,
}

fn dot_table(g: &Graph, d: &Dom, name: &dyn Fn(usize) -> String, kind: Dd) -> Result<Vec<i64>, String> {
    let var: HashMap<String, usize> = (0..d.n()).map(|v| (name(v), v)).collect();
    let absent = match kind {
        Dd::Plain | Dd::Zmdd => U,
        Dd::Zdd => 0,
    };
    let mut t = vec![];
    for p in 0..d.points() {
        let dg = d.digits(p);
        let mut at = &g.root;
        let mut used = vec![false; d.n()];
        let mut last = usize::MAX;
        let mut lost = false;
        while let Some(es) = g.edges.get(at) {
            let v = *var.get(&g.nodes[at]).ok_or_else(|| format!("node labelled {}", g.nodes[at]))?;
            ensure!(v < last, "variable {} below {}", v, last);
            last = v;
            used[v] = true;
            for k in es.keys() {
                ensure!(*k < d.sizes[v], "branch {} of {}", k, name(v));
            }
            match es.get(&dg[v]) {
                Some(n) => at = n,
                None => {
                    lost = true;
                    break;
                }
            }
        }
        if lost || (kind != Dd::Plain && (0..d.n()).any(|v| !used[v] && dg[v] > 0)) {
            t.push(absent);
            continue;
        }
        t.push(match g.nodes[at].as_str() {
            "?" | "*" | "Undet" => U,
            "F" => 0,
            "T" => 1,
            x => x.parse().map_err(|_| format!("terminal labelled {}", x))?,
        });
    }
    Ok(t)
}

/// `reach`: nodes reachable in the diagram as (is terminal, omitted in the picture, children).
fn check_dot(text: &str, d: &Dom, name: &dyn Fn(usize) -> String, kind: Dd, f: &Fun, nodes: usize, edges: usize) -> Res {
    let g = parse_dot(text).map_err(|e| format!("dot text of {}: {} in {:?}", f.show(), e, text))?;
    let t = dot_table(&g, d, name, kind).map_err(|e| format!("dot text of {}: {} in {:?}", f.show(), e, text))?;
    ensure!(t == f.t, "dot text of {} reads back as {}", f.show(), Fun { k: f.k, t }.show());
    ensure!(g.nodes.len() == nodes, "dot text of {} has {} nodes, the diagram {}", f.show(), g.nodes.len(), nodes);
    ensure!(g.n_edges == edges, "dot text of {} has {} edges, the diagram {}", f.show(), g.n_edges, edges);
    Ok(())
}

/// (nonterminals, terminals, edges, drawn nodes, drawn edges) below id
pub fn sizes_of(id: u64, view: &dyn Fn(u64) -> Result<View, String>, kind: Dd) -> Result<(u64, u64, u64, usize, usize), String> {
    let omit = if kind == Dd::Zdd { 0 } else { U };
    let mut seen = HashSet::new();
    let mut st = vec![id];
    let (mut nn, mut nt, mut ne, mut dn, mut de) = (0, 0, 0, 0, 0);
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        match view(x)? {
            View::Term(v) => {
                nt += 1;
                if v != omit || x == id {
                    dn += 1;
                }
            }
            View::Node(_, ch) => {
                nn += 1;
                dn += 1;
                ne += ch.len() as u64;
                for c in &ch {
                    if !matches!(view(*c)?, View::Term(v) if v == omit) {
                        de += 1;
                    }
                }
                st.extend(ch);
            }
        }
    }
    Ok((nn, nt, ne, dn, de))
}

/// The picture and the diagram below `id` are the same graph, node by node and edge by edge.
pub fn check_same(text: &str, id: u64, view: &dyn Fn(u64) -> Result<View, String>, name: &dyn Fn(usize) -> String, kind: Dd) -> Res {
    let g = parse_dot(text)?;
    let omit = if kind == Dd::Zdd { 0 } else { U };
    let mut at: HashMap<u64, &String> = HashMap::new();
    let mut back: HashMap<&String, u64> = HashMap::new();
    let mut st = vec![(id, &g.root)];
    let mut edges = 0;
    while let Some((x, s)) = st.pop() {
        match (at.get(&x), back.get(s)) {
            (None, None) => {}
            (Some(a), Some(b)) if *a == s && *b == x => continue,
            _ => return Err(format!("picture node {} stands for two nodes, or node {} is drawn twice", s, x)),
        }
        at.insert(x, s);
        back.insert(s, x);
        let label = &g.nodes[s];
        match view(x)? {
            View::Term(v) => {
                let w = match label.as_str() {
                    "?" | "*" | "Undet" => U,
                    "F" => 0,
                    "T" => 1,
                    t => t.parse().map_err(|_| format!("terminal labelled {}", t))?,
                };
                ensure!(w == v, "terminal {} is labelled {}", v, label);
                ensure!(!g.edges.contains_key(s), "an edge from a terminal");
            }
            View::Node(lv, ch) => {
                ensure!(*label == name(lv), "node of level {} is labelled {}", lv, label);
                let es = g.edges.get(s).ok_or_else(|| format!("no edges from node {}", x))?;
                for (k, c) in ch.iter().enumerate() {
                    let left_out = matches!(view(*c)?, View::Term(v) if v == omit);
                    match es.get(&k) {
                        None => ensure!(left_out, "branch {} of node {} is not drawn", k, x),
                        Some(t) => {
                            ensure!(!left_out, "branch {} of node {} is drawn", k, x);
                            edges += 1;
                            st.push((*c, t));
                        }
                    }
                }
            }
        }
    }
    ensure!(at.len() == g.nodes.len() && edges == g.n_edges, "{} nodes and {} edges are drawn, {} and {} are in the diagram", g.nodes.len(), g.n_edges, at.len(), edges);
    Ok(())
}

fn dot_core<C: Core>(cx: &mut Cx, sizes: &[usize], funs: &[Fun]) {
    let kind = match C::NAME {
        "ZDD" => Dd::Zdd,
        "ZMDD" => Dd::Zmdd,
        _ => Dd::Plain,
    };
    for l in layouts(sizes, false) {
        for ch in funs.chunks(256) {
            if !cx.mine() {
                continue;
            }
            let l = &l;
            cx.case(
                || format!("{} {}: {} functions from {}", C::NAME, l.show(), ch.len(), ch[0].show()),
                |cx| {
                    let mut b = Bank::<C>::new(l);
                    for f in ch {
                        let id = b.id(f)?;
                        let (_, _, _, dn, de) = sizes_of(id, &|x| b.c.view(x), kind)?;
                        check_dot(&b.c.dot(id), &l.dom, &|v| nm(v), kind, f, dn, de)?;
                    }
                    cx.states(ch.len() as u64);
                    cx.trans(ch.len() as u64);
                    Ok(())
                },
            );
        }
    }
}

pub fn bview(h: &BddNode) -> impl Fn(u64) -> Result<View, String> {
    let rc = h.get_mgr();
    move |x| {
        use bddcore::prelude::Node;
        use common::prelude::DDForest;
        let m = rc.borrow();
        let id = x as usize;
        Ok(match m.get_node(&id).ok_or("no node")? {
            Node::Zero => View::Term(0),
            Node::One => View::Term(1),
            Node::Undet => View::Term(U),
            Node::NonTerminal(n) => View::Node(m.level(&id).ok_or("no level")?, vec![n.edge(0) as u64, n.edge(1) as u64]),
        })
    }
}
pub fn zview(h: &ZddNode) -> impl Fn(u64) -> Result<View, String> {
    let rc = h.get_mgr();
    move |x| {
        use bddcore::prelude::Node;
        use common::prelude::DDForest;
        let m = rc.borrow();
        let id = x as usize;
        Ok(match m.get_node(&id).ok_or("no node")? {
            Node::Zero => View::Term(0),
            Node::One => View::Term(1),
            Node::Undet => View::Term(U),
            Node::NonTerminal(n) => View::Node(m.level(&id).ok_or("no level")?, vec![n.edge(0) as u64, n.edge(1) as u64]),
        })
    }
}

/// Handle of a family over elements x0.. (level i), built by union of products of singletons.
fn zbuild(m: &mut ZddMgr, t: &[i64]) -> ZddNode {
    let n = t.len().trailing_zeros() as usize;
    let sets: Vec<Vec<String>> =
        (0..t.len()).filter(|&p| t[p] == 1).map(|p| (0..n).filter(|v| p >> v & 1 == 1).map(|v| nm(v)).collect()).collect();
    m.from_sets(&sets)
}

/// Larger functions in closed form: thresholds, parities, sums, products, scrambled tables.
fn larger(sizes: &[usize], kind: u8, holes: bool) -> Vec<Fun> {
    let d = Dom::new(sizes);
    let n = d.points();
    let dg: Vec<Vec<usize>> = (0..n).map(|p| d.digits(p)).collect();
    let top: usize = sizes.iter().map(|s| s - 1).sum();
    let mix = |p: usize, k: u64| -> i64 { ((p as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_mul(2 * k + 1) >> 40) as i64 };
    let mut o: Vec<Vec<i64>> = vec![];
    let sum: Vec<i64> = dg.iter().map(|g| g.iter().sum::<usize>() as i64).collect();
    if kind == BOOL {
        for k in [1, top / 3, top / 2, top] {
            o.push(sum.iter().map(|s| (*s >= k as i64) as i64).collect());
        }
        o.push(sum.iter().map(|s| s & 1).collect());
        for k in 0..3 {
            o.push((0..n).map(|p| mix(p, k) & 1).collect());
        }
    } else {
        o.push(sum.clone());
        o.push(sum.iter().map(|s| s % 3 - 1).collect());
        o.push(dg.iter().map(|g| g.iter().map(|x| *x as i64 + 1).product()).collect());
        o.push((0..n as i64).collect());
        o.push((0..n as i64).map(|p| -p * 1_000_003).collect());
        o.push((0..n).map(|p| mix(p, 1) % 7).collect());
        o.push((0..n).map(|p| if p == n - 1 { i64::MAX } else if p == 0 { i64::MIN + 1 } else { 0 }).collect());
    }
    if holes {
        for t in &mut o {
            for (p, v) in t.iter_mut().enumerate() {
                if mix(p, 5) % 4 == 0 {
                    *v = U;
                }
            }
        }
    }
    o.into_iter().map(|t| Fun { k: kind, t }).collect()
}

fn dot_larger(cx: &mut Cx) {
    for s in [&[2usize; 10][..], &[3; 5], &[7, 2, 5, 3], &[300, 2], &[2, 300], &[40, 33]] {
        dot_core::<MddC>(cx, s, &larger(s, BOOL, false));
        dot_core::<MddC>(cx, s, &larger(s, BOOL, true));
        dot_core::<MtC>(cx, s, &larger(s, VALUE, false));
        dot_core::<MtC>(cx, s, &larger(s, VALUE, true));
        dot_core::<Mt2C>(cx, s, &larger(s, BOOL, false));
        dot_core::<Mt2C>(cx, s, &larger(s, VALUE, true));
        dot_core::<ZmC>(cx, s, &larger(s, VALUE, true));
        if s[0] == 2 && s[1] == 2 {
            dot_core::<BddC>(cx, s, &larger(s, BOOL, false));
            dot_core::<BddC>(cx, s, &larger(s, BOOL, true));
            dot_core::<ZddC>(cx, s, &larger(s, BOOL, false));
        }
        for (kind, holes) in [(BOOL, false), (VALUE, false), (VALUE, true)] {
            for f in larger(s, kind, holes) {
                if !cx.mine() {
                    continue;
                }
                cx.case(
                    || format!("MddMgr over {:?}: size and dot of a function with {} points", s, f.t.len()),
                    |cx| {
                        let mut m: MddMgr<i64> = MddMgr::new();
                        let x: Vec<MddNode<i64>> = s.iter().enumerate().map(|(v, &k)| m.defvar(&nm(v), k)).collect();
                        let h = mss_build(&m, &x, &f, s);
                        m.gc(&[]);
                        let rc = h.get_mgr();
                        let view = |i: u64| view2(&rc.borrow(), i);
                        let (nn, nt, ne, dn, de) = sizes_of(enc2(h.get_node()), &view, Dd::Plain)?;
                        ensure!(h.size() == (nn, nt, ne), "size is {:?} instead of {:?}", h.size(), (nn, nt, ne));
                        check_dot(&h.dot(), &Dom::new(s), &|v| nm(v), Dd::Plain, &f, dn, de)?;
                        cx.states(1);
                        cx.trans(2);
                        Ok(())
                    },
                );
            }
        }
    }
}

fn dot_recycled<C: Core>(cx: &mut Cx, sizes: &[usize], funs: &[Fun]) {
    let kind = match C::NAME {
        "ZDD" => Dd::Zdd,
        "ZMDD" => Dd::Zmdd,
        _ => Dd::Plain,
    };
    crate::p_recycled::core::<C>(cx, sizes, funs, &|c, id, d, f| {
        let (_, _, _, dn, de) = sizes_of(id, &|x| c.view(x), kind)?;
        check_dot(&c.dot(id), d, &|v| nm(v), kind, f, dn, de)
    });
}
/// Dot texts and sizes of diagrams whose nodes are not numbered from the bottom up.
fn on_recycled(cx: &mut Cx) {
    let (b3, b23, v23) = (bfuns(&[2, 2, 2]), bfuns(&[2, 3]), vfuns(&[2, 3], &[0, 5, U]));
    dot_recycled::<BddC>(cx, &[2, 2, 2], &b3);
    dot_recycled::<ZddC>(cx, &[2, 2, 2], &b3);
    dot_recycled::<MddC>(cx, &[2, 2, 2], &b3);
    dot_recycled::<MddC>(cx, &[2, 3], &b23);
    dot_recycled::<MtC>(cx, &[2, 3], &v23);
    dot_recycled::<Mt2C>(cx, &[2, 3], &b23);
    dot_recycled::<Mt2C>(cx, &[2, 3], &v23);
    dot_recycled::<ZmC>(cx, &[2, 3], &v23);
    crate::p_recycled::bss_handles(cx, "size and dot", &|_, h, n, f| {
        let fun = Fun::b(bits(1 << n, f));
        let (nn, nt, ne, dn, de) = sizes_of(h.get_id() as u64, &bview(h), Dd::Plain)?;
        ensure!(h.size() == (nn, nt, ne), "size is {:?} instead of {:?}", h.size(), (nn, nt, ne));
        check_dot(&h.dot(), &Dom::new(&vec![2; n]), &|v| nm(v), Dd::Plain, &fun, dn, de)
    });
    crate::p_recycled::zdd_handles(cx, "size and dot", &|h, n, f| {
        let fun = Fun::b(bits(1 << n, f));
        let (nn, nt, ne, dn, de) = sizes_of(h.get_id() as u64, &zview(h), Dd::Zdd)?;
        ensure!(h.size() == (nn, nt, ne), "size is {:?} instead of {:?}", h.size(), (nn, nt, ne));
        check_dot(&h.dot(), &Dom::new(&vec![2; n]), &|v| nm(v), Dd::Zdd, &fun, dn, de)
    });
    crate::p_recycled::mss_handles(cx, "size and dot", &crate::p_recycled::mss_sets(), &|_, h, d, f| {
        let rc = h.get_mgr();
        let view = |i: u64| view2(&rc.borrow(), i);
        let (nn, nt, ne, dn, de) = sizes_of(enc2(h.get_node()), &view, Dd::Plain)?;
        ensure!(h.size() == (nn, nt, ne), "size is {:?} instead of {:?}", h.size(), (nn, nt, ne));
        check_dot(&h.dot(), d, &|v| nm(v), Dd::Plain, f, dn, de)
    });
}

pub fn c21(cx: &mut Cx) {
    let th = cx.thorough;
    cx.section("core diagrams: the dot text read back");
    for s in [&[2usize][..], &[2, 2], &[2, 2, 2]] {
        dot_core::<BddC>(cx, s, &bfuns(s));
        dot_core::<ZddC>(cx, s, &bfuns(s));
    }
    dot_core::<BddC>(cx, &[2, 2], &ufuns(&[2, 2]));
    for s in [&[3usize][..], &[2, 3], &[2, 2, 2]] {
        dot_core::<MddC>(cx, s, &bfuns(s));
        dot_core::<Mt2C>(cx, s, &bfuns(s));
    }
    for s in [&[3usize][..], &[2, 2], &[2, 3]] {
        dot_core::<MddC>(cx, s, &ufuns(s));
        dot_core::<MtC>(cx, s, &vfuns(s, &[0, 1, -2]));
        dot_core::<MtC>(cx, s, &vfuns(s, &[0, 5, U]));
        dot_core::<Mt2C>(cx, s, &vfuns(s, &[0, 5, U]));
        dot_core::<ZmC>(cx, s, &vfuns(s, &[0, 1, U]));
    }
    dot_core::<ZmC>(cx, &[2, 2], &vfuns(&[2, 2], &[0, -1, 12, U]));
    let b4 = bfuns(&[2, 2, 2, 2]);
    dot_core::<BddC>(cx, &[2, 2, 2, 2], &b4);
    dot_core::<ZddC>(cx, &[2, 2, 2, 2], &b4);
    dot_core::<MtC>(cx, &[2, 2, 2], &vfuns(&[2, 2, 2], &[0, 1, 2]));
    dot_core::<ZmC>(cx, &[2, 2, 2], &vfuns(&[2, 2, 2], &[0, 1, U]));
    dot_core::<ZmC>(cx, &[3, 3], &vfuns(&[3, 3], &[0, 1, U]));
    dot_core::<MddC>(cx, &[2, 3, 2], &bfuns(&[2, 3, 2]));
    if th {
        dot_core::<MtC>(cx, &[3, 3], &vfuns(&[3, 3], &[0, 1, -2]));
        dot_core::<Mt2C>(cx, &[3, 3], &vfuns(&[3, 3], &[0, 5, U]));
        dot_core::<MddC>(cx, &[2, 2, 2, 2], &bfuns(&[2, 2, 2, 2]));
        dot_core::<Mt2C>(cx, &[3, 2, 3], &bfuns(&[3, 2, 3]));
        dot_core::<ZmC>(cx, &[2, 3], &vfuns(&[2, 3], &[0, -1, 12, 7, U]));
    }

    cx.section("wide diagrams and nodes with large numbers");
    crate::p_wide::dot::<BddC>(cx, BOOL, 0, 1);
    crate::p_wide::dot::<ZddC>(cx, BOOL, 0, 1);
    crate::p_wide::dot::<MddC>(cx, BOOL, 0, 1);
    crate::p_wide::dot::<Mt2C>(cx, BOOL, 0, 1);
    crate::p_wide::dot::<MtC>(cx, VALUE, -1, 7);
    crate::p_wide::dot::<Mt2C>(cx, VALUE, 3, 4);
    crate::p_wide::dot::<ZmC>(cx, VALUE, U, 2);
    crate::p_wide::sizes_bss(cx);
    crate::p_wide::sizes_mss(cx);
    crate::p_wide::far_sizes(cx);
    cx.section("binary handles: dot text and size");
    let nms = ["x0", "node B", "ключ-1"];
    for perm in perms(3) {
        for half in 0..4usize {
            if !cx.mine() {
                continue;
            }
            let perm = &perm;
            cx.case(
                || format!("BddMgr: 3-variable functions of quarter {} with variable names in order {:?}", half, perm),
                |cx| {
                    let mut m = BddMgr::new();
                    let x: Vec<BddNode> = perm.iter().map(|&i| m.defvar(nms[i])).collect();
                    let d = Dom::new(&[2, 2, 2]);
                    for f in half as u64 * 64..half as u64 * 64 + 64 {
                        let fun = Fun::b(bits(8, f));
                        let h = build_h(&m, &x, &fun.t);
                        let (nn, nt, ne, dn, de) = sizes_of(h.get_id() as u64, &bview(&h), Dd::Plain)?;
                        ensure!(h.size() == (nn, nt, ne), "size of {} is {:?} instead of {:?}", fun.show(), h.size(), (nn, nt, ne));
                        check_dot(&h.dot(), &d, &|v| nms[perm[v]].to_string(), Dd::Plain, &fun, dn, de)?;
                    }
                    cx.states(64);
                    cx.trans(128);
                    Ok(())
                },
            );
        }
    }
    for f in (0..65536u64).step_by(4096) {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("BddMgr and ZddMgr: 4-variable functions {:#x}..{:#x}, sizes and dot", f, f + 4096),
            |cx| {
                let mut m = BddMgr::new();
                let x: Vec<BddNode> = (0..4).map(|i| m.defvar(&nm(i))).collect();
                let mut z = ZddMgr::new();
                for i in 0..4 {
                    z.singleton(&nm(i));
                }
                let d = Dom::new(&[2, 2, 2, 2]);
                for g in f..f + 4096 {
                    let fun = Fun::b(bits(16, g));
                    let h = build_h(&m, &x, &fun.t);
                    let (nn, nt, ne, _, _) = sizes_of(h.get_id() as u64, &bview(&h), Dd::Plain)?;
                    ensure!(h.size() == (nn, nt, ne), "size of {} is {:?} instead of {:?}", fun.show(), h.size(), (nn, nt, ne));
                    if g % 4 == 0 {
                        let h = zbuild(&mut z, &fun.t);
                        let (nn, nt, ne, dn, de) = sizes_of(h.get_id() as u64, &zview(&h), Dd::Zdd)?;
                        ensure!(h.size() == (nn, nt, ne), "size of the family {} is {:?} instead of {:?}", fun.show(), h.size(), (nn, nt, ne));
                        check_dot(&h.dot(), &d, &|v| nm(v), Dd::Zdd, &fun, dn, de)?;
                    }
                }
                cx.states(5120);
                cx.trans(6144);
                Ok(())
            },
        );
    }
    cx.section("multi-state handles: dot text and size");
    for (s, funs) in [
        (vec![2usize, 3], bfuns(&[2, 3])),
        (vec![2, 3], vfuns(&[2, 3], &[0, 1, 2])),
        (vec![3, 2], vfuns(&[3, 2], &[-1, 4, U])),
        (vec![2, 2], ufuns(&[2, 2])),
        (vec![2, 2, 2], bfuns(&[2, 2, 2])),
        (vec![4], vfuns(&[4], &[0, 1, 2, U])),
    ] {
        for ch in funs.chunks(64) {
            if !cx.mine() {
                continue;
            }
            let s = &s;
            cx.case(
                || format!("MddMgr over {:?}: {} functions from {}", s, ch.len(), ch[0].show()),
                |cx| {
                    let mut m: MddMgr<i64> = MddMgr::new();
                    let x: Vec<MddNode<i64>> = s.iter().enumerate().map(|(v, &k)| m.defvar(&nm(v), k)).collect();
                    let d = Dom::new(s);
                    for f in ch {
                        let h = mss_build(&m, &x, f, s);
                        let rc = h.get_mgr();
                        let view = |i: u64| view2(&rc.borrow(), i);
                        let (nn, nt, ne, dn, de) = sizes_of(enc2(h.get_node()), &view, Dd::Plain)?;
                        ensure!(h.size() == (nn, nt, ne), "size of {} is {:?} instead of {:?}", f.show(), h.size(), (nn, nt, ne));
                        check_dot(&h.dot(), &d, &|v| nm(v), Dd::Plain, f, dn, de)?;
                    }
                    cx.states(ch.len() as u64);
                    cx.trans(2 * ch.len() as u64);
                    Ok(())
                },
            );
        }
    }
    cx.section("diagrams on recycled places");
    on_recycled(cx);
    cx.section("path and cut families: dot text");
    let s = [2usize, 3];
    let d = Dom::new(&s);
    let mono: Vec<Vec<i64>> = all_tables(6, &[0, 1, 2]).into_iter().filter(|t| monotone(&d, t)).collect();
    for (i, t) in mono.iter().enumerate() {
        if !cx.mine() {
            continue;
        }
        let d = &d;
        cx.case(
            || format!("families of {:?}", t),
            |cx| {
                let _ = i;
                let mut m: MssMgr<i64> = MssMgr::new();
                let x = vec![m.defvar(&nm(0), 2), m.defvar(&nm(1), 3)];
                let h = mss_build(m.mdd(), &x, &Fun::v(t.clone()), &s);
                for cut in [false, true] {
                    let z = if cut { m.mincut(&h) } else { m.minpath(&h) }.ok_or("None")?;
                    // raw coordinates: branch i of a cut family is i states below the top
                    let raw: Vec<i64> = (0..6)
                        .map(|p| {
                            let g = d.digits(p);
                            let q = if cut { d.point(&[1 - g[0], 2 - g[1]]) } else { p };
                            let dom = (0..6).any(|r| r != q && t[r] == t[q] && if cut { d.leq(q, r) } else { d.leq(r, q) });
                            if dom {
                                U
                            } else {
                                t[q]
                            }
                        })
                        .collect();
                    let rc = z.get_mgr();
                    let view = |i: u64| view_zm(&rc.borrow(), i as usize);
                    let (_, _, _, dn, de) = sizes_of(z.get_id() as u64, &view, Dd::Zmdd)?;
                    check_dot(&z.dot(), d, &|v| nm(v), Dd::Zmdd, &Fun::v(raw), dn, de)?;
                    let e = z.setdiff(&z);
                    check_dot(&e.dot(), d, &|v| nm(v), Dd::Zmdd, &Fun::v(vec![U; 6]), 1, 0)?;
                }
                cx.states(2);
                cx.trans(4);
                Ok(())
            },
        );
    }
    cx.section("names that are easy to confuse");
    crate::p_names::each(cx, "dot text", |a, b| {
        let name = |v: usize| if v == 0 { a.to_string() } else { b.to_string() };
        let d = Dom::new(&[2, 2]);
        let f = Fun::b(vec![0, 1, 1, 0]);
        let mut m = BddMgr::new();
        let x = vec![m.defvar(a), m.defvar(b)];
        check_dot(&build_h(&m, &x, &f.t).dot(), &d, &name, Dd::Plain, &f, 5, 6)?;
        let mut z = ZddMgr::new();
        let (x, y) = (z.singleton(a), z.singleton(b));
        check_dot(&x.union(&y).dot(), &d, &name, Dd::Zdd, &f, 3, 3)?;
        let d = Dom::new(&[2, 3]);
        let mut m = MssMgr::<i64>::new();
        let x = vec![m.defvar(a, 2), m.defvar(b, 3)];
        let h = mss_build(m.mdd(), &x, &Fun::v(vec![0, 1, 1, 2, 2, 3]), &[2, 3]);
        check_dot(&h.dot(), &d, &name, Dd::Plain, &Fun::v(vec![0, 1, 1, 2, 2, 3]), 8, 9)?;
        let p = m.minpath(&h).ok_or("None")?;
        let rc = p.get_mgr();
        let view = |i: u64| view_zm(&rc.borrow(), i as usize);
        let (_, _, _, dn, de) = sizes_of(p.get_id() as u64, &view, Dd::Zmdd)?;
        check_dot(&p.dot(), &d, &name, Dd::Zmdd, &Fun::v(vec![0, 1, 1, 2, 2, 3]), dn, de)
    });
    cx.section("larger diagrams of every kind, variables with up to 300 states");
    dot_larger(cx);
    cx.section("larger diagrams, after collections");
    for n in [5usize, 8, 12, 16] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("threshold, parity and chain diagrams over {} variables", n),
            |cx| {
                let mut m = BddMgr::new();
                let x: Vec<BddNode> = (0..n).map(|i| m.defvar(&nm(i))).collect();
                let mut par = m.zero();
                for y in &x {
                    par = par.xor(y);
                }
                let maj = m.kofn(n / 2, &x);
                let chain = m.and(&x);
                m.gc(&[]);
                // closed forms: parity 2n-1 nodes, conjunction n nodes
                ensure!(par.size() == (2 * n as u64 - 1, 2, 4 * n as u64 - 2), "parity {:?}", par.size());
                ensure!(chain.size() == (n as u64, 2, 2 * n as u64), "chain {:?}", chain.size());
                let k = n / 2;
                let e = (k * (n - k + 1)) as u64;
                ensure!(maj.size() == (e, 2, 2 * e), "threshold {:?} instead of {}", maj.size(), e);
                for h in [&par, &maj, &chain] {
                    let (nn, nt, ne, dn, de) = sizes_of(h.get_id() as u64, &bview(h), Dd::Plain)?;
                    ensure!(h.size() == (nn, nt, ne), "size {:?} instead of {:?}", h.size(), (nn, nt, ne));
                    let g = parse_dot(&h.dot())?;
                    ensure!(g.nodes.len() == dn && g.n_edges == de, "dot has {} nodes and {} edges instead of {} and {}", g.nodes.len(), g.n_edges, dn, de);
                    if n <= 12 {
                        let d = Dom::new(&vec![2; n]);
                        let t = dot_table(&g, &d, &|v| nm(v), Dd::Plain)?;
                        let w = table_h(h, n);
                        ensure!(t == w, "dot text denotes another function");
                    }
                }
                cx.states(3);
                cx.trans(9);
                Ok(())
            },
        );
    }
}

// ------------------------------------------------------------------ C22

/// The root of a handle is the topmost variable it depends on; children are restrictions.
fn intro_bdd(h: &BddNode, n: usize, names: &[String], t: &[i64]) -> Res {
    let top = (0..n).rev().find(|&v| (0..t.len()).any(|p| p >> v & 1 == 1 && t[p] != t[p ^ 1 << v]));
    ensure!(h.is_zero() == t.iter().all(|x| *x == 0), "is_zero of {:?}", t);
    ensure!(h.is_one() == t.iter().all(|x| *x == 1), "is_one of {:?}", t);
    ensure!(!h.is_undet(), "is_undet of {:?}", t);
    match (top, h.get_children()) {
        (None, None) => {
            ensure!(h.get_level().is_none() && h.get_label().is_none() && h.get_header().is_none(), "constant with a level, label or header");
            Ok(())
        }
        (Some(v), Some((a, b))) => {
            ensure!(h.get_level() == Some(v), "level of {:?} is {:?} instead of {}", t, h.get_level(), v);
            ensure!(h.get_label().as_deref() == Some(&names[v]), "label of {:?} is {:?}", t, h.get_label());
            let r = |b: usize| -> Vec<i64> { (0..t.len()).map(|p| t[p & !(1 << v) | b << v]).collect() };
            ensure!(table_h(&a, n) == r(0) && table_h(&b, n) == r(1), "children of {:?}", t);
            intro_bdd(&a, n, names, &r(0))?;
            intro_bdd(&b, n, names, &r(1))
        }
        (a, b) => Err(format!("{:?}: top variable {:?} but children {:?}", t, a, b.is_some())),
    }
}
fn intro_zdd(h: &ZddNode, t: u64, n: usize) -> Res {
    // t: bit p set when the set p is a member
    let points = 1usize << n;
    let top = (0..n).rev().find(|&v| (0..points).any(|p| t >> p & 1 == 1 && p >> v & 1 == 1));
    ensure!(h.is_zero() == (t == 0), "is_zero of {:#x}", t);
    ensure!(h.is_one() == (t == 1), "is_one of {:#x}", t);
    match (top, h.get_children()) {
        (None, None) => {
            ensure!(h.get_level().is_none() && h.get_label().is_none(), "terminal with a level or label");
            Ok(())
        }
        (Some(v), Some((a, b))) => {
            ensure!(h.get_level() == Some(v), "level of {:#x} is {:?} instead of {}", t, h.get_level(), v);
            ensure!(h.get_label() == Some(nm(v)), "label of {:#x} is {:?}", t, h.get_label());
            let without: u64 = (0..points).filter(|p| t >> p & 1 == 1 && p >> v & 1 == 0).map(|p| 1 << p).sum();
            let with: u64 = (0..points).filter(|p| t >> p & 1 == 1 && p >> v & 1 == 1).map(|p| 1u64 << (p & !(1 << v))).sum();
            ensure!(zdd_table(&a, n, &|l| l)? == without && zdd_table(&b, n, &|l| l)? == with, "children of {:#x}", t);
            intro_zdd(&a, without, n)?;
            intro_zdd(&b, with, n)
        }
        (a, b) => Err(format!("{:#x}: top element {:?} but children {:?}", t, a, b.is_some())),
    }
}
fn intro_mdd(h: &MddNode<i64>, d: &Dom, names: &[String], f: &Fun) -> Res {
    let top = d.top_var(&f.t);
    let konst = |c: i64| f.t.iter().all(|x| *x == c);
    ensure!(h.is_boolean() == (f.k == BOOL) && h.is_value() == (f.k == VALUE), "kind of {}", f.show());
    ensure!(h.is_zero() == (f.k == BOOL && konst(0)) && h.is_one() == (f.k == BOOL && konst(1)), "is_zero / is_one of {}", f.show());
    ensure!(h.is_undet() == konst(U), "is_undet of {}", f.show());
    let val = if f.k == VALUE && top.is_none() && f.t[0] != U { Some(f.t[0]) } else { None };
    ensure!(h.value() == val, "value of {} is {:?}", f.show(), h.value());
    ensure!(h.get_id2() == if f.k == VALUE { (h.get_id(), 0) } else { (0, h.get_id()) }, "get_id2 of {}", f.show());
    match (top, h.get_children()) {
        (None, None) => {
            ensure!(h.get_level().is_none() && h.get_label().is_none() && h.get_header().is_none(), "constant with a level, label or header");
            Ok(())
        }
        (Some(v), Some(ch)) => {
            ensure!(h.get_level() == Some(v) && h.get_label().as_deref() == Some(&names[v]), "level {:?} label {:?} of {}", h.get_level(), h.get_label(), f.show());
            ensure!(ch.len() == d.sizes[v], "{} children of {}", ch.len(), f.show());
            let st: usize = d.sizes[..v].iter().product();
            for (j, c) in ch.iter().enumerate() {
                let r = Fun { k: f.k, t: (0..f.t.len()).map(|p| f.t[p - (p / st) % d.sizes[v] * st + j * st]).collect() };
                ensure!(mss_table(c, &d.sizes)? == r, "child {} of {}", j, f.show());
                intro_mdd(c, d, names, &r)?;
            }
            Ok(())
        }
        (a, b) => Err(format!("{}: top variable {:?} but children {:?}", f.show(), a, b.is_some())),
    }
}

/// All functions in one forest: every reachable node is ordered, reduced and unique.
fn forest<C: Core>(cx: &mut Cx, sizes: &[usize], funs: &[Fun], ops: &[Op]) {
    for l in layouts(sizes, true) {
        for cold in [false, true] {
            if !cx.mine() {
                continue;
            }
            let l = &l;
            cx.case(
                || format!("{} {}: forest of {} functions and operation results, cold={}", C::NAME, l.show(), funs.len(), cold),
                |cx| {
                    let mut c = C::new(l);
                    let ids: Vec<u64> = funs.iter().map(|f| c.build(f)).collect();
                    let mut all: Vec<u64> = ids.clone();
                    let step = 1 + funs.len() / 60;
                    for &op in ops {
                        for i in (0..ids.len()).step_by(step) {
                            for j in (0..ids.len()).step_by(step) {
                                if cold {
                                    c.clear_cache();
                                }
                                let a = [ids[i], ids[j], ids[i]];
                                all.push(c.op(op, &a[..op.arity()]));
                            }
                        }
                    }
                    check_forest(&c, &all, l)?;
                    // collect half, build again: still one node per function
                    let keep: Vec<u64> = ids.iter().step_by(2).copied().collect();
                    c.gc(&keep);
                    let again: Vec<u64> = funs.iter().map(|f| c.build(f)).collect();
                    for (i, (a, b)) in ids.iter().zip(&again).enumerate() {
                        ensure!(i % 2 == 1 || a == b, "kept function {} has another node after a collection", funs[i].show());
                    }
                    check_forest(&c, &again, l)?;
                    let set: HashSet<u64> = again.iter().copied().collect();
                    ensure!(set.len() == funs.len(), "two functions share a node");
                    cx.states(funs.len() as u64);
                    cx.trans(all.len() as u64);
                    Ok(())
                },
            );
        }
    }
}
fn check_forest<C: Core>(c: &C, roots: &[u64], l: &Layout) -> Res {
    let mut seen: HashSet<u64> = HashSet::new();
    let mut key: HashMap<(u8, usize, Vec<u64>), u64> = HashMap::new();
    let mut terms: HashMap<(u8, i64), u64> = HashMap::new();
    let mut st = roots.to_vec();
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        match c.view(x)? {
            View::Term(v) => {
                if let Some(o) = terms.insert((c.kind(x), v), x) {
                    return Err(format!("terminal {} duplicated as nodes {} and {}", v, o, x));
                }
            }
            View::Node(lv, ch) => {
                let v = l.var_of_level(lv).ok_or_else(|| format!("level {}", lv))?;
                ensure!(ch.len() == l.dom.sizes[v], "node with {} edges at variable {}", ch.len(), v);
                for y in &ch {
                    ensure!(c.kind(*y) == c.kind(x), "child of another kind");
                    if let View::Node(l2, _) = c.view(*y)? {
                        ensure!(l2 < lv, "child at level {} under level {}", l2, lv);
                    }
                }
                let redundant = if C::ZS {
                    let absent = if C::NAME == "ZMDD" { U } else { 0 };
                    ch[1..].iter().all(|y| matches!(c.view(*y), Ok(View::Term(v)) if v == absent))
                } else {
                    ch.iter().all(|y| *y == ch[0])
                };
                ensure!(!redundant, "redundant node {} at level {} children {:?}", x, lv, ch);
                if let Some(o) = key.insert((c.kind(x), lv, ch.clone()), x) {
                    return Err(format!("duplicate nodes {} and {} at level {}", o, x, lv));
                }
                st.extend(ch);
            }
        }
    }
    Ok(())
}

// histories of definitions and operations on the wrapper managers

struct DefBdd {
    m: BssMgr,
    order: Vec<String>,
    first: HashMap<String, BddNode>,
    acc: Option<(BddNode, u64)>,
}
const DN: [&str; 3] = ["b", "a", "c"];
const DT: [u64; 3] = [0xaa, 0xcc, 0xf0];
/// table over (b, a, c) by label
fn tab_label(h: &BddNode) -> Result<u64, String> {
    fn rec(h: &BddNode, p: usize) -> Result<bool, String> {
        match h.get_children() {
            None => {
                ensure!(!h.is_undet(), "undetermined");
                Ok(h.is_one())
            }
            Some((a, b)) => {
                let l = h.get_label().ok_or("no label")?;
                let i = DN.iter().position(|x| *x == l).ok_or_else(|| format!("variable {}", l))?;
                rec(if p >> i & 1 == 1 { &b } else { &a }, p)
            }
        }
    }
    let mut o = 0;
    for p in 0..8 {
        o |= (rec(h, p)? as u64) << p;
    }
    Ok(o)
}
impl DefBdd {
    fn see(&mut self, n: &str, h: BddNode) -> Res {
        if let Some(f) = self.first.get(n) {
            ensure!(f.get_id() == h.get_id() && f.get_header() == h.get_header(), "{} defined again is another node", n);
        } else {
            self.order.push(n.to_string());
            self.first.insert(n.to_string(), h);
        }
        Ok(())
    }
}
impl Machine for DefBdd {
    const NAME: &'static str = "BssMgr definitions";
    fn new() -> Self {
        DefBdd { m: BssMgr::new(), order: vec![], first: HashMap::new(), acc: None }
    }
    fn n_actions() -> usize {
        9
    }
    fn name(a: usize) -> &'static str {
        ["defvar b", "defvar a", "defvar c", "rpn \"a b &\"", "acc = acc xor c", "acc = acc or newest", "gc", "clear_cache", "threshold 1"][a]
    }
    fn act(&mut self, a: usize) -> Result<bool, String> {
        match a {
            0..=2 => {
                let h = self.m.defvar(DN[a]);
                self.see(DN[a], h)?;
            }
            3 => {
                let h = self.m.rpn("a b &")?;
                for n in ["a", "b"] {
                    let x = self.m.defvar(n);
                    self.see(n, x)?;
                }
                self.acc = Some((h, 0xaa & 0xcc));
            }
            4 => match (&self.acc, self.first.get("c")) {
                (Some((h, t)), Some(x)) => self.acc = Some((h.xor(x), t ^ 0xf0)),
                _ => return Ok(false),
            },
            5 => match (&self.acc, self.order.last()) {
                (Some((h, t)), Some(n)) => {
                    let i = DN.iter().position(|x| x == n).unwrap();
                    self.acc = Some((h.or(&self.first[n]), t | DT[i]))
                }
                _ => return Ok(false),
            },
            6 => {
                self.m.bdd().gc(&[]);
            }
            7 => self.m.clear_cache(),
            _ => self.m.bdd().set_gc_threshold(1),
        }
        Ok(true)
    }
    fn check(&mut self) -> Res {
        ensure!(self.m.get_varorder() == self.order, "order {:?} instead of {:?}", self.m.get_varorder(), self.order);
        for (i, n) in self.order.iter().enumerate() {
            let h = &self.first[n];
            ensure!(h.get_level() == Some(i) && h.get_label().as_deref() == Some(n), "{} has level {:?} label {:?}", n, h.get_level(), h.get_label());
            let (a, b) = h.get_children().ok_or("variable without children")?;
            ensure!(a.is_zero() && b.is_one(), "{} is not the variable", n);
        }
        if let Some((h, t)) = &self.acc {
            let g = tab_label(h)?;
            ensure!(g == *t, "accumulator is {:#x} instead of {:#x}", g, t);
            let top = (0..3).filter(|v| (0..8usize).any(|p| p >> v & 1 == 1 && (t >> p & 1) != (t >> (p ^ 1 << v) & 1))).map(|v| DN[v]).max_by_key(|n| self.order.iter().position(|x| x == n));
            ensure!(h.get_label().as_deref() == top, "root variable {:?} instead of {:?}", h.get_label(), top);
        }
        Ok(())
    }
    fn finish(&mut self) -> Res {
        for n in self.order.clone() {
            let h = self.m.defvar(&n);
            self.see(&n, h)?;
        }
        Ok(())
    }
}

struct DefMdd {
    m: MssMgr<i64>,
    order: Vec<(String, usize)>,
    first: HashMap<String, MddNode<i64>>,
    acc: Option<(MddNode<i64>, Vec<&'static str>)>,
}
impl DefMdd {
    fn see(&mut self, n: &str, r: usize, h: MddNode<i64>) -> Res {
        if let Some(f) = self.first.get(n) {
            ensure!(f.get_node() == h.get_node() && f.get_header() == h.get_header(), "{} defined again is another node", n);
        } else {
            self.order.push((n.to_string(), r));
            self.first.insert(n.to_string(), h);
        }
        Ok(())
    }
}
impl Machine for DefMdd {
    const NAME: &'static str = "MssMgr definitions";
    fn new() -> Self {
        DefMdd { m: MssMgr::new(), order: vec![], first: HashMap::new(), acc: None }
    }
    fn n_actions() -> usize {
        9
    }
    fn name(a: usize) -> &'static str {
        ["defvar b 2", "defvar a 3", "defvar b 4", "rpn \"a b +\" (3, 2)", "acc = acc + c (4)", "acc = min(acc, 1)", "gc", "clear_cache", "threshold 1"][a]
    }
    fn act(&mut self, a: usize) -> Result<bool, String> {
        match a {
            0..=2 => {
                let (n, r) = [("b", 2), ("a", 3), ("b", 4)][a];
                let h = self.m.defvar(n, r);
                self.see(n, r, h)?;
            }
            3 => {
                let rg: HashMap<String, usize> = [("a".to_string(), 3), ("b".to_string(), 2)].into_iter().collect();
                let h = self.m.rpn("a b +", &rg)?;
                for n in ["a", "b"] {
                    let x = self.m.defvar(n, 9);
                    self.see(n, rg[n], x)?;
                }
                self.acc = Some((h, vec!["a", "b"]));
            }
            4 => {
                let (h, mut t) = match &self.acc {
                    Some(x) => x.clone(),
                    None => return Ok(false),
                };
                let x = self.m.defvar("c", 4);
                self.see("c", 4, x.clone())?;
                t.push("c");
                self.acc = Some((h.add(&x), t));
            }
            5 => match &self.acc {
                Some((h, t)) if !t.contains(&"1") => {
                    let mut t = t.clone();
                    t.push("1");
                    self.acc = Some((h.min(&self.m.value(1)), t));
                }
                _ => return Ok(false),
            },
            6 => {
                self.m.gc(&[]);
            }
            7 => self.m.clear_cache(),
            _ => self.m.set_gc_threshold(1),
        }
        Ok(true)
    }
    fn check(&mut self) -> Res {
        ensure!(self.m.get_varorder() == self.order, "order {:?} instead of {:?}", self.m.get_varorder(), self.order);
        for (i, (n, r)) in self.order.iter().enumerate() {
            let h = &self.first[n];
            ensure!(h.get_level() == Some(i) && h.get_label().as_deref() == Some(n), "{} has level {:?} label {:?}", n, h.get_level(), h.get_label());
            let ch = h.get_children().ok_or("variable without children")?;
            ensure!(ch.len() == *r && ch.iter().enumerate().all(|(j, c)| c.value() == Some(j as i64)), "{} is not the variable of {} states", n, r);
        }
        if let Some((h, t)) = &self.acc {
            let sizes: Vec<usize> = self.order.iter().map(|x| x.1).collect();
            let d = Dom::new(&sizes);
            let pos = |n: &str| self.order.iter().position(|x| x.0 == n).unwrap();
            let e: Vec<i64> = (0..d.points())
                .map(|p| {
                    let g = d.digits(p);
                    let mut v = 0i64;
                    for x in t {
                        match *x {
                            "1" => v = v.min(1),
                            n => v += g[pos(n)] as i64,
                        }
                    }
                    v
                })
                .collect();
            let names: Vec<String> = self.order.iter().map(|x| x.0.clone()).collect();
            ensure!(mss_table(h, &sizes)? == Fun::v(e.clone()), "accumulator {:?}", t);
            intro_mdd(h, &d, &names, &Fun::v(e))?;
        }
        Ok(())
    }
    fn finish(&mut self) -> Res {
        for (n, r) in self.order.clone() {
            let h = self.m.defvar(&n, 7);
            self.see(&n, r, h)?;
        }
        Ok(())
    }
}

struct DefZdd {
    m: ZddMgr,
    order: Vec<&'static str>,
    acc: Option<(ZddNode, u64)>,
}
impl DefZdd {
    fn used(&mut self, n: &'static str) {
        if !self.order.contains(&n) {
            self.order.push(n);
        }
    }
    fn table(&self, h: &ZddNode) -> Result<u64, String> {
        let order = self.order.clone();
        zdd_table(h, 3, &move |l| DN.iter().position(|x| *x == order[l]).unwrap())
    }
}
impl Machine for DefZdd {
    const NAME: &'static str = "ZddMgr elements";
    fn new() -> Self {
        DefZdd { m: ZddMgr::new(), order: vec![], acc: None }
    }
    fn n_actions() -> usize {
        9
    }
    fn name(a: usize) -> &'static str {
        ["singleton b", "singleton a", "singleton c", "from_sets {a,c},{b}", "acc = acc union b", "acc = acc join c", "threshold 1", "clear_cache", "from_sets {a,a},{},{a}"][a]
    }
    fn act(&mut self, a: usize) -> Result<bool, String> {
        let s = |x: &[&str]| x.iter().map(|y| y.to_string()).collect::<Vec<_>>();
        match a {
            0..=2 => {
                let h = self.m.singleton(DN[a]);
                self.used(DN[a]);
                self.acc = Some((h, 1 << (1 << a)));
            }
            3 => {
                let h = self.m.from_sets(&[s(&["a", "c"]), s(&["b"])]);
                // elements get levels at their first use, in the order met
                let mut lv: Vec<(usize, &'static str)> = vec![];
                for n in ["a", "c", "b"] {
                    if !self.order.contains(&n) {
                        let x = self.m.singleton(n);
                        lv.push((x.get_level().ok_or("no level")?, n));
                    }
                }
                lv.sort();
                for (l, n) in lv {
                    ensure!(l == self.order.len(), "new element {} at level {}", n, l);
                    self.order.push(n);
                }
                self.acc = Some((h, 1 << 0b110 | 1 << 0b001));
            }
            4 | 5 => {
                let (h, t) = match &self.acc {
                    Some(x) => x.clone(),
                    None => return Ok(false),
                };
                let n = if a == 4 { "b" } else { "c" };
                let x = self.m.singleton(n);
                self.used(n);
                self.acc = Some(if a == 4 {
                    (h.union(&x), t | 1 << 1)
                } else {
                    let mut u = 0;
                    for p in 0..8 {
                        if t >> p & 1 == 1 {
                            u |= 1u64 << (p | 4);
                        }
                    }
                    (h.product(&x), u)
                });
            }
            6 => self.m.set_gc_threshold(1),
            7 => self.m.clear_cache(),
            _ => {
                let h = self.m.from_sets(&[s(&["a", "a"]), s(&[]), s(&["a"])]);
                self.used("a");
                self.acc = Some((h, 1 << 2 | 1));
            }
        }
        Ok(true)
    }
    fn check(&mut self) -> Res {
        if let Some((h, t)) = &self.acc {
            let g = self.table(h)?;
            ensure!(g == *t, "family {:#x} instead of {:#x}", g, t);
            let top = (0..3).filter(|v| (0..8usize).any(|p| t >> p & 1 == 1 && p >> v & 1 == 1)).map(|v| DN[v]).max_by_key(|n| self.order.iter().position(|x| x == n));
            ensure!(h.get_label().as_deref() == top, "root element {:?} instead of {:?}", h.get_label(), top);
        }
        Ok(())
    }
    fn finish(&mut self) -> Res {
        for (i, n) in self.order.clone().into_iter().enumerate() {
            let x = self.m.singleton(n);
            ensure!(x.get_level() == Some(i) && x.get_label().as_deref() == Some(n), "{} has level {:?}", n, x.get_level());
            let y = self.m.singleton(n);
            ensure!(x.get_id() == y.get_id(), "{} again is another node", n);
        }
        Ok(())
    }
}

/// Two managers of each kind driven in every interleaving; opposite variable orders.
struct Two {
    b: [BddMgr; 2],
    v: [Vec<BddNode>; 2],
    r: [Option<(BddNode, u64)>; 2],
    d: [MddMgr<i64>; 2],
    s: [Option<MddNode<i64>>; 2],
}
impl Machine for Two {
    const NAME: &'static str = "two managers";
    fn new() -> Self {
        let mut b = [BddMgr::new(), BddMgr::new()];
        let v0: Vec<BddNode> = [0, 1, 2].iter().map(|&i| b[0].defvar(DN[i])).collect();
        let mut v1: Vec<BddNode> = [2, 1, 0].iter().map(|&i| b[1].defvar(DN[i])).collect();
        v1.reverse();
        Two { b, v: [v0, v1], r: [None, None], d: [MddMgr::new(), MddMgr::new()], s: [None, None] }
    }
    fn n_actions() -> usize {
        12
    }
    fn name(a: usize) -> &'static str {
        [
            "1: r = a & b", "2: r = a & b", "1: r = r ^ c", "2: r = r ^ c", "1: r = !r", "2: r = !r", "1: drop r, gc", "2: drop r, gc", "1: m = x + y (3, 2)", "2: m = x + y (2, 3)",
            "1: gc", "2: clear caches",
        ][a]
    }
    fn act(&mut self, a: usize) -> Result<bool, String> {
        let i = a % 2;
        match a / 2 {
            0 => self.r[i] = Some((self.v[i][0].and(&self.v[i][1]), 0xaa & 0xcc)),
            1 | 2 => match &self.r[i] {
                None => return Ok(false),
                Some((h, t)) => self.r[i] = Some(if a / 2 == 1 { (h.xor(&self.v[i][2]), t ^ 0xf0) } else { (h.not(), !t & 0xff) }),
            },
            3 => {
                if self.r[i].take().is_none() {
                    return Ok(false);
                }
                self.b[i].gc(&[]);
            }
            4 => {
                let (rx, ry) = if i == 0 { (3, 2) } else { (2, 3) };
                let x = self.d[i].defvar("x", rx);
                let y = self.d[i].defvar("y", ry);
                self.s[i] = Some(x.add(&y));
            }
            _ => {
                if i == 0 {
                    self.b[0].gc(&[]);
                    self.d[0].gc(&[]);
                } else {
                    self.b[1].clear_cache();
                    self.d[1].clear_cache();
                }
            }
        }
        Ok(true)
    }
    fn check(&mut self) -> Res {
        for i in 0..2 {
            let o: Vec<String> = if i == 0 { DN.iter().map(|s| s.to_string()).collect() } else { DN.iter().rev().map(|s| s.to_string()).collect() };
            ensure!(self.b[i].get_varorder() == o, "manager {}: order {:?}", i + 1, self.b[i].get_varorder());
            if let Some((h, t)) = &self.r[i] {
                let g = tab_label(h)?;
                ensure!(g == *t, "manager {}: {:#x} instead of {:#x}", i + 1, g, t);
            }
            if let Some(h) = &self.s[i] {
                let s = if i == 0 { [3, 2] } else { [2, 3] };
                let d = Dom::new(&s);
                let e: Vec<i64> = d.var(0).iter().zip(d.var(1)).map(|(a, b)| a + b).collect();
                ensure!(mss_table(h, &s)? == Fun::v(e), "manager {}: sum", i + 1);
            }
        }
        Ok(())
    }
    fn finish(&mut self) -> Res {
        Ok(())
    }
}

pub fn c22(cx: &mut Cx) {
    let th = cx.thorough;
    cx.section("all histories of definitions, BssMgr");
    sequences::<DefBdd>(cx, if th { 7 } else { 5 });
    cx.section("all histories of definitions, MssMgr");
    sequences::<DefMdd>(cx, if th { 6 } else { 5 });
    cx.section("all histories of elements, ZddMgr");
    sequences::<DefZdd>(cx, if th { 6 } else { 5 });
    cx.section("all interleavings of two managers");
    sequences::<Two>(cx, if th { 6 } else { 5 });

    cx.section("introspection of every function: binary");
    for ch in (0..256u64).collect::<Vec<_>>().chunks(32) {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("functions {:#x}.. of 3 variables, families of 3 elements", ch[0]),
            |cx| {
                let mut m = BddMgr::new();
                let names: Vec<String> = ["one", "zero", "x9"].iter().map(|s| s.to_string()).collect();
                let x: Vec<BddNode> = names.iter().map(|n| m.defvar(n)).collect();
                let mut z = ZddMgr::new();
                for i in 0..3 {
                    z.singleton(&nm(i));
                }
                for &f in ch {
                    let t = bits(8, f);
                    intro_bdd(&build_h(&m, &x, &t), 3, &names, &t)?;
                    intro_zdd(&zbuild(&mut z, &t), f, 3)?;
                }
                cx.states(2 * ch.len() as u64);
                cx.trans(2 * ch.len() as u64);
                Ok(())
            },
        );
    }
    for f in (0..65536u64).step_by(2048) {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("functions {:#x}.. of 4 variables", f),
            |cx| {
                let mut m = BddMgr::new();
                let names: Vec<String> = (0..4).map(|i| nm(i)).collect();
                let x: Vec<BddNode> = names.iter().map(|n| m.defvar(n)).collect();
                for g in f..f + 2048 {
                    let t = bits(16, g);
                    intro_bdd(&build_h(&m, &x, &t), 4, &names, &t)?;
                }
                cx.states(2048);
                cx.trans(2048);
                Ok(())
            },
        );
    }
    cx.section("introspection of every function: multi-state");
    for (s, funs) in [
        (vec![2usize, 3], bfuns(&[2, 3])),
        (vec![3, 2], vfuns(&[3, 2], &[0, 1, 2])),
        (vec![2, 2], vfuns(&[2, 2], &[-1, 0, 1, U])),
        (vec![2, 2], ufuns(&[2, 2])),
        (vec![2, 2, 2], bfuns(&[2, 2, 2])),
        (vec![5], vfuns(&[5], &[0, 1, U])),
        (vec![2, 3], ufuns(&[2, 3])),
    ] {
        for ch in funs.chunks(64) {
            if !cx.mine() {
                continue;
            }
            let s = &s;
            cx.case(
                || format!("{} functions from {} over {:?}", ch.len(), ch[0].show(), s),
                |cx| {
                    let mut m: MddMgr<i64> = MddMgr::new();
                    let names: Vec<String> = (0..s.len()).map(|v| format!("v{}", 9 - v)).collect();
                    let x: Vec<MddNode<i64>> = s.iter().zip(&names).map(|(&k, n)| m.defvar(n, k)).collect();
                    let d = Dom::new(s);
                    for f in ch {
                        intro_mdd(&mss_build(&m, &x, f, s), &d, &names, f)?;
                    }
                    cx.states(ch.len() as u64);
                    cx.trans(ch.len() as u64);
                    Ok(())
                },
            );
        }
    }
    cx.section("headers, node construction and constants through every manager");
    facade(cx);
    cx.section("handles of variables with many states");
    wide_handles(cx);
    cx.section("handles that outlive their manager");
    outlive(cx);
    cx.section("names that are easy to confuse");
    crate::p_names::define(cx);
    cx.section("whole forests: ordered, reduced, no duplicates");
    let b3 = bfuns(&[2, 2, 2]);
    forest::<BddC>(cx, &[2, 2, 2], &b3, &[Op::And, Op::Or, Op::Xor, Op::Not, Op::Ite]);
    forest::<ZddC>(cx, &[2, 2, 2], &b3, &[Op::Union, Op::Intersect, Op::Setdiff, Op::Product]);
    forest::<MddC>(cx, &[2, 3], &bfuns(&[2, 3]), &[Op::And, Op::Or, Op::Xor, Op::Not, Op::Ite]);
    forest::<MddC>(cx, &[2, 3], &ufuns(&[2, 3]), &[]);
    let v = vfuns(&[2, 3], &[0, 1, 2]);
    forest::<MtC>(cx, &[2, 3], &v, &[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Min, Op::Max]);
    forest::<Mt2C>(cx, &[2, 3], &v, &[Op::Add, Op::Sub, Op::Min, Op::Max, Op::Eq, Op::Lt, Op::Lte]);
    forest::<ZmC>(cx, &[2, 3], &vfuns(&[2, 3], &[0, 1, U]), &[Op::LIntersect, Op::LSetdiff]);
    cx.section("many variables and late definitions");
    for n in [10usize, 100, 300, 1000] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{} definitions with operations and collections in between", n),
            |cx| {
                let mut m = BssMgr::new();
                let mut s: MssMgr<i64> = MssMgr::new();
                let mut f = m.zero();
                let mut g = s.boolean(false);
                let mut order = vec![];
                let mut order2 = vec![];
                for i in 0..n {
                    let name = format!("v{}", (i * 7919) % 100_003);
                    let x = m.defvar(&name);
                    let y = s.defvar(&name, 2 + i % 3);
                    order.push(name.clone());
                    order2.push((name.clone(), 2 + i % 3));
                    f = f.xor(&x);
                    g = g.xor(&y.eq(&s.value(1)));
                    if i % 50 == 3 {
                        m.bdd().gc(&[]);
                        s.gc(&[]);
                    }
                    ensure!(x.get_level() == Some(i) && y.get_level() == Some(i), "levels of {}", name);
                    ensure!(f.get_label() == Some(name.clone()) && g.get_label() == Some(name), "root after {} definitions", i + 1);
                }
                ensure!(m.get_varorder() == order, "binary order");
                ensure!(s.get_varorder() == order2, "multi-state order");
                ensure!(f.size().0 == 2 * n as u64 - 1, "parity has {} nodes", f.size().0);
                for (i, o) in order.iter().enumerate() {
                    let x = m.defvar(o);
                    let y = s.defvar(o, 99);
                    ensure!(x.get_level() == Some(i) && y.get_level() == Some(i), "levels of {} asked again", o);
                    ensure!(y.get_children().map(|c| c.len()) == Some(order2[i].1), "states of {}", o);
                }
                cx.states(n as u64);
                cx.trans(4 * n as u64);
                Ok(())
            },
        );
    }
}

fn facade(cx: &mut Cx) {
    for n in 1..=4usize {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("{} variables: header of every function, create_node of every pair below", n),
            |cx| {
                let mut b = BssMgr::new();
                let mut bm = BddMgr::new();
                let mut s: MssMgr<i64> = MssMgr::new();
                ensure!(b.zero().is_zero() && b.one().is_one() && !b.zero().is_one() && !b.one().is_zero(), "constants of BssMgr");
                ensure!(bm.zero().is_zero() && bm.one().is_one(), "constants of BddMgr");
                ensure!(s.boolean(false).is_zero() && s.boolean(true).is_one() && s.value(5).value() == Some(5), "constants of MssMgr");
                ensure!(s.undet_boolean().is_undet() && s.undet_boolean().is_boolean(), "undetermined Boolean");
                ensure!(s.undet_value().is_undet() && s.undet_value().is_value(), "undetermined value");
                ensure!(!b.one().eq(&b.zero()) && b.one().eq(&b.one()), "constants are compared");
                let xb: Vec<BddNode> = (0..n).map(|v| b.defvar(&nm(v))).collect();
                let _xm: Vec<BddNode> = (0..n).map(|v| bm.defvar(&nm(v))).collect();
                let xs: Vec<MddNode<i64>> = (0..n).map(|v| s.defvar(&nm(v), 2 + v % 2)).collect();
                ensure!(b.size().0 == n && b.bdd().size().0 == n && bm.size().0 == n && s.size().0 == n && s.mdd().size().0 == n, "number of variables");
                let hb: Vec<_> = xb.iter().map(|x| x.get_header()).collect();
                let hs: Vec<_> = xs.iter().map(|x| x.get_header()).collect();
                for i in 0..n {
                    ensure!(hb[i].is_some() && hs[i].is_some(), "variable {} without a header", i);
                    for j in 0..i {
                        ensure!(hb[i] != hb[j] && hs[i] != hs[j], "variables {} and {} share a header", i, j);
                    }
                }
                let m = n - 1; // functions of the variables below the last
                let cnt = 1u64 << (1u64 << m);
                let low: Vec<BddNode> = (0..cnt).map(|t| build_h(b.bdd(), &xb[..m], &bits(1 << m, t))).collect();
                for (t, h) in low.iter().enumerate() {
                    let tb = bits(1 << m, t as u64);
                    let top = (0..m).rev().find(|&v| (0..1usize << m).any(|p| tb[p] != tb[p ^ 1 << v]));
                    ensure!(h.get_header() == top.and_then(|v| hb[v]), "header of {:#x}", t);
                }
                let step = if n == 4 { 17 } else { 1 };
                for f in (0..cnt as usize).step_by(step) {
                    for g in 0..cnt as usize {
                        let h = b.create_node(hb[m].unwrap(), &low[f], &low[g]);
                        let want: Vec<i64> = bits(1 << m, f as u64).into_iter().chain(bits(1 << m, g as u64)).collect();
                        ensure!(table_h(&h, n) == want, "create_node({:#x}, {:#x}) gives {:?}", f, g, table_h(&h, n));
                        ensure!(h.eq(&xb[m].ite(&low[g], &low[f])), "create_node({:#x}, {:#x}) is not the canonical node", f, g);
                        ensure!(f == g || h.get_header() == hb[m], "header of a new node");
                        cx.trans(2);
                    }
                }
                // multi-state: every combination of four children
                let k = 2 + m % 2;
                let ch: Vec<MddNode<i64>> = if m == 0 {
                    vec![s.value(0), s.value(1), s.undet_value()]
                } else {
                    vec![s.value(0), xs[m - 1].clone(), xs[0].add(&s.value(1)), s.undet_value()]
                };
                let bc: Vec<MddNode<i64>> = if m == 0 {
                    vec![s.boolean(false), s.boolean(true), s.undet_boolean()]
                } else {
                    vec![s.boolean(true), xs[m - 1].eq(&s.value(1)), xs[0].ge(&s.value(1)), s.undet_boolean()]
                };
                for ch in [&ch, &bc] {
                    for c in 0..ch.len().pow(k as u32) {
                        let pick: Vec<MddNode<i64>> = (0..k).map(|i| ch[c / ch.len().pow(i as u32) % ch.len()].clone()).collect();
                        let h = s.create_node(hs[m].unwrap(), &pick);
                        let same = pick.iter().all(|x| x.get_node() == pick[0].get_node());
                        if same {
                            ensure!(h.get_node() == pick[0].get_node(), "a node with equal children was not reduced");
                        } else {
                            ensure!(h.get_header() == hs[m] && h.get_label() == Some(nm(m)), "header of a new node");
                            let got = h.get_children().ok_or("no children")?;
                            ensure!(got.len() == k && got.iter().zip(&pick).all(|(a, b)| a.get_node() == b.get_node()), "children of a new node");
                            let again = s.mdd().create_node(hs[m].unwrap(), &pick);
                            ensure!(again.get_node() == h.get_node(), "created twice");
                        }
                        cx.trans(1);
                    }
                }
                // families
                let mut z = ZddMgr::new();
                ensure!(z.zero().is_zero() && z.one().is_one() && z.empty().is_zero() && z.base().is_one(), "constants of ZddMgr");
                let e: Vec<ZddNode> = (0..n).map(|v| z.singleton(&nm(v))).collect();
                ensure!(z.size().0 == n, "number of elements");
                for t in 0..cnt {
                    let f = zbuild(&mut z, &bits(1 << m, t));
                    let top = (0..m).rev().find(|&v| (0..1usize << m).any(|p| t >> p & 1 == 1 && p >> v & 1 == 1));
                    ensure!(f.get_header() == top.and_then(|v| e[v].get_header()), "header of family {:#x}", t);
                    ensure!(z.singleton(&nm(m)).eq(&e[m]), "singleton asked again");
                }
                cx.states(cnt);
                Ok(())
            },
        );
    }
}

fn wide_handles(cx: &mut Cx) {
    for w in [254usize, 255, 256, 257, 300, 1000, 65_535, 65_536, 65_537, 70_000] {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("a variable of {} states above and below one of three", w),
            |cx| {
                for below in [false, true] {
                    let mut s: MssMgr<i64> = MssMgr::new();
                    let (x, y);
                    if below {
                        x = s.defvar("wide", w);
                        y = s.defvar("three", 3);
                        ensure!(s.get_varorder() == vec![("wide".to_string(), w), ("three".to_string(), 3)], "order");
                    } else {
                        y = s.defvar("three", 3);
                        x = s.defvar("wide", w);
                        ensure!(s.get_varorder() == vec![("three".to_string(), 3), ("wide".to_string(), w)], "order");
                    }
                    let c = x.get_children().ok_or("no children")?;
                    ensure!(c.len() == w, "{} children instead of {}", c.len(), w);
                    for (i, c) in c.iter().enumerate() {
                        ensure!(c.value() == Some(i as i64), "child {} is {:?}", i, c.value());
                    }
                    ensure!(x.size() == (1, w as u64, w as u64), "size {:?}", x.size());
                    let s2 = x.add(&y);
                    let top = s2.get_children().ok_or("no children")?;
                    ensure!(top.len() == if below { 3 } else { w }, "children of the sum");
                    for (i, t) in top.iter().enumerate() {
                        for (j, u) in t.get_children().ok_or("no children")?.iter().enumerate() {
                            ensure!(u.value() == Some((i + j) as i64), "sum at {} {}: {:?}", i, j, u.value());
                        }
                    }
                    let again = s.defvar("wide", 2);
                    ensure!(again.get_node() == x.get_node(), "asked again");
                    for k in [1usize, 2, 128, 254, 255, 256, 257, w - 1] {
                        if k >= w {
                            continue;
                        }
                        let g = x.ge(&s.value(k as i64));
                        let ch = g.get_children().ok_or("no children")?;
                        for (i, c) in ch.iter().enumerate() {
                            ensure!(c.is_one() == (i >= k) && c.is_zero() == (i < k), "state {} of x >= {}", i, k);
                        }
                    }
                    cx.trans(10 * w as u64);
                }
                cx.states(2);
                Ok(())
            },
        );
    }
}

/// Dropping and cloning what is left of a manager is harmless.
fn outlive(cx: &mut Cx) {
    for order in 0..8u32 {
        if !cx.mine() {
            continue;
        }
        cx.case(
            || format!("managers dropped before handles, variant {}", order),
            |cx| {
                let mut b = BssMgr::new();
                let x: Vec<BddNode> = (0..3).map(|v| b.defvar(&nm(v))).collect();
                let f = x[0].and(&x[1]).or(&x[2]);
                let p = b.minpath(&f).ok_or("no minimal paths")?;
                let mut s: MssMgr<i64> = MssMgr::new();
                let y: Vec<MddNode<i64>> = (0..2).map(|v| s.defvar(&nm(v), 3)).collect();
                let g = y[0].max(&y[1]);
                let q = s.minpath(&g).ok_or("no minimal vectors")?;
                let mut z = ZddMgr::new();
                let e = z.singleton("e");
                let other = {
                    let mut o = BddMgr::new();
                    let u = o.defvar("a");
                    let v = o.defvar("b");
                    (u.xor(&v), o)
                };
                if order & 1 != 0 { drop(b) } else { std::mem::drop((f.clone(), p.clone())) }
                if order & 2 != 0 { drop(s) } else { std::mem::drop((g.clone(), q.clone())) }
                if order & 4 != 0 { drop(z) } else { std::mem::drop(e.clone()) }
                drop((x, f, p));
                drop((y, g, q));
                drop(e);
                ensure!(table_h(&other.0, 2) == vec![0, 1, 1, 0], "another manager is unaffected");
                cx.states(1);
                cx.trans(6);
                cx.traces(1);
                Ok(())
            },
        );
    }
}
