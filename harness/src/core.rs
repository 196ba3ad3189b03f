//! Uniform access to the six core managers (BDD, ZDD, MDD, MTMDD, MTMDD2, ZMDD) for the
//! exploration engines: build a diagram from a table, read a table back by walking the
//! diagram, apply an operation, collect garbage.
use crate::refm::*;
use bddcore::prelude as b;
use common::prelude::*;
use mddcore::prelude as m;
use std::collections::{HashMap, HashSet};

/// Variable i (0 = lowest) has `sizes[i]` states, sits at level `levels[i]`; headers are
/// created in the order `order`.
#[derive(Clone, Debug)]
pub struct Layout {
    pub dom: Dom,
    pub levels: Vec<usize>,
    pub order: Vec<usize>,
}

impl Layout {
    pub fn std(sizes: &[usize]) -> Layout {
        Layout {
            dom: Dom::new(sizes),
            levels: (0..sizes.len()).collect(),
            order: (0..sizes.len()).collect(),
        }
    }
    pub fn with(sizes: &[usize], levels: &[usize], order: &[usize]) -> Layout {
        Layout {
            dom: Dom::new(sizes),
            levels: levels.to_vec(),
            order: order.to_vec(),
        }
    }
    pub fn show(&self) -> String {
        format!("sizes {:?} levels {:?} header order {:?}", self.dom.sizes, self.levels, self.order)
    }
    pub fn var_of_level(&self, l: usize) -> Option<usize> {
        self.levels.iter().position(|&x| x == l)
    }
}

pub enum View {
    Term(i64),
    Node(usize, Vec<u64>),
}

pub trait Core {
    const NAME: &'static str;
    /// zero-suppressed: a skipped variable means "state 0" (absent), not "don't care"
    const ZS: bool;
    const OPS: &'static [Op];
    fn new(l: &Layout) -> Self;
    fn layout(&self) -> &Layout;
    fn mk(&mut self, kind: u8, var: usize, ch: &[u64]) -> u64;
    fn term(&mut self, kind: u8, v: i64) -> u64;
    fn view(&self, id: u64) -> Result<View, String>;
    fn kind(&self, _id: u64) -> u8 {
        BOOL
    }
    fn op(&mut self, op: Op, a: &[u64]) -> u64;
    /// returns the reported number of reclaimed slots
    fn gc(&mut self, roots: &[u64]) -> usize;
    fn live(&self) -> usize;
    /// terminals that are always live
    fn fixed(&self) -> Vec<u64>;
    fn clear_cache(&mut self);
    fn dot(&self, id: u64) -> String;

    fn build(&mut self, f: &Fun) -> u64 {
        let n = self.layout().dom.n();
        let sizes = self.layout().dom.sizes.clone();
        if Self::ZS && f.t.iter().all(|&x| x == U) {
            return self.term(f.k, U);
        }
        self.build_rec(f, &sizes, n, 0)
    }
    fn build_rec(&mut self, f: &Fun, sizes: &[usize], v: usize, base: usize) -> u64 {
        if v == 0 {
            return self.term(f.k, f.t[base]);
        }
        let st: usize = sizes[..v - 1].iter().product();
        let ch: Vec<u64> = (0..sizes[v - 1])
            .map(|d| self.build_rec(f, sizes, v - 1, base + d * st))
            .collect();
        self.mk(f.k, v - 1, &ch)
    }

    /// Read the function back by walking the diagram; also checks the variable ordering.
    fn table(&self, id: u64) -> Result<Fun, String> {
        let l = self.layout();
        let k = self.kind(id);
        if Self::ZS {
            if let View::Term(U) = self.view(id)? {
                return Ok(Fun { k, t: vec![U; l.dom.points()] });
            }
        }
        let mut t = vec![0; l.dom.points()];
        self.fill(id, l.dom.n(), 0, &mut t)?;
        Ok(Fun { k, t })
    }
    fn fill(&self, id: u64, v: usize, base: usize, t: &mut Vec<i64>) -> Result<(), String> {
        let l = self.layout();
        if v == 0 {
            return match self.view(id)? {
                View::Term(x) => {
                    t[base] = x;
                    Ok(())
                }
                View::Node(lv, _) => Err(format!("variable order broken: node at level {} below the lowest variable", lv)),
            };
        }
        let w = v - 1;
        let st: usize = l.dom.sizes[..w].iter().product();
        let (here, ch) = match self.view(id)? {
            View::Node(lv, ch) => {
                let x = l.var_of_level(lv).ok_or_else(|| format!("unknown level {}", lv))?;
                if x > w {
                    return Err(format!("variable order broken: node of variable {} below variable {}", x, w + 1));
                }
                if x == w && ch.len() != l.dom.sizes[w] {
                    return Err(format!("node of variable {} has {} edges", w, ch.len()));
                }
                (x == w, ch)
            }
            View::Term(_) => (false, vec![]),
        };
        for d in 0..l.dom.sizes[w] {
            if here {
                self.fill(ch[d], w, base + d * st, t)?;
            } else if Self::ZS && d > 0 {
                let absent = if Self::NAME == "ZMDD" { U } else { 0 };
                for p in 0..st {
                    t[base + d * st + p] = absent;
                }
            } else {
                self.fill(id, w, base + d * st, t)?;
            }
        }
        Ok(())
    }

    /// Node ids reachable from the roots plus the always-live terminals.
    fn reach(&self, roots: &[u64]) -> Result<HashSet<u64>, String> {
        let mut s: HashSet<u64> = self.fixed().into_iter().collect();
        let mut st: Vec<u64> = roots.to_vec();
        while let Some(x) = st.pop() {
            if s.insert(x) {
                if let View::Node(_, ch) = self.view(x)? {
                    st.extend(ch);
                }
            }
        }
        Ok(s)
    }
}

// ---------------------------------------------------------------- BDD
pub struct BddC {
    pub m: b::BddManager,
    pub l: Layout,
    pub h: Vec<usize>,
}
fn mk_headers(l: &Layout, mut f: impl FnMut(usize, &str, usize) -> usize) -> Vec<usize> {
    let mut h = vec![0; l.dom.n()];
    for &v in &l.order {
        h[v] = f(l.levels[v], &nm(v), l.dom.sizes[v]);
    }
    h
}
impl Core for BddC {
    const NAME: &'static str = "BDD";
    const ZS: bool = false;
    const OPS: &'static [Op] = &[Op::And, Op::Or, Op::Xor, Op::Imp, Op::Nand, Op::Nor, Op::Xnor];
    fn new(l: &Layout) -> Self {
        let mut m = b::BddManager::new();
        let h = mk_headers(l, |lv, n, _| m.create_header(lv, n));
        BddC { m, l: l.clone(), h }
    }
    fn layout(&self) -> &Layout {
        &self.l
    }
    fn mk(&mut self, _k: u8, v: usize, ch: &[u64]) -> u64 {
        self.m.create_node(self.h[v], ch[0] as usize, ch[1] as usize) as u64
    }
    fn term(&mut self, _k: u8, v: i64) -> u64 {
        (match v {
            0 => self.m.zero(),
            1 => self.m.one(),
            _ => self.m.undet(),
        }) as u64
    }
    fn view(&self, id: u64) -> Result<View, String> {
        let id = id as usize;
        match self.m.get_node(&id) {
            None => Err(format!("no node {}", id)),
            Some(b::Node::Zero) => Ok(View::Term(0)),
            Some(b::Node::One) => Ok(View::Term(1)),
            Some(b::Node::Undet) => Ok(View::Term(U)),
            Some(b::Node::NonTerminal(n)) => Ok(View::Node(
                self.m.level(&id).ok_or("no level")?,
                n.iter().map(|x| x as u64).collect(),
            )),
        }
    }
    fn op(&mut self, op: Op, a: &[u64]) -> u64 {
        let x = |i: usize| a[i] as usize;
        (match op {
            Op::Not => self.m.not(x(0)),
            Op::And => self.m.and(x(0), x(1)),
            Op::Or => self.m.or(x(0), x(1)),
            Op::Xor => self.m.xor(x(0), x(1)),
            Op::Imp => self.m.imp(x(0), x(1)),
            Op::Nand => self.m.nand(x(0), x(1)),
            Op::Nor => self.m.nor(x(0), x(1)),
            Op::Xnor => self.m.xnor(x(0), x(1)),
            Op::Ite => self.m.ite(x(0), x(1), x(2)),
            _ => unreachable!(),
        }) as u64
    }
    fn gc(&mut self, roots: &[u64]) -> usize {
        let r: Vec<usize> = roots.iter().map(|x| *x as usize).collect();
        self.m.gc(&r)
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn fixed(&self) -> Vec<u64> {
        vec![self.m.zero() as u64, self.m.one() as u64, self.m.undet() as u64]
    }
    fn clear_cache(&mut self) {
        self.m.clear_cache()
    }
    fn dot(&self, id: u64) -> String {
        self.m.dot_string(&(id as usize))
    }
}

// ---------------------------------------------------------------- ZDD
pub struct ZddC {
    pub m: b::ZddManager,
    pub l: Layout,
    pub h: Vec<usize>,
}
impl Core for ZddC {
    const NAME: &'static str = "ZDD";
    const ZS: bool = true;
    const OPS: &'static [Op] = &[Op::Union, Op::Intersect, Op::Setdiff, Op::Product, Op::Divide];
    fn new(l: &Layout) -> Self {
        let mut m = b::ZddManager::new();
        let h = mk_headers(l, |lv, n, _| m.create_header(lv, n));
        ZddC { m, l: l.clone(), h }
    }
    fn layout(&self) -> &Layout {
        &self.l
    }
    fn mk(&mut self, _k: u8, v: usize, ch: &[u64]) -> u64 {
        self.m.create_node(self.h[v], ch[0] as usize, ch[1] as usize) as u64
    }
    fn term(&mut self, _k: u8, v: i64) -> u64 {
        (match v {
            0 => self.m.zero(),
            1 => self.m.one(),
            _ => self.m.undet(),
        }) as u64
    }
    fn view(&self, id: u64) -> Result<View, String> {
        let id = id as usize;
        match self.m.get_node(&id) {
            None => Err(format!("no node {}", id)),
            Some(b::Node::Zero) => Ok(View::Term(0)),
            Some(b::Node::One) => Ok(View::Term(1)),
            Some(b::Node::Undet) => Ok(View::Term(U)),
            Some(b::Node::NonTerminal(n)) => Ok(View::Node(
                self.m.level(&id).ok_or("no level")?,
                n.iter().map(|x| x as u64).collect(),
            )),
        }
    }
    fn op(&mut self, op: Op, a: &[u64]) -> u64 {
        let x = |i: usize| a[i] as usize;
        (match op {
            Op::Union => self.m.union(x(0), x(1)),
            Op::Intersect => self.m.intersect(x(0), x(1)),
            Op::Setdiff => self.m.setdiff(x(0), x(1)),
            Op::Product => self.m.product(x(0), x(1)),
            Op::Divide => self.m.divide(x(0), x(1)),
            _ => unreachable!(),
        }) as u64
    }
    fn gc(&mut self, roots: &[u64]) -> usize {
        let r: Vec<usize> = roots.iter().map(|x| *x as usize).collect();
        self.m.gc(&r)
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn fixed(&self) -> Vec<u64> {
        vec![self.m.zero() as u64, self.m.one() as u64, self.m.undet() as u64]
    }
    fn clear_cache(&mut self) {
        self.m.clear_cache()
    }
    fn dot(&self, id: u64) -> String {
        self.m.dot_string(&(id as usize))
    }
}

// ---------------------------------------------------------------- MDD
pub struct MddC {
    pub m: m::MddManager,
    pub l: Layout,
    pub h: Vec<usize>,
}
impl Core for MddC {
    const NAME: &'static str = "MDD";
    const ZS: bool = false;
    const OPS: &'static [Op] = &[Op::And, Op::Or, Op::Xor, Op::Imp, Op::Nand, Op::Nor, Op::Xnor];
    fn new(l: &Layout) -> Self {
        let mut m = m::MddManager::new();
        let h = mk_headers(l, |lv, n, k| m.create_header(lv, n, k));
        MddC { m, l: l.clone(), h }
    }
    fn layout(&self) -> &Layout {
        &self.l
    }
    fn mk(&mut self, _k: u8, v: usize, ch: &[u64]) -> u64 {
        let c: Vec<usize> = ch.iter().map(|x| *x as usize).collect();
        self.m.create_node(self.h[v], &c) as u64
    }
    fn term(&mut self, _k: u8, v: i64) -> u64 {
        (match v {
            0 => self.m.zero(),
            1 => self.m.one(),
            _ => self.m.undet(),
        }) as u64
    }
    fn view(&self, id: u64) -> Result<View, String> {
        view_mdd(&self.m, id as usize)
    }
    fn op(&mut self, op: Op, a: &[u64]) -> u64 {
        let x = |i: usize| a[i] as usize;
        (match op {
            Op::Not => self.m.not(x(0)),
            Op::And => self.m.and(x(0), x(1)),
            Op::Or => self.m.or(x(0), x(1)),
            Op::Xor => self.m.xor(x(0), x(1)),
            Op::Imp => self.m.imp(x(0), x(1)),
            Op::Nand => self.m.nand(x(0), x(1)),
            Op::Nor => self.m.nor(x(0), x(1)),
            Op::Xnor => self.m.xnor(x(0), x(1)),
            Op::Ite => self.m.ite(x(0), x(1), x(2)),
            Op::Replace => self.m.replace(x(0), x(1)),
            _ => unreachable!(),
        }) as u64
    }
    fn gc(&mut self, roots: &[u64]) -> usize {
        let r: Vec<usize> = roots.iter().map(|x| *x as usize).collect();
        self.m.gc(&r)
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn fixed(&self) -> Vec<u64> {
        vec![self.m.zero() as u64, self.m.one() as u64, self.m.undet() as u64]
    }
    fn clear_cache(&mut self) {
        self.m.clear_cache()
    }
    fn dot(&self, id: u64) -> String {
        self.m.dot_string(&(id as usize))
    }
}

pub fn view_mdd(mm: &m::MddManager, id: usize) -> Result<View, String> {
    match mm.get_node(&id) {
        None => Err(format!("no node {}", id)),
        Some(m::mdd::Node::Zero) => Ok(View::Term(0)),
        Some(m::mdd::Node::One) => Ok(View::Term(1)),
        Some(m::mdd::Node::Undet) => Ok(View::Term(U)),
        Some(m::mdd::Node::NonTerminal(n)) => Ok(View::Node(
            mm.level(&id).ok_or("no level")?,
            n.iter().map(|x| x as u64).collect(),
        )),
    }
}
pub fn view_mt(mm: &m::MtMddManager<i64>, id: usize) -> Result<View, String> {
    match mm.get_node(&id) {
        None => Err(format!("no node {}", id)),
        Some(m::mtmdd::Node::Terminal(t)) => Ok(View::Term(t.value())),
        Some(m::mtmdd::Node::Undet) => Ok(View::Term(U)),
        Some(m::mtmdd::Node::NonTerminal(n)) => Ok(View::Node(
            mm.level(&id).ok_or("no level")?,
            n.iter().map(|x| x as u64).collect(),
        )),
    }
}

// ---------------------------------------------------------------- MTMDD
pub struct MtC {
    pub m: m::MtMddManager<i64>,
    pub l: Layout,
    pub h: Vec<usize>,
}
impl Core for MtC {
    const NAME: &'static str = "MTMDD";
    const ZS: bool = false;
    const OPS: &'static [Op] = &[
        Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem, Op::Min, Op::Max, Op::Replace,
    ];
    fn new(l: &Layout) -> Self {
        let mut m = m::MtMddManager::new();
        let h = mk_headers(l, |lv, n, k| m.create_header(lv, n, k));
        MtC { m, l: l.clone(), h }
    }
    fn layout(&self) -> &Layout {
        &self.l
    }
    fn mk(&mut self, _k: u8, v: usize, ch: &[u64]) -> u64 {
        let c: Vec<usize> = ch.iter().map(|x| *x as usize).collect();
        self.m.create_node(self.h[v], &c) as u64
    }
    fn term(&mut self, _k: u8, v: i64) -> u64 {
        (if v == U { self.m.undet() } else { self.m.value(v) }) as u64
    }
    fn view(&self, id: u64) -> Result<View, String> {
        view_mt(&self.m, id as usize)
    }
    fn kind(&self, _id: u64) -> u8 {
        VALUE
    }
    fn op(&mut self, op: Op, a: &[u64]) -> u64 {
        let x = |i: usize| a[i] as usize;
        (match op {
            Op::Add => self.m.add(x(0), x(1)),
            Op::Sub => self.m.sub(x(0), x(1)),
            Op::Mul => self.m.mul(x(0), x(1)),
            Op::Div => self.m.div(x(0), x(1)),
            Op::Rem => self.m.rem(x(0), x(1)),
            Op::Min => self.m.min(x(0), x(1)),
            Op::Max => self.m.max(x(0), x(1)),
            Op::Replace => self.m.replace(x(0), x(1)),
            _ => unreachable!(),
        }) as u64
    }
    fn gc(&mut self, roots: &[u64]) -> usize {
        let r: Vec<usize> = roots.iter().map(|x| *x as usize).collect();
        self.m.gc(&r)
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn fixed(&self) -> Vec<u64> {
        vec![self.m.undet() as u64]
    }
    fn clear_cache(&mut self) {
        self.m.clear_cache()
    }
    fn dot(&self, id: u64) -> String {
        self.m.dot_string(&(id as usize))
    }
}

// ---------------------------------------------------------------- MTMDD2
/// ids: 2*id for value nodes, 2*id+1 for boolean nodes
pub struct Mt2C {
    pub m: m::MtMdd2Manager<i64>,
    pub l: Layout,
    pub h: Vec<usize>,
}
pub fn enc2(n: m::Node) -> u64 {
    match n {
        m::Node::Value(x) => 2 * x as u64,
        m::Node::Bool(x) => 2 * x as u64 + 1,
    }
}
pub fn dec2(x: u64) -> m::Node {
    if x % 2 == 0 {
        m::Node::Value((x / 2) as usize)
    } else {
        m::Node::Bool((x / 2) as usize)
    }
}
pub fn view2(mm: &m::MtMdd2Manager<i64>, id: u64) -> Result<View, String> {
    let i = (id / 2) as usize;
    let v = if id % 2 == 0 { view_mt(mm.mtmdd(), i)? } else { view_mdd(mm.mdd(), i)? };
    Ok(match v {
        View::Node(l, ch) => View::Node(l, ch.into_iter().map(|x| 2 * x + id % 2).collect()),
        t => t,
    })
}
impl Core for Mt2C {
    const NAME: &'static str = "MTMDD2";
    const ZS: bool = false;
    const OPS: &'static [Op] = &[
        Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Min, Op::Max, Op::Eq, Op::Neq, Op::Lt, Op::Lte,
        Op::Gt, Op::Gte,
    ];
    fn new(l: &Layout) -> Self {
        let mut m = m::MtMdd2Manager::new();
        let h = mk_headers(l, |lv, n, k| m.create_header(lv, n, k));
        Mt2C { m, l: l.clone(), h }
    }
    fn layout(&self) -> &Layout {
        &self.l
    }
    fn mk(&mut self, _k: u8, v: usize, ch: &[u64]) -> u64 {
        let c: Vec<m::Node> = ch.iter().map(|x| dec2(*x)).collect();
        enc2(self.m.create_node(self.h[v], &c))
    }
    fn term(&mut self, k: u8, v: i64) -> u64 {
        enc2(match (k, v) {
            (BOOL, 0) => self.m.zero(),
            (BOOL, 1) => self.m.one(),
            (BOOL, _) => self.m.undet_boolean(),
            (_, U) => self.m.undet_value(),
            (_, v) => self.m.value(v),
        })
    }
    fn view(&self, id: u64) -> Result<View, String> {
        view2(&self.m, id)
    }
    fn kind(&self, id: u64) -> u8 {
        if id % 2 == 0 {
            VALUE
        } else {
            BOOL
        }
    }
    fn op(&mut self, op: Op, a: &[u64]) -> u64 {
        let x = |i: usize| dec2(a[i]);
        enc2(match op {
            Op::Not => self.m.not(x(0)),
            Op::And => self.m.and(x(0), x(1)),
            Op::Or => self.m.or(x(0), x(1)),
            Op::Xor => self.m.xor(x(0), x(1)),
            Op::Add => self.m.add(x(0), x(1)),
            Op::Sub => self.m.sub(x(0), x(1)),
            Op::Mul => self.m.mul(x(0), x(1)),
            Op::Div => self.m.div(x(0), x(1)),
            Op::Min => self.m.min(x(0), x(1)),
            Op::Max => self.m.max(x(0), x(1)),
            Op::Eq => self.m.eq(x(0), x(1)),
            Op::Neq => self.m.neq(x(0), x(1)),
            Op::Lt => self.m.lt(x(0), x(1)),
            Op::Lte => self.m.lte(x(0), x(1)),
            Op::Gt => self.m.gt(x(0), x(1)),
            Op::Gte => self.m.gte(x(0), x(1)),
            Op::Ite => self.m.ite(x(0), x(1), x(2)),
            Op::Vif => m::Node::Value(self.m.vif((a[0] / 2) as usize, (a[1] / 2) as usize)),
            _ => unreachable!(),
        })
    }
    fn gc(&mut self, roots: &[u64]) -> usize {
        let r: Vec<m::Node> = roots.iter().map(|x| dec2(*x)).collect();
        let (a, b) = self.m.gc(&r);
        a + b
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn fixed(&self) -> Vec<u64> {
        vec![
            enc2(self.m.zero()),
            enc2(self.m.one()),
            enc2(m::Node::Bool(self.m.mdd().undet())),
            enc2(self.m.undet_value()),
        ]
    }
    fn clear_cache(&mut self) {
        self.m.clear_cache()
    }
    fn dot(&self, id: u64) -> String {
        self.m.dot_string(&dec2(id))
    }
}

// ---------------------------------------------------------------- ZMDD
pub struct ZmC {
    pub m: m::ZmddManager<i64>,
    pub l: Layout,
    pub h: Vec<usize>,
}
pub fn view_zm(mm: &m::ZmddManager<i64>, id: usize) -> Result<View, String> {
    match mm.get_node(&id) {
        None => Err(format!("no node {}", id)),
        Some(m::mtmdd::Node::Terminal(t)) => Ok(View::Term(t.value())),
        Some(m::mtmdd::Node::Undet) => Ok(View::Term(U)),
        Some(m::mtmdd::Node::NonTerminal(n)) => Ok(View::Node(
            mm.level(&id).ok_or("no level")?,
            n.iter().map(|x| x as u64).collect(),
        )),
    }
}
impl Core for ZmC {
    const NAME: &'static str = "ZMDD";
    const ZS: bool = true;
    const OPS: &'static [Op] = &[Op::LIntersect, Op::LSetdiff];
    fn new(l: &Layout) -> Self {
        let mut m = m::ZmddManager::new();
        let h = mk_headers(l, |lv, n, k| m.create_header(lv, n, k));
        ZmC { m, l: l.clone(), h }
    }
    fn layout(&self) -> &Layout {
        &self.l
    }
    fn mk(&mut self, _k: u8, v: usize, ch: &[u64]) -> u64 {
        let c: Vec<usize> = ch.iter().map(|x| *x as usize).collect();
        self.m.create_node(self.h[v], &c) as u64
    }
    fn term(&mut self, _k: u8, v: i64) -> u64 {
        (if v == U { self.m.undet() } else { self.m.value(v) }) as u64
    }
    fn view(&self, id: u64) -> Result<View, String> {
        view_zm(&self.m, id as usize)
    }
    fn kind(&self, _id: u64) -> u8 {
        VALUE
    }
    fn op(&mut self, op: Op, a: &[u64]) -> u64 {
        let x = |i: usize| a[i] as usize;
        (match op {
            Op::LIntersect => self.m.intersect(x(0), x(1)),
            Op::LSetdiff => self.m.setdiff(x(0), x(1)),
            _ => unreachable!(),
        }) as u64
    }
    fn gc(&mut self, roots: &[u64]) -> usize {
        let r: Vec<usize> = roots.iter().map(|x| *x as usize).collect();
        self.m.gc(&r)
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn fixed(&self) -> Vec<u64> {
        vec![self.m.undet() as u64]
    }
    fn clear_cache(&mut self) {
        self.m.clear_cache()
    }
    fn dot(&self, id: u64) -> String {
        self.m.dot_string(&(id as usize))
    }
}

/// Structural walk of everything below `id`: ordered, reduced, no duplicate nodes.
pub fn structure<C: Core>(c: &C, id: u64) -> Result<usize, String> {
    let mut seen: HashSet<u64> = HashSet::new();
    let mut key: HashMap<(u8, usize, Vec<u64>), u64> = HashMap::new();
    let mut terms: HashMap<(u8, i64), u64> = HashMap::new();
    let mut st = vec![id];
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        match c.view(x)? {
            View::Term(v) => {
                if let Some(o) = terms.insert((c.kind(x), v), x) {
                    return Err(format!("terminal {} duplicated as nodes {} and {}", v, o, x));
                }
            }
            View::Node(lv, ch) => {
                for y in &ch {
                    if let View::Node(l2, _) = c.view(*y)? {
                        if l2 >= lv {
                            return Err(format!("child at level {} under level {}", l2, lv));
                        }
                    }
                }
                let redundant = if C::ZS {
                    let absent = if C::NAME == "ZMDD" { U } else { 0 };
                    ch[1..].iter().all(|y| matches!(c.view(*y), Ok(View::Term(v)) if v == absent))
                } else {
                    ch.iter().all(|y| *y == ch[0])
                };
                if redundant {
                    return Err(format!("redundant node {} at level {} children {:?}", x, lv, ch));
                }
                if let Some(o) = key.insert((c.kind(x), lv, ch.clone()), x) {
                    return Err(format!("duplicate nodes {} and {} at level {}", o, x, lv));
                }
                st.extend(ch);
            }
        }
    }
    Ok(seen.len())
}
