//! Reference models: functions over finite mixed-radix domains as plain tables, set families
//! as tables, and the specification of every operation on them. Nothing here uses the
//! diagrams.
use std::collections::HashMap;

/// "undetermined" / "not a member of any stratum"
pub const U: i64 = i64::MIN;
pub const BOOL: u8 = 0;
pub const VALUE: u8 = 1;

/// A function table. Point p has digit d_v = (p / stride_v) % sizes[v]; variable 0 has
/// stride 1 and sits at the lowest level.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Fun {
    pub k: u8,
    pub t: Vec<i64>,
}

impl Fun {
    pub fn b(t: Vec<i64>) -> Fun {
        Fun { k: BOOL, t }
    }
    pub fn v(t: Vec<i64>) -> Fun {
        Fun { k: VALUE, t }
    }
    pub fn show(&self) -> String {
        let mut s: Vec<String> = self
            .t
            .iter()
            .take(100)
            .map(|x| if *x == U { "U".into() } else { x.to_string() })
            .collect();
        if self.t.len() > 100 {
            s.push(format!("… {} points", self.t.len()));
        }
        format!("{}[{}]", if self.k == BOOL { "b" } else { "v" }, s.join(","))
    }
}

/// Name of variable v. Alphabetical order is neither the definition order nor its reverse.
pub fn nm(v: usize) -> String {
    format!("{}{}", (b'a' + ((v * 15 + 20) % 26) as u8) as char, v)
}
/// Inverse of `nm`.
pub fn vi(name: &str) -> Option<usize> {
    let v: usize = name.get(1..)?.parse().ok()?;
    (nm(v) == name).then_some(v)
}

#[derive(Clone, Debug)]
pub struct Dom {
    pub sizes: Vec<usize>,
}

impl Dom {
    pub fn new(s: &[usize]) -> Dom {
        Dom { sizes: s.to_vec() }
    }
    pub fn n(&self) -> usize {
        self.sizes.len()
    }
    pub fn points(&self) -> usize {
        self.sizes.iter().product()
    }
    pub fn digits(&self, mut p: usize) -> Vec<usize> {
        let mut d = Vec::with_capacity(self.sizes.len());
        for s in &self.sizes {
            d.push(p % s);
            p /= s;
        }
        d
    }
    pub fn point(&self, d: &[usize]) -> usize {
        let mut p = 0;
        let mut st = 1;
        for (i, s) in self.sizes.iter().enumerate() {
            p += d[i] * st;
            st *= s;
        }
        p
    }
    pub fn var(&self, v: usize) -> Vec<i64> {
        (0..self.points()).map(|p| self.digits(p)[v] as i64).collect()
    }
    pub fn konst(&self, c: i64) -> Vec<i64> {
        vec![c; self.points()]
    }
    pub fn leq(&self, a: usize, b: usize) -> bool {
        self.digits(a).iter().zip(self.digits(b).iter()).all(|(x, y)| x <= y)
    }
    /// Does the table depend on variable v?
    pub fn depends(&self, t: &[i64], v: usize) -> bool {
        let st: usize = self.sizes[..v].iter().product();
        (0..t.len()).any(|p| {
            let d = (p / st) % self.sizes[v];
            d > 0 && t[p] != t[p - d * st]
        })
    }
    pub fn top_var(&self, t: &[i64]) -> Option<usize> {
        (0..self.n()).rev().find(|&v| self.depends(t, v))
    }
}

/// All functions from `points` points into `alphabet`, in index order.
pub fn all_tables(points: usize, alphabet: &[i64]) -> Vec<Vec<i64>> {
    let k = alphabet.len();
    let n = k.pow(points as u32);
    (0..n)
        .map(|mut c| {
            (0..points)
                .map(|_| {
                    let x = alphabet[c % k];
                    c /= k;
                    x
                })
                .collect()
        })
        .collect()
}

pub fn bits(points: usize, c: u64) -> Vec<i64> {
    (0..points).map(|p| ((c >> p) & 1) as i64).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Not,
    And,
    Or,
    Xor,
    Imp,
    Nand,
    Nor,
    Xnor,
    Ite,
    Replace,
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Min,
    Max,
    Eq,
    Neq,
    Lt,
    Lte,
    Gt,
    Gte,
    Vif,
    Union,
    Intersect,
    Setdiff,
    Product,
    Divide,
    LIntersect,
    LSetdiff,
}

impl Op {
    pub fn arity(self) -> usize {
        match self {
            Op::Not => 1,
            Op::Ite => 3,
            _ => 2,
        }
    }
}

fn pw2(a: &Fun, b: &Fun, k: u8, f: impl Fn(i64, i64) -> i64) -> Fun {
    Fun {
        k,
        t: a.t.iter().zip(b.t.iter()).map(|(&x, &y)| f(x, y)).collect(),
    }
}
fn bl(b: bool) -> i64 {
    b as i64
}
fn abs2(f: impl Fn(i64, i64) -> i64) -> impl Fn(i64, i64) -> i64 {
    move |x, y| if x == U || y == U { U } else { f(x, y) }
}

/// The specification of every operation.
pub fn refop(op: Op, a: &[&Fun]) -> Fun {
    match op {
        Op::Not => Fun {
            k: a[0].k,
            t: a[0].t.iter().map(|&x| if x == U { U } else { 1 - x }).collect(),
        },
        Op::And => pw2(a[0], a[1], BOOL, |x, y| bl(x == 1 && y == 1)),
        Op::Or => pw2(a[0], a[1], BOOL, |x, y| bl(x == 1 || y == 1)),
        Op::Xor => pw2(a[0], a[1], BOOL, |x, y| bl(x != y)),
        Op::Imp => pw2(a[0], a[1], BOOL, |x, y| bl(x == 0 || y == 1)),
        Op::Nand => pw2(a[0], a[1], BOOL, |x, y| bl(!(x == 1 && y == 1))),
        Op::Nor => pw2(a[0], a[1], BOOL, |x, y| bl(!(x == 1 || y == 1))),
        Op::Xnor => pw2(a[0], a[1], BOOL, |x, y| bl(x == y)),
        Op::Ite => Fun {
            k: a[1].k,
            t: (0..a[0].t.len())
                .map(|p| match a[0].t[p] {
                    1 => a[1].t[p],
                    0 => a[2].t[p],
                    _ => U,
                })
                .collect(),
        },
        Op::Replace => pw2(a[0], a[1], a[0].k, |x, y| if x == U { y } else { x }),
        Op::Add => pw2(a[0], a[1], VALUE, abs2(|x, y| x + y)),
        Op::Sub => pw2(a[0], a[1], VALUE, abs2(|x, y| x - y)),
        Op::Mul => pw2(a[0], a[1], VALUE, abs2(|x, y| x * y)),
        Op::Div => pw2(a[0], a[1], VALUE, abs2(|x, y| if y == 0 { U } else { x / y })),
        Op::Rem => pw2(a[0], a[1], VALUE, abs2(|x, y| if y == 0 { U } else { x % y })),
        Op::Min => pw2(a[0], a[1], VALUE, abs2(|x, y| x.min(y))),
        Op::Max => pw2(a[0], a[1], VALUE, abs2(|x, y| x.max(y))),
        Op::Eq => pw2(a[0], a[1], BOOL, |x, y| bl(x == y)),
        Op::Neq => pw2(a[0], a[1], BOOL, |x, y| bl(x != y)),
        Op::Lt => pw2(a[0], a[1], BOOL, |x, y| bl(x < y)),
        Op::Lte => pw2(a[0], a[1], BOOL, |x, y| bl(x <= y)),
        Op::Gt => pw2(a[0], a[1], BOOL, |x, y| bl(x > y)),
        Op::Gte => pw2(a[0], a[1], BOOL, |x, y| bl(x >= y)),
        Op::Vif => pw2(a[0], a[1], VALUE, |x, y| if x == 1 { y } else { U }),
        Op::Union => pw2(a[0], a[1], BOOL, |x, y| bl(x == 1 || y == 1)),
        Op::Intersect => pw2(a[0], a[1], BOOL, |x, y| bl(x == 1 && y == 1)),
        Op::Setdiff => pw2(a[0], a[1], BOOL, |x, y| bl(x == 1 && y == 0)),
        Op::Product => {
            // join: { a ∪ b }; points are bit masks of elements
            let mut t = vec![0; a[0].t.len()];
            for x in 0..t.len() {
                if a[0].t[x] == 1 {
                    for y in 0..t.len() {
                        if a[1].t[y] == 1 {
                            t[x | y] = 1;
                        }
                    }
                }
            }
            Fun::b(t)
        }
        Op::Divide => {
            // weak division: all q with q∩b = ∅ and q∪b ∈ f for every b ∈ g; by ∅: undet
            if a[1].t.iter().all(|&x| x == 0) {
                return Fun::b(vec![U; a[0].t.len()]);
            }
            let n = a[0].t.len();
            Fun::b(
                (0..n)
                    .map(|q| {
                        bl((0..n).all(|b| a[1].t[b] == 0 || (q & b == 0 && a[0].t[q | b] == 1)))
                    })
                    .collect(),
            )
        }
        Op::LIntersect => pw2(a[0], a[1], VALUE, |x, y| if x == y { x } else { U }),
        Op::LSetdiff => pw2(a[0], a[1], VALUE, |x, y| if x == y { U } else { x }),
    }
}

/// Index of a list of functions.
pub struct Index {
    pub funs: Vec<Fun>,
    map: HashMap<Fun, usize>,
}

impl Index {
    pub fn new(funs: Vec<Fun>) -> Index {
        let map = funs.iter().cloned().enumerate().map(|(i, f)| (f, i)).collect();
        Index { funs, map }
    }
    pub fn get(&self, f: &Fun) -> Option<usize> {
        self.map.get(f).copied()
    }
    pub fn len(&self) -> usize {
        self.funs.len()
    }
}

pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}

/// Is the table non-decreasing in every variable?
pub fn monotone(d: &Dom, t: &[i64]) -> bool {
    for v in 0..d.n() {
        let st: usize = d.sizes[..v].iter().product();
        for p in 0..t.len() {
            if (p / st) % d.sizes[v] > 0 && t[p - st] > t[p] {
                return false;
            }
        }
    }
    true
}
