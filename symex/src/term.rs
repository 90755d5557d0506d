//! Hash-consed bit-vector terms with simplification, sampling and range analysis.
//!
//! Every rewrite here is an identity of fixed-width bit-vector arithmetic; `selftest` in
//! `main.rs` checks the constructors against the plain SMT semantics with the solver.

use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasherDefault, Hasher};

/// A quick hash for the tables of terms.
#[derive(Default, Clone)]
pub struct Fx(u64);
impl Fx {
    fn mix(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95) }
}
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.mix(u64::from_le_bytes(a));
        }
    }
    fn write_u8(&mut self, x: u8) { self.mix(x as u64) }
    fn write_u32(&mut self, x: u32) { self.mix(x as u64) }
    fn write_u64(&mut self, x: u64) { self.mix(x) }
    fn write_usize(&mut self, x: usize) { self.mix(x as u64) }
    fn write_isize(&mut self, x: isize) { self.mix(x as u64) }
    fn write_u128(&mut self, x: u128) {
        self.mix(x as u64);
        self.mix((x >> 64) as u64);
    }
    // the table takes the low bits, which a product leaves weak
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type T = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    /// constant + sum of coefficient * term, all modulo 2^w
    Sum(u128, Box<[(T, u128)]>),
    Mul(T, T),
    UDiv(T, T),
    URem(T, T),
    SDiv(T, T),
    SRem(T, T),
    And(Box<[T]>),
    Or(Box<[T]>),
    Xor(Box<[T]>),
    Shl(T, T),
    LShr(T, T),
    AShr(T, T),
    /// low part first
    Concat(Box<[T]>),
    /// (source, low bit), width from the node
    Extract(T, u32),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Ite(T, T, T),
    /// (table id, index); the index is always in range
    Lookup(u32, T),
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u32,
}

pub struct VarInfo {
    pub name: String,
    pub w: u32,
    pub undef: bool,
}

pub struct Ctx {
    /// rewrites of large sums settled by comparing coefficients
    pub linear: u64,
    pub nodes: Vec<Node>,
    map: FxMap<Node, T>,
    pub vars: Vec<VarInfo>,
    pub var_term: Vec<T>,
    pub tables: Vec<Vec<u128>>,
    table_map: HashMap<Vec<u128>, u32>,
    umaxc: Vec<u128>,
    uminc: Vec<u128>,
    /// sample-major values of all terms
    pub vals: Vec<Vec<u128>>,
    /// sample-major values of variables
    pub var_vals: Vec<Vec<u128>>,
    rng: u64,
    depth: u32,
    pub certify: bool,
    pub obl: Vec<(T, T)>,
    obl_seen: std::collections::HashSet<(T, T), BuildHasherDefault<Fx>>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

/// rewrites of sums of up to this many addends go to the solver whole
const SUM_MAX: usize = 12;

type Poly = std::collections::BTreeMap<Vec<T>, u128>;

fn poly_xor(p: &mut Poly, q: &Poly) {
    for (m, k) in q {
        let e = p.entry(m.clone()).or_insert(0);
        *e ^= *k;
        if *e == 0 {
            p.remove(m);
        }
    }
}

/// Small enough to be worth keeping in expanded form.
fn poly_ok(p: &Poly) -> bool {
    let mut at: Vec<T> = p.keys().flatten().copied().collect();
    at.sort();
    at.dedup();
    p.len() <= 12 && at.len() <= 5
}

fn poly_mul(p: &Poly, q: &Poly) -> Option<Poly> {
    if p.len() * q.len() > 64 {
        return None;
    }
    let mut r = Poly::new();
    for (m1, k1) in p {
        for (m2, k2) in q {
            let mut m = m1.clone();
            m.extend_from_slice(m2);
            m.sort();
            m.dedup();
            let mut one = Poly::new();
            if k1 & k2 != 0 {
                one.insert(m, k1 & k2);
            }
            poly_xor(&mut r, &one);
        }
    }
    if poly_ok(&r) {
        Some(r)
    } else {
        None
    }
}

impl Ctx {
    pub fn new(seed: u64, nsamples: usize) -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            map: FxMap::default(),
            vars: vec![],
            var_term: vec![],
            tables: vec![],
            table_map: HashMap::new(),
            umaxc: vec![],
            uminc: vec![],
            vals: vec![],
            var_vals: vec![],
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03,
            depth: 0,
            linear: 0,
            certify: false,
            obl: vec![],
            obl_seen: Default::default(),
        };
        for _ in 0..nsamples {
            c.vals.push(vec![]);
            c.var_vals.push(vec![]);
        }
        c
    }

    pub fn rand(&mut self) -> u64 {
        // splitmix64
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }

    pub fn nsamples(&self) -> usize {
        self.vals.len()
    }

    #[inline]
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w
    }
    #[inline]
    pub fn op(&self, t: T) -> &Op {
        &self.nodes[t as usize].op
    }
    #[inline]
    pub fn cval(&self, t: T) -> Option<u128> {
        if let Op::Const(v) = self.nodes[t as usize].op {
            Some(v)
        } else {
            None
        }
    }

    fn intern(&mut self, op: Op, w: u32) -> T {
        debug_assert!(w >= 1 && w <= 128, "bad width {}", w);
        let n = Node { op, w };
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let t = self.nodes.len() as T;
        self.map.insert(n.clone(), t);
        self.nodes.push(n);
        let (lo, hi) = self.range_of(t);
        self.uminc.push(lo);
        self.umaxc.push(hi);
        t
    }

    pub fn c(&mut self, v: u128, w: u32) -> T {
        self.intern(Op::Const(v & mask(w)), w)
    }
    pub fn bool(&mut self, b: bool) -> T {
        self.c(b as u128, 1)
    }

    pub fn var(&mut self, name: String, w: u32, undef: bool) -> T {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name, w, undef });
        let t = self.intern(Op::Var(id), w);
        self.var_term.push(t);
        for s in 0..self.var_vals.len() {
            let r = ((self.rand() as u128) << 64) | self.rand() as u128;
            // a few structured samples first: zeros, ones, sparse, dense
            let v = match s {
                0 => 0,
                1 => u128::MAX,
                2 => {
                    if r & 7 == 0 {
                        r >> 3
                    } else {
                        0
                    }
                }
                3 => {
                    if r & 7 == 0 {
                        r >> 3
                    } else {
                        u128::MAX
                    }
                }
                _ => r,
            };
            self.var_vals[s].push(v & mask(w));
        }
        t
    }

    /// Add a sample with the given variable values (others random). Returns its index.
    pub fn add_sample(&mut self, m: &HashMap<u32, u128>) -> usize {
        let mut vv = vec![];
        for i in 0..self.vars.len() {
            let w = self.vars[i].w;
            let v = match m.get(&(i as u32)) {
                Some(v) => *v,
                None => (self.rand() as u128) & mask(w),
            };
            vv.push(v & mask(w));
        }
        self.var_vals.push(vv);
        self.vals.push(vec![]);
        self.vals.len() - 1
    }

    /// Value of `t` in sample `s`.
    pub fn val(&mut self, s: usize, t: T) -> u128 {
        if self.vals[s].len() <= t as usize {
            self.extend(s, t as usize + 1);
        }
        self.vals[s][t as usize]
    }

    fn extend(&mut self, s: usize, upto: usize) {
        let mut vals = std::mem::take(&mut self.vals[s]);
        for i in vals.len()..upto {
            let v = self.eval_node(i as T, &vals, s);
            vals.push(v);
        }
        self.vals[s] = vals;
    }

    fn eval_node(&self, t: T, vals: &[u128], s: usize) -> u128 {
        self.eval_with(t, &|x: &T| vals[*x as usize], s)
    }
    /// Value of node `t` given its children's values through `g`.
    pub fn eval_with<G: Fn(&T) -> u128>(&self, t: T, g: &G, s: usize) -> u128 {
        let n = &self.nodes[t as usize];
        let w = n.w;
        let m = mask(w);
        match &n.op {
            Op::Const(v) => *v,
            Op::Var(id) => self.var_vals[s][*id as usize],
            Op::Sum(c, ts) => {
                let mut a = *c;
                for (t, k) in ts.iter() {
                    a = a.wrapping_add(g(t).wrapping_mul(*k));
                }
                a & m
            }
            Op::Mul(a, b) => g(a).wrapping_mul(g(b)) & m,
            Op::UDiv(a, b) => {
                let d = g(b);
                if d == 0 {
                    m
                } else {
                    g(a) / d
                }
            }
            Op::URem(a, b) => {
                let d = g(b);
                if d == 0 {
                    g(a)
                } else {
                    g(a) % d
                }
            }
            Op::SDiv(a, b) => {
                let (x, y) = (sext128(g(a), w), sext128(g(b), w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    (x.wrapping_div(y) as u128) & m
                }
            }
            Op::SRem(a, b) => {
                let (x, y) = (sext128(g(a), w), sext128(g(b), w));
                if y == 0 {
                    g(a)
                } else {
                    (x.wrapping_rem(y) as u128) & m
                }
            }
            Op::And(ts) => ts.iter().fold(m, |a, t| a & g(t)),
            Op::Or(ts) => ts.iter().fold(0, |a, t| a | g(t)),
            Op::Xor(ts) => ts.iter().fold(0, |a, t| a ^ g(t)),
            Op::Shl(a, b) => {
                let k = g(b);
                if k >= w as u128 {
                    0
                } else {
                    (g(a) << k) & m
                }
            }
            Op::LShr(a, b) => {
                let k = g(b);
                if k >= w as u128 {
                    0
                } else {
                    g(a) >> k
                }
            }
            Op::AShr(a, b) => {
                let k = std::cmp::min(g(b), 127) as u32;
                let k = std::cmp::min(k, w - 1);
                ((sext128(g(a), w) >> k) as u128) & m
            }
            Op::Concat(ts) => {
                let mut off = 0;
                let mut a = 0u128;
                for t in ts.iter() {
                    a |= g(t) << off;
                    off += self.nodes[*t as usize].w;
                }
                a
            }
            Op::Extract(a, lo) => (g(a) >> lo) & m,
            Op::Eq(a, b) => (g(a) == g(b)) as u128,
            Op::Ult(a, b) => (g(a) < g(b)) as u128,
            Op::Slt(a, b) => {
                let wa = self.nodes[*a as usize].w;
                (sext128(g(a), wa) < sext128(g(b), wa)) as u128
            }
            Op::Ite(c, a, b) => {
                if g(c) == 1 {
                    g(a)
                } else {
                    g(b)
                }
            }
            // past the end: the last entry, as in the solver's encoding
            Op::Lookup(tb, i) => {
                let tb = &self.tables[*tb as usize];
                tb[g(i).min(tb.len() as u128 - 1) as usize]
            }
        }
    }

    pub fn umax(&self, t: T) -> u128 {
        self.umaxc[t as usize]
    }
    pub fn umin(&self, t: T) -> u128 {
        self.uminc[t as usize]
    }

    fn range_of(&self, t: T) -> (u128, u128) {
        let n = &self.nodes[t as usize];
        let m = mask(n.w);
        match &n.op {
            Op::Const(v) => (*v, *v),
            Op::Sum(c, ts) => {
                let mut lo = *c;
                let mut hi = *c;
                for (t, k) in ts.iter() {
                    let a = self.umaxc[*t as usize].checked_mul(*k).and_then(|x| hi.checked_add(x));
                    match a {
                        Some(x) if x <= m => hi = x,
                        _ => return (0, m),
                    }
                    lo += self.uminc[*t as usize] * *k;
                }
                (lo, hi)
            }
            Op::And(ts) => (0, ts.iter().map(|t| self.umaxc[*t as usize]).min().unwrap_or(m)),
            Op::Or(ts) | Op::Xor(ts) => {
                let mx = ts.iter().map(|t| self.umaxc[*t as usize]).max().unwrap_or(0);
                let lo = if let Op::Or(_) = n.op {
                    ts.iter().map(|t| self.uminc[*t as usize]).max().unwrap_or(0)
                } else {
                    0
                };
                let bits = 128 - mx.leading_zeros();
                (lo, mask(bits.max(1)) & m)
            }
            Op::Concat(ts) => {
                let mut off = 0;
                let (mut lo, mut hi) = (0u128, 0u128);
                for t in ts.iter() {
                    lo |= self.uminc[*t as usize] << off;
                    hi |= self.umaxc[*t as usize] << off;
                    off += self.nodes[*t as usize].w;
                }
                (lo, hi)
            }
            Op::Extract(a, lo) => {
                let hi = self.umaxc[*a as usize] >> lo;
                if hi <= m {
                    (self.uminc[*a as usize] >> lo, hi)
                } else {
                    (0, m)
                }
            }
            Op::Ite(_, a, b) => (
                self.uminc[*a as usize].min(self.uminc[*b as usize]),
                self.umaxc[*a as usize].max(self.umaxc[*b as usize]),
            ),
            Op::Lookup(tb, _) => {
                let tb = &self.tables[*tb as usize];
                (*tb.iter().min().unwrap(), *tb.iter().max().unwrap())
            }
            Op::LShr(a, _) => (0, self.umaxc[*a as usize]),
            Op::URem(a, b) => {
                let am = self.umaxc[*a as usize];
                match self.cval(*b) {
                    Some(k) if k > 0 => (0, am.min(k - 1)),
                    _ => (0, am),
                }
            }
            Op::UDiv(a, b) => match self.cval(*b) {
                Some(k) if k > 0 => (self.uminc[*a as usize] / k, self.umaxc[*a as usize] / k),
                _ => (0, m),
            },
            Op::Mul(a, b) => {
                match self.umaxc[*a as usize].checked_mul(self.umaxc[*b as usize]) {
                    Some(h) if h <= m => (self.uminc[*a as usize] * self.uminc[*b as usize], h),
                    _ => (0, m),
                }
            }
            _ => (0, m),
        }
    }

    pub fn table(&mut self, tb: Vec<u128>) -> u32 {
        if let Some(&i) = self.table_map.get(&tb) {
            return i;
        }
        let i = self.tables.len() as u32;
        self.tables.push(tb.clone());
        self.table_map.insert(tb, i);
        i
    }

    /// table[idx]; the table must cover every value of idx (len >= umax(idx)+1)
    fn lookup0(&mut self, tb: Vec<u128>, idx: T, w: u32) -> T {
        if let Some(v) = self.cval(idx) {
            return self.c(tb[v as usize], w);
        }
        let used = (self.umax(idx) as usize) + 1;
        assert!(used <= tb.len());
        let tb = tb[..used].to_vec();
        if tb.iter().all(|x| *x == tb[0]) {
            return self.c(tb[0], w);
        }
        let id = self.table(tb);
        self.intern(Op::Lookup(id, idx), w)
    }

    fn map_lookup(&mut self, t: T, w: u32, f: &dyn Fn(u128) -> u128) -> Option<T> {
        if let Op::Lookup(tb, i) = *self.op(t) {
            let tb: Vec<u128> = self.tables[tb as usize].iter().map(|x| f(*x) & mask(w)).collect();
            return Some(self.lookup(tb, i, w));
        }
        None
    }
    fn map_lookup2(&mut self, a: T, b: T, w: u32, f: &dyn Fn(u128, u128) -> u128) -> Option<T> {
        let (oa, ob) = (self.op(a).clone(), self.op(b).clone());
        match (oa, ob) {
            (Op::Lookup(t1, i1), Op::Lookup(t2, i2)) if i1 == i2 => {
                let n = self.tables[t1 as usize].len().min(self.tables[t2 as usize].len());
                let tb: Vec<u128> = (0..n)
                    .map(|k| f(self.tables[t1 as usize][k], self.tables[t2 as usize][k]) & mask(w))
                    .collect();
                Some(self.lookup(tb, i1, w))
            }
            (Op::Lookup(..), Op::Const(k)) => self.map_lookup(a, w, &|x| f(x, k)),
            (Op::Const(k), Op::Lookup(..)) => self.map_lookup(b, w, &|x| f(k, x)),
            _ => None,
        }
    }

    /// An ite tree with constant leaves?
    fn const_ite(&self, t: T, depth: u32) -> bool {
        match *self.op(t) {
            Op::Const(_) => true,
            Op::Ite(_, a, b) => {
                depth > 0 && self.const_ite(a, depth - 1) && self.const_ite(b, depth - 1)
            }
            _ => false,
        }
    }
    fn is_const_ite(&self, t: T) -> bool {
        matches!(self.op(t), Op::Ite(..)) && self.const_ite(t, 6)
    }
    pub fn const_leaves(&self, t: T, out: &mut Vec<u128>) -> bool {
        match *self.op(t) {
            Op::Const(v) => {
                if !out.contains(&v) {
                    out.push(v);
                }
                out.len() <= 256
            }
            Op::Ite(_, a, b) => self.const_leaves(a, out) && self.const_leaves(b, out),
            _ => false,
        }
    }
    fn map_ite(&mut self, t: T, f: &mut dyn FnMut(&mut Ctx, T) -> T) -> T {
        if let Op::Ite(c, a, b) = *self.op(t) {
            let x = self.map_ite(a, f);
            let y = self.map_ite(b, f);
            self.ite(c, x, y)
        } else {
            f(self, t)
        }
    }

    // ---------- structure ----------

    fn concat0(&mut self, parts: &[T]) -> T {
        // flatten
        let mut fl: Vec<T> = Vec::with_capacity(parts.len());
        for &p in parts {
            if let Op::Concat(ts) = self.op(p) {
                fl.extend_from_slice(&ts.clone());
            } else {
                fl.push(p);
            }
        }
        let mut out: Vec<T> = Vec::with_capacity(fl.len());
        for p in fl {
            if let Some(&l) = out.last() {
                let (wl, wp) = (self.w(l), self.w(p));
                let (ol, opp) = (self.op(l).clone(), self.op(p).clone());
                let m = match (&ol, &opp) {
                    (Op::Const(a), Op::Const(b)) if wl + wp <= 128 => {
                        Some(self.c(a | (b << wl), wl + wp))
                    }
                    (Op::Extract(s1, lo1), Op::Extract(s2, lo2))
                        if s1 == s2 && lo1 + wl == *lo2 =>
                    {
                        Some(self.extract(*s1, *lo1, wl + wp))
                    }
                    (Op::Lookup(t1, i1), Op::Lookup(t2, i2)) if i1 == i2 && wl + wp <= 128 => {
                        let (t1, t2, i1) = (*t1, *t2, *i1);
                        let n = self.tables[t1 as usize].len().min(self.tables[t2 as usize].len());
                        let tb = (0..n)
                            .map(|k| {
                                self.tables[t1 as usize][k] | (self.tables[t2 as usize][k] << wl)
                            })
                            .collect();
                        Some(self.lookup(tb, i1, wl + wp))
                    }
                    _ => None,
                };
                if let Some(m) = m {
                    out.pop();
                    out.push(m);
                    continue;
                }
            }
            out.push(p);
        }
        if out.len() == 1 {
            return out[0];
        }
        let w: u32 = out.iter().map(|t| self.w(*t)).sum();
        if out.len() == 2 && self.cval(out[0]) == Some(0) {
            // a shifted sum is an even one
            if let Op::Extract(y, 0) = *self.op(out[1]) {
                if self.w(y) == w && matches!(self.op(y), Op::Sum(..)) {
                    let k = self.w(out[0]);
                    return self.scale(y, 1u128 << k);
                }
            }
        }
        // all non-constant parts are ite(c, const, const) with the same c
        let mut cond = None;
        let mut ok = true;
        for &t in &out {
            match *self.op(t) {
                Op::Const(_) => {}
                Op::Ite(c, a, b)
                    if (cond.is_none() || cond == Some(c))
                        && self.const_ite(a, 6)
                        && self.const_ite(b, 6) =>
                {
                    cond = Some(c)
                }
                _ => {
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            if let Some(c) = cond {
                let (mut aa, mut bb) = (vec![], vec![]);
                for &t in &out {
                    match *self.op(t) {
                        Op::Ite(_, a, b) => {
                            aa.push(a);
                            bb.push(b)
                        }
                        _ => {
                            aa.push(t);
                            bb.push(t)
                        }
                    }
                }
                let a = self.concat(&aa);
                let b = self.concat(&bb);
                return self.ite(c, a, b);
            }
        }
        self.intern(Op::Concat(out.into()), w)
    }

    fn extract0(&mut self, x: T, lo: u32, w: u32) -> T {
        let xw = self.w(x);
        debug_assert!(lo + w <= xw, "extract {} {} of {}", lo, w, xw);
        if lo == 0 && w == xw {
            return x;
        }
        if (self.umax(x) >> lo) == 0 {
            return self.c(0, w);
        }
        match self.op(x).clone() {
            Op::Const(v) => self.c(v >> lo, w),
            Op::Extract(y, l2) => self.extract(y, l2 + lo, w),
            Op::Concat(ts) => {
                let mut parts = vec![];
                let mut off = 0;
                for &t in ts.iter() {
                    let tw = self.w(t);
                    let (s, e) = (lo.max(off), (lo + w).min(off + tw));
                    if s < e {
                        parts.push(self.extract(t, s - off, e - s));
                    }
                    off += tw;
                }
                self.concat(&parts)
            }
            Op::Sum(c, ts) if ts.iter().all(|(_, k)| k % 2 == 0) && c % 2 == 0 => {
                // an even sum is a shifted one
                let j = ts.iter().map(|(_, k)| k.trailing_zeros()).min().unwrap_or(0);
                let j = if c == 0 { j } else { j.min(c.trailing_zeros()) };
                let half: Vec<(T, u128)> = ts.iter().map(|(t, k)| (*t, k >> j)).collect();
                let y = self.mk_sum(c >> j, half, xw);
                if lo >= j {
                    return self.extract(y, lo - j, w);
                }
                let z = self.c(0, (j - lo).min(w));
                if lo + w <= j {
                    return z;
                }
                let e = self.extract(y, 0, lo + w - j);
                self.concat(&[z, e])
            }
            Op::Sum(c, ts) => {
                // Low bits of a sum depend only on the low bits of its terms. Pushing the
                // extraction down is done only where it pays (the result becomes simple, or it
                // is a plain truncation); otherwise adjacent extractions could not be re-fused.
                let nw = lo + w;
                if nw < xw {
                    // every term contributes a constant to the low bits, save one
                    let open = ts.iter().filter(|(t, k)| !self.low_const(*t, *k, nw)).count();
                    let plain = lo == 0
                        && ts.iter().all(|(t, _)| self.boundary_at(*t, nw));
                    if open <= 1 || plain {
                        let mut acc = self.c(c, nw);
                        for (t, k) in ts.iter() {
                            if self.low_zero(*t, *k, nw) {
                                continue;
                            }
                            let e = if self.low_const(*t, *k, nw) || plain || self.boundary_at(*t, nw) {
                                self.extract(*t, 0, nw)
                            } else {
                                self.intern(Op::Extract(*t, 0), nw)
                            };
                            let e = self.scale(e, *k);
                            acc = self.add(acc, e);
                        }
                        let simple = !matches!(self.op(acc), Op::Sum(..));
                        if simple || plain {
                            return self.extract(acc, lo, w);
                        }
                    }
                }
                self.intern(Op::Extract(x, lo), w)
            }
            Op::Ite(..) if self.is_const_ite(x) => {
                self.map_ite(x, &mut |s, t| s.extract(t, lo, w))
            }
            Op::Lookup(..) => self.map_lookup(x, w, &|v| v >> lo).unwrap(),
            _ => self.intern(Op::Extract(x, lo), w),
        }
    }

    fn low_zero(&self, _t: T, k: u128, nw: u32) -> bool { k.trailing_zeros() >= nw }

    /// The low `nw` bits of `k * t` are evidently constant.
    fn low_const(&self, t: T, k: u128, nw: u32) -> bool {
        if self.low_zero(t, k, nw) {
            return true;
        }
        let need = nw - k.trailing_zeros().min(nw);
        match self.op(t) {
            Op::Const(_) => true,
            Op::Concat(ts) => {
                matches!(self.op(ts[0]), Op::Const(_)) && self.w(ts[0]) >= need
            }
            _ => false,
        }
    }

    /// Cutting `t` after `nw` bits falls between the parts of a concatenation.
    fn boundary_at(&self, t: T, nw: u32) -> bool {
        match self.op(t) {
            Op::Const(_) => true,
            Op::Concat(ts) => {
                let mut o = 0;
                for t in ts.iter() {
                    o += self.w(*t);
                    if o == nw {
                        return true;
                    }
                }
                false
            }
            _ => false,
        }
    }

    pub fn zext(&mut self, x: T, w: u32) -> T {
        let xw = self.w(x);
        if xw == w {
            return x;
        }
        let z = self.c(0, w - xw);
        self.concat(&[x, z])
    }
    fn sext0(&mut self, x: T, w: u32) -> T {
        let xw = self.w(x);
        if xw == w {
            return x;
        }
        if let Some(v) = self.cval(x) {
            return self.c(sext128(v, xw) as u128, w);
        }
        if self.umax(x) < (1u128 << (xw - 1)) {
            return self.zext(x, w);
        }
        let s = self.extract(x, xw - 1, 1);
        let o = self.c(u128::MAX, w - xw);
        let z = self.c(0, w - xw);
        let h = self.ite(s, o, z);
        self.concat(&[x, h])
    }
    pub fn trunc(&mut self, x: T, w: u32) -> T {
        self.extract(x, 0, w)
    }

    // ---------- arithmetic ----------

    fn sum_parts(&self, t: T, k: u128, c: &mut u128, out: &mut Vec<(T, u128)>) {
        match self.op(t) {
            Op::Const(v) => *c = c.wrapping_add(v.wrapping_mul(k)),
            Op::Sum(c0, ts) => {
                *c = c.wrapping_add(c0.wrapping_mul(k));
                for (t, k2) in ts.iter() {
                    out.push((*t, k2.wrapping_mul(k)));
                }
            }
            _ => out.push((t, k)),
        }
    }
    fn mk_sum(&mut self, c: u128, mut ts: Vec<(T, u128)>, w: u32) -> T {
        let m = mask(w);
        ts.sort();
        let mut o: Vec<(T, u128)> = Vec::with_capacity(ts.len());
        for (t, k) in ts {
            if let Some(l) = o.last_mut() {
                if l.0 == t {
                    l.1 = l.1.wrapping_add(k) & m;
                    continue;
                }
            }
            o.push((t, k & m));
        }
        o.retain(|x| x.1 != 0);
        let c = c & m;
        if o.is_empty() {
            return self.c(c, w);
        }
        if o.len() == 1 && o[0].1 == 1 && c == 0 {
            return o[0].0;
        }
        if w == 1 {
            // addition is xor
            let mut acc = self.c(c, 1);
            for (t, _) in o {
                acc = self.xor(acc, t);
            }
            return acc;
        }
        if o.len() == 1 {
            let (t, k) = o[0];
            if self.is_const_ite(t) {
                return self.map_ite(t, &mut |s, x| {
                    let v = s.cval(x).unwrap();
                    s.c(v.wrapping_mul(k).wrapping_add(c), w)
                });
            }
            if let Some(r) = self.map_lookup(t, w, &|x| x.wrapping_mul(k).wrapping_add(c)) {
                return r;
            }
        }
        if w >= 32 {
            // bitwise disjoint addends: addition is xor
            let bw: Vec<usize> = (0..o.len())
                .filter(|&i| matches!(self.op(o[i].0), Op::And(_)) || self.has_and(o[i].0))
                .collect();
            for (ii, &i) in bw.iter().enumerate() {
                for &j in &bw[ii + 1..] {
                    if o[i].1 != o[j].1 {
                        continue;
                    }
                    let (pi, pj) = (self.poly(o[i].0), self.poly(o[j].0));
                    if poly_mul(&pi, &pj).map_or(false, |p| p.is_empty()) {
                        let (x, y, k) = (o[i].0, o[j].0, o[i].1);
                        let m = self.xor(x, y);
                        o.remove(j);
                        o.remove(i);
                        let mut cc = c;
                        self.sum_parts(m, k, &mut cc, &mut o);
                        return self.mk_sum(cc, o, w);
                    }
                }
            }
        }
        self.intern(Op::Sum(c, o.into()), w)
    }
    fn add0(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.c(x.wrapping_add(y), w);
        }
        let mut c = 0;
        let mut v = vec![];
        self.sum_parts(a, 1, &mut c, &mut v);
        self.sum_parts(b, 1, &mut c, &mut v);
        self.mk_sum(c, v, w)
    }
    fn sub0(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let mut c = 0;
        let mut v = vec![];
        self.sum_parts(a, 1, &mut c, &mut v);
        self.sum_parts(b, u128::MAX, &mut c, &mut v);
        self.mk_sum(c, v, w)
    }
    fn scale0(&mut self, a: T, k: u128) -> T {
        let w = self.w(a);
        let mut c = 0;
        let mut v = vec![];
        self.sum_parts(a, k, &mut c, &mut v);
        self.mk_sum(c, v, w)
    }
    fn mul0(&mut self, a: T, b: T) -> T {
        if let Some(k) = self.cval(a) {
            return self.scale(b, k);
        }
        if let Some(k) = self.cval(b) {
            return self.scale(a, k);
        }
        let w = self.w(a);
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.intern(Op::Mul(a, b), w)
    }
    fn udiv0(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(b) {
            if let Some(v) = self.cval(a) {
                return self.c(if k == 0 { u128::MAX } else { v / k }, w);
            }
            if k.is_power_of_two() {
                return self.lshr_c(a, k.trailing_zeros());
            }
            if k != 0 && self.umax(a) < k {
                return self.c(0, w);
            }
        }
        self.intern(Op::UDiv(a, b), w)
    }
    fn urem0(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.cval(b) {
            if let Some(v) = self.cval(a) {
                return self.c(if k == 0 { v } else { v % k }, w);
            }
            if k == 1 {
                return self.c(0, w);
            }
            if k.is_power_of_two() {
                let e = self.extract(a, 0, k.trailing_zeros());
                return self.zext(e, w);
            }
            if k != 0 && self.umax(a) < k {
                return a;
            }
        }
        self.intern(Op::URem(a, b), w)
    }
    fn sdiv0(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let top = 1u128 << (w - 1);
        if self.umax(a) < top && self.umax(b) < top {
            return self.udiv(a, b);
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if y != 0 {
                return self.c(sext128(x, w).wrapping_div(sext128(y, w)) as u128, w);
            }
        }
        self.intern(Op::SDiv(a, b), w)
    }
    fn srem0(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let top = 1u128 << (w - 1);
        if self.umax(a) < top && self.umax(b) < top {
            return self.urem(a, b);
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if y != 0 {
                return self.c(sext128(x, w).wrapping_rem(sext128(y, w)) as u128, w);
            }
        }
        self.intern(Op::SRem(a, b), w)
    }

    fn shl_c0(&mut self, a: T, k: u32) -> T {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.c(0, w);
        }
        if let Op::Sum(..) = self.op(a) {
            return self.scale(a, 1u128 << k);
        }
        let e = self.extract(a, 0, w - k);
        let z = self.c(0, k);
        self.concat(&[z, e])
    }
    fn lshr_c0(&mut self, a: T, k: u32) -> T {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.c(0, w);
        }
        let e = self.extract(a, k, w - k);
        self.zext(e, w)
    }
    fn ashr_c0(&mut self, a: T, k: u32) -> T {
        let w = self.w(a);
        let k = k.min(w - 1);
        if k == 0 {
            return a;
        }
        let e = self.extract(a, k, w - k);
        self.sext(e, w)
    }
    fn shl0(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match self.cval(b) {
            Some(k) => self.shl_c(a, k.min(w as u128) as u32),
            None => {
                if self.is_const_ite(b) {
                    return self.map_ite(b, &mut |s, k| {
                        let k = s.cval(k).unwrap().min(w as u128) as u32;
                        s.shl_c(a, k)
                    });
                }
                self.intern(Op::Shl(a, b), w)
            }
        }
    }
    fn lshr0(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match self.cval(b) {
            Some(k) => self.lshr_c(a, k.min(w as u128) as u32),
            None => {
                if self.is_const_ite(b) {
                    return self.map_ite(b, &mut |s, k| {
                        let k = s.cval(k).unwrap().min(w as u128) as u32;
                        s.lshr_c(a, k)
                    });
                }
                self.intern(Op::LShr(a, b), w)
            }
        }
    }
    fn ashr0(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match self.cval(b) {
            Some(k) => self.ashr_c(a, k.min(w as u128) as u32),
            None => self.intern(Op::AShr(a, b), w),
        }
    }
    /// funnel shift left of hi:lo by constant k (k < w)
    fn fshl_c0(&mut self, hi: T, lo: T, k: u32) -> T {
        let w = self.w(hi);
        if k == 0 {
            return hi;
        }
        let a = self.extract(lo, w - k, k);
        let b = self.extract(hi, 0, w - k);
        self.concat(&[a, b])
    }

    // ---------- bitwise ----------

    fn slices_by_const(&mut self, x: T, k: u128, w: u32, f: &mut dyn FnMut(&mut Ctx, T, bool) -> T) -> Option<T> {
        // split x by the runs of k; f(slice, bit)
        let mut runs = vec![];
        let mut i = 0;
        while i < w {
            let b = (k >> i) & 1;
            let mut j = i + 1;
            while j < w && (k >> j) & 1 == b {
                j += 1;
            }
            runs.push((i, j - i, b == 1));
            i = j;
        }
        if runs.len() > 10 {
            return None;
        }
        let mut parts = vec![];
        for (lo, n, b) in runs {
            let e = self.extract(x, lo, n);
            parts.push(f(self, e, b));
        }
        Some(self.concat(&parts))
    }

    fn and0(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.c(x & y, w),
            (Some(_), None) => return self.and(b, a),
            (None, Some(k)) => {
                if k == 0 {
                    return b;
                }
                if k == mask(w) {
                    return a;
                }
                if let Some(r) = self.map_lookup(a, w, &|x| x & k) {
                    return r;
                }
                if self.is_const_ite(a) {
                    return self.map_ite(a, &mut |s, x| s.and(x, b));
                }
                if let Some(r) = self.slices_by_const(a, k, w, &mut |s, e, bit| {
                    if bit {
                        e
                    } else {
                        let w = s.w(e);
                        s.c(0, w)
                    }
                }) {
                    return r;
                }
            }
            _ => {
                if let Some(r) = self.map_lookup2(a, b, w, &|x, y| x & y) {
                    return r;
                }
                // split along constant parts of a concat
                for (p, q) in [(a, b), (b, a)] {
                    if let Op::Concat(ts) = self.op(p).clone() {
                        if ts.iter().any(|t| {
                            self.cval(*t).map_or(false, |v| v == 0 || v == mask(self.w(*t)))
                        }) {
                            let mut off = 0;
                            let mut parts = vec![];
                            for &t in ts.iter() {
                                let tw = self.w(t);
                                let e = self.extract(q, off, tw);
                                parts.push(self.and(t, e));
                                off += tw;
                            }
                            return self.concat(&parts);
                        }
                    }
                }
            }
        }
        if w >= 32 && (matches!(self.op(a), Op::Xor(_)) || matches!(self.op(b), Op::Xor(_))) {
            let (pa, pb) = (self.poly(a), self.poly(b));
            if let Some(p) = poly_mul(&pa, &pb) {
                return self.from_poly(p, w);
            }
        }
        self.nary(a, b, 0)
    }
    fn or0(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.c(x | y, w),
            (Some(_), None) => return self.or(b, a),
            (None, Some(k)) => {
                if k == 0 {
                    return a;
                }
                if k == mask(w) {
                    return b;
                }
                if let Some(r) = self.map_lookup(a, w, &|x| x | k) {
                    return r;
                }
                if self.is_const_ite(a) {
                    return self.map_ite(a, &mut |s, x| s.or(x, b));
                }
                if let Some(r) = self.slices_by_const(a, k, w, &mut |s, e, bit| {
                    if bit {
                        let w = s.w(e);
                        s.c(u128::MAX, w)
                    } else {
                        e
                    }
                }) {
                    return r;
                }
            }
            _ => {
                if let Some(r) = self.map_lookup2(a, b, w, &|x, y| x | y) {
                    return r;
                }
                if let Some(r) = self.disjoint(a, b) {
                    return r;
                }
            }
        }
        if w >= 32 {
            // a | b = a ^ b ^ (a & b)
            let (pa, pb) = (self.poly(a), self.poly(b));
            if let Some(mut p) = poly_mul(&pa, &pb) {
                poly_xor(&mut p, &pa);
                poly_xor(&mut p, &pb);
                if poly_ok(&p) {
                    return self.from_poly(p, w);
                }
            }
        }
        self.nary(a, b, 1)
    }
    fn xor0(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.c(0, w);
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.c(x ^ y, w);
        }
        if let Some(r) = self.map_lookup2(a, b, w, &|x, y| x ^ y) {
            return r;
        }
        if self.cval(a) == Some(0) {
            return b;
        }
        if self.cval(b) == Some(0) {
            return a;
        }
        if self.cval(b).is_some() && self.is_const_ite(a) {
            return self.map_ite(a, &mut |s, x| s.xor(x, b));
        }
        if self.cval(a).is_some() && self.is_const_ite(b) {
            return self.map_ite(b, &mut |s, x| s.xor(x, a));
        }
        if let Some(r) = self.disjoint(a, b) {
            return r;
        }
        if w >= 32 && (self.has_and(a) && self.has_and(b)) {
            let mut p = self.poly(a);
            let pb = self.poly(b);
            poly_xor(&mut p, &pb);
            return self.from_poly(p, w);
        }
        self.nary(a, b, 2)
    }

    fn has_and(&self, t: T) -> bool {
        match self.op(t) {
            Op::And(_) => true,
            Op::Xor(ts) => ts.iter().any(|x| matches!(self.op(*x), Op::And(_))),
            _ => false,
        }
    }

    /// Algebraic normal form over bitwise atoms: monomial -> constant coefficient.
    fn poly(&self, t: T) -> Poly {
        let w = self.w(t);
        let mut p = Poly::new();
        let parts: Vec<T> = match self.op(t) {
            Op::Xor(ts) => ts.to_vec(),
            _ => vec![t],
        };
        for x in parts {
            let (mon, k) = match self.op(x) {
                Op::Const(v) => (vec![], *v),
                Op::And(ts) if !ts.iter().any(|y| matches!(self.op(*y), Op::Xor(_))) => {
                    let mut m = vec![];
                    let mut k = mask(w);
                    for y in ts.iter() {
                        match self.op(*y) {
                            Op::Const(v) => k &= *v,
                            _ => m.push(*y),
                        }
                    }
                    m.sort();
                    (m, k)
                }
                _ => (vec![x], mask(w)),
            };
            let mut one = Poly::new();
            one.insert(mon, k);
            poly_xor(&mut p, &one);
        }
        p
    }

    fn from_poly(&mut self, p: Poly, w: u32) -> T {
        let mut parts = vec![];
        let mut kc = 0;
        for (m, k) in p {
            if m.is_empty() {
                kc = k;
                continue;
            }
            let mut acc = m[0];
            if m.len() > 1 {
                acc = self.intern(Op::And(m.into()), w);
            }
            if k != mask(w) {
                let kt = self.c(k, w);
                acc = match self.op(acc).clone() {
                    Op::And(ts) => {
                        let mut v = ts.to_vec();
                        v.push(kt);
                        v.sort();
                        self.intern(Op::And(v.into()), w)
                    }
                    _ => self.and(acc, kt),
                };
            }
            parts.push(acc);
        }
        let mut acc = self.c(kc, w);
        for t in parts {
            acc = if self.cval(acc) == Some(0) { t } else { self.nary(acc, t, 2) };
        }
        acc
    }

    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        let o = self.c(u128::MAX, w);
        self.xor(a, o)
    }

    /// or/xor of concats such that at each slice at most one side is non-zero
    fn disjoint(&mut self, a: T, b: T) -> Option<T> {
        let (pa, pb) = match (self.op(a).clone(), self.op(b).clone()) {
            (Op::Concat(x), Op::Concat(y)) => (x.to_vec(), y.to_vec()),
            _ => return None,
        };
        let has_zero = |s: &Ctx, p: &[T]| p.iter().any(|t| s.cval(*t) == Some(0));
        if !has_zero(self, &pa) || !has_zero(self, &pb) {
            return None;
        }
        let w = self.w(a);
        let mut cuts = vec![];
        for p in [&pa, &pb] {
            let mut off = 0;
            for t in p.iter() {
                cuts.push(off);
                off += self.w(*t);
            }
        }
        cuts.push(w);
        cuts.sort();
        cuts.dedup();
        let mut parts = vec![];
        for i in 0..cuts.len() - 1 {
            let (lo, n) = (cuts[i], cuts[i + 1] - cuts[i]);
            let x = self.extract(a, lo, n);
            let y = self.extract(b, lo, n);
            if self.cval(x) == Some(0) {
                parts.push(y);
            } else if self.cval(y) == Some(0) {
                parts.push(x);
            } else {
                return None;
            }
        }
        Some(self.concat(&parts))
    }

    fn nary(&mut self, a: T, b: T, kind: u8) -> T {
        let w = self.w(a);
        let mut v: Vec<T> = vec![];
        for t in [a, b] {
            match (kind, self.op(t)) {
                (0, Op::And(ts)) | (1, Op::Or(ts)) | (2, Op::Xor(ts)) => v.extend_from_slice(ts),
                _ => v.push(t),
            }
        }
        v.sort();
        // fold constants
        let mut k = if kind == 0 { mask(w) } else { 0 };
        let mut o: Vec<T> = Vec::with_capacity(v.len());
        for t in v {
            if let Some(x) = self.cval(t) {
                match kind {
                    0 => k &= x,
                    1 => k |= x,
                    _ => k ^= x,
                }
                continue;
            }
            if o.last() == Some(&t) {
                if kind == 2 {
                    o.pop();
                }
                continue;
            }
            o.push(t);
        }
        let ident = if kind == 0 { mask(w) } else { 0 };
        if kind == 0 && k == 0 {
            return self.c(0, w);
        }
        if kind == 1 && k == mask(w) {
            return self.c(k, w);
        }
        if w == 1 && kind < 2 {
            // x and !x
            for i in 0..o.len() {
                let n = self.not(o[i]);
                if o.contains(&n) {
                    return self.c(kind as u128, 1);
                }
            }
        }
        if o.is_empty() {
            return self.c(k, w);
        }
        if k != ident {
            let kt = self.c(k, w);
            if o.len() == 1 && kind == 2 && w > 1 {
                // keep xor with a constant as is
            }
            o.push(kt);
            o.sort();
        }
        if o.len() == 1 {
            return o[0];
        }
        let op = match kind {
            0 => Op::And(o.into()),
            1 => Op::Or(o.into()),
            _ => Op::Xor(o.into()),
        };
        self.intern(op, w)
    }

    // ---------- predicates ----------

    fn eq0(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.bool(true);
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.bool(x == y);
        }
        if self.cval(a).is_some() {
            return self.eq(b, a);
        }
        if self.umax(a) < self.umin(b) || self.umax(b) < self.umin(a) {
            return self.bool(false);
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        if let Some(r) = self.map_lookup2(a, b, 1, &|x, y| (x == y) as u128) {
            return r;
        }
        if let Some(k) = self.cval(b) {
            match self.op(a).clone() {
                Op::Concat(ts) => {
                    let mut off = 0;
                    let mut acc = self.bool(true);
                    for &t in ts.iter() {
                        let tw = self.w(t);
                        let kk = self.c(k >> off, tw);
                        let e = self.eq(t, kk);
                        acc = self.and(acc, e);
                        off += tw;
                    }
                    return acc;
                }
                Op::Sum(c, ts) if c != 0 => {
                    let x = self.mk_sum(0, ts.to_vec(), w);
                    let kk = self.c(k.wrapping_sub(c), w);
                    return self.eq(x, kk);
                }
                Op::Ite(c, x, y) => {
                    if self.cval(x).is_some() || self.cval(y).is_some() {
                        let ex = self.eq(x, b);
                        let ey = self.eq(y, b);
                        return self.ite(c, ex, ey);
                    }
                }
                Op::Xor(ts) if ts.iter().any(|t| self.cval(*t).is_some()) => {
                    let kk = ts.iter().find_map(|t| self.cval(*t)).unwrap();
                    let kt = self.c(kk, w);
                    let x = self.xor(a, kt);
                    let r = self.c(k ^ kk, w);
                    return self.eq(x, r);
                }
                Op::Xor(ts) if k == 0 && ts.len() == 2 => return self.eq(ts[0], ts[1]),
                _ => {}
            }
        } else {
            match (self.op(a).clone(), self.op(b).clone()) {
                (Op::Concat(x), Op::Concat(y))
                    if x.len() == y.len()
                        && x.iter().zip(y.iter()).all(|(p, q)| self.w(*p) == self.w(*q)) =>
                {
                    let mut acc = self.bool(true);
                    for (p, q) in x.iter().zip(y.iter()) {
                        let e = self.eq(*p, *q);
                        acc = self.and(acc, e);
                    }
                    return acc;
                }
                (Op::Sum(..), _) | (_, Op::Sum(..)) => {
                    let d = self.sub(a, b);
                    if let Some(v) = self.cval(d) {
                        return self.bool(v == 0);
                    }
                }
                _ => {}
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.intern(Op::Eq(a, b), 1)
    }
    pub fn ne(&mut self, a: T, b: T) -> T {
        let e = self.eq(a, b);
        self.not(e)
    }
    fn ult0(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.bool(false);
        }
        if self.umax(a) < self.umin(b) {
            return self.bool(true);
        }
        if self.umin(a) >= self.umax(b) {
            return self.bool(false);
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        if let Some(r) = self.map_lookup2(a, b, 1, &|x, y| (x < y) as u128) {
            return r;
        }
        if self.cval(b) == Some(1) {
            let z = self.c(0, w);
            return self.eq(a, z);
        }
        if self.cval(a) == Some(0) {
            return self.ne(b, a);
        }
        if self.cval(b).is_some() && self.is_const_ite(a) {
            return self.map_ite(a, &mut |s, x| s.ult(x, b));
        }
        if self.cval(a).is_some() && self.is_const_ite(b) {
            return self.map_ite(b, &mut |s, x| s.ult(a, x));
        }
        // power-of-two bound: a < 2^k  <=>  high bits zero
        if let Some(k) = self.cval(b) {
            if k.is_power_of_two() {
                let n = k.trailing_zeros();
                let h = self.extract(a, n, w - n);
                let z = self.c(0, w - n);
                return self.eq(h, z);
            }
        }
        let m = self.umax(a).max(self.umax(b));
        let bits = (128 - m.leading_zeros()).max(1);
        if bits < w {
            let x = self.extract(a, 0, bits);
            let y = self.extract(b, 0, bits);
            return self.ult(x, y);
        }
        self.intern(Op::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }
    fn slt0(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.bool(false);
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.bool(sext128(x, w) < sext128(y, w));
        }
        if w == 1 {
            let n = self.not(b);
            return self.and(a, n);
        }
        let top = 1u128 << (w - 1);
        let (na, nb) = (self.umax(a) < top, self.umax(b) < top);
        if na && nb {
            return self.ult(a, b);
        }
        let (ga, gb) = (self.umin(a) >= top, self.umin(b) >= top);
        if ga && nb {
            return self.bool(true);
        }
        if na && gb {
            return self.bool(false);
        }
        if ga && gb {
            return self.ult(a, b);
        }
        if self.cval(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.cval(a) == Some(mask(w)) {
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        if let Some(r) =
            self.map_lookup2(a, b, 1, &|x, y| (sext128(x, w) < sext128(y, w)) as u128)
        {
            return r;
        }
        if self.cval(b).is_some() && self.is_const_ite(a) {
            return self.map_ite(a, &mut |s, x| s.slt(x, b));
        }
        if self.cval(a).is_some() && self.is_const_ite(b) {
            return self.map_ite(b, &mut |s, x| s.slt(a, x));
        }
        self.intern(Op::Slt(a, b), 1)
    }

    fn ite0(&mut self, c: T, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Some(v) = self.cval(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Op::Xor(ts) = self.op(c) {
            if ts.iter().any(|t| self.cval(*t) == Some(1)) {
                let nc = self.not(c);
                return self.ite(nc, b, a);
            }
        }
        let a = match *self.op(a) {
            Op::Ite(c2, x, _) if c2 == c => x,
            _ => a,
        };
        let b = match *self.op(b) {
            Op::Ite(c2, _, y) if c2 == c => y,
            _ => b,
        };
        if a == b {
            return a;
        }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
            if a == c {
                return self.or(c, b);
            }
            if b == c {
                return self.and(c, a);
            }
        }
        // common concat boundaries (e.g. zero-extensions, adjacent memory)
        if let Op::Lookup(tc, ic) = *self.op(c) {
            // the condition is itself a function of the index
            let la = match *self.op(a) {
                Op::Const(v) => Some(vec![v; self.tables[tc as usize].len()]),
                Op::Lookup(t, i) if i == ic => Some(self.tables[t as usize].clone()),
                _ => None,
            };
            let lb = match *self.op(b) {
                Op::Const(v) => Some(vec![v; self.tables[tc as usize].len()]),
                Op::Lookup(t, i) if i == ic => Some(self.tables[t as usize].clone()),
                _ => None,
            };
            if let (Some(la), Some(lb)) = (la, lb) {
                let tb = self.tables[tc as usize].clone();
                let r: Vec<u128> =
                    (0..tb.len()).map(|k| if tb[k] == 1 { la[k] } else { lb[k] }).collect();
                return self.lookup(r, ic, w);
            }
        }
        if let (Op::Concat(x), Op::Concat(y)) = (self.op(a).clone(), self.op(b).clone()) {
            if x.len() == y.len()
                && x.iter().zip(y.iter()).all(|(p, q)| self.w(*p) == self.w(*q))
                && x.iter().zip(y.iter()).any(|(p, q)| p == q)
            {
                let mut parts = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    parts.push(self.ite(c, *p, *q));
                }
                return self.concat(&parts);
            }
        }
        self.intern(Op::Ite(c, a, b), w)
    }

    pub fn children(&self, t: T) -> Vec<T> {
        self.op_children(self.op(t))
    }
    fn op_children(&self, op: &Op) -> Vec<T> {
        match op {
            Op::Const(_) | Op::Var(_) => vec![],
            Op::Sum(_, ts) => ts.iter().map(|x| x.0).collect(),
            Op::Mul(a, b)
            | Op::UDiv(a, b)
            | Op::URem(a, b)
            | Op::SDiv(a, b)
            | Op::SRem(a, b)
            | Op::Shl(a, b)
            | Op::LShr(a, b)
            | Op::AShr(a, b)
            | Op::Eq(a, b)
            | Op::Ult(a, b)
            | Op::Slt(a, b) => vec![*a, *b],
            Op::And(ts) | Op::Or(ts) | Op::Xor(ts) | Op::Concat(ts) => ts.to_vec(),
            Op::Extract(a, _) => vec![*a],
            Op::Ite(a, b, c) => vec![*a, *b, *c],
            Op::Lookup(_, i) => vec![*i],
        }
    }

    /// Rebuild `t` with substituted children.
    pub fn rebuild(&mut self, t: T, f: &dyn Fn(T) -> T) -> T {
        let w = self.w(t);
        match self.op(t).clone() {
            Op::Const(_) | Op::Var(_) => t,
            Op::Sum(c, ts) => {
                let mut cc = c;
                let mut v = vec![];
                for (x, k) in ts.iter() {
                    self.sum_parts(f(*x), *k, &mut cc, &mut v);
                }
                self.mk_sum(cc, v, w)
            }
            Op::Mul(a, b) => self.mul(f(a), f(b)),
            Op::UDiv(a, b) => self.udiv(f(a), f(b)),
            Op::URem(a, b) => self.urem(f(a), f(b)),
            Op::SDiv(a, b) => self.sdiv(f(a), f(b)),
            Op::SRem(a, b) => self.srem(f(a), f(b)),
            Op::Shl(a, b) => self.shl(f(a), f(b)),
            Op::LShr(a, b) => self.lshr(f(a), f(b)),
            Op::AShr(a, b) => self.ashr(f(a), f(b)),
            Op::Eq(a, b) => self.eq(f(a), f(b)),
            Op::Ult(a, b) => self.ult(f(a), f(b)),
            Op::Slt(a, b) => self.slt(f(a), f(b)),
            Op::And(ts) => {
                let mut acc = f(ts[0]);
                for x in &ts[1..] {
                    acc = self.and(acc, f(*x));
                }
                acc
            }
            Op::Or(ts) => {
                let mut acc = f(ts[0]);
                for x in &ts[1..] {
                    acc = self.or(acc, f(*x));
                }
                acc
            }
            Op::Xor(ts) => {
                let mut acc = f(ts[0]);
                for x in &ts[1..] {
                    acc = self.xor(acc, f(*x));
                }
                acc
            }
            Op::Concat(ts) => {
                let v: Vec<T> = ts.iter().map(|x| f(*x)).collect();
                self.concat(&v)
            }
            Op::Extract(a, lo) => self.extract(f(a), lo, w),
            Op::Ite(c, a, b) => self.ite(f(c), f(a), f(b)),
            Op::Lookup(tb, i) => {
                let ni = f(i);
                if ni == i {
                    t
                } else {
                    let tb = self.tables[tb as usize].clone();
                    if (self.umax(ni) as usize) < tb.len() {
                        self.lookup(tb, ni, w)
                    } else {
                        self.intern(Op::Lookup(self.table_map[&tb], ni), w)
                    }
                }
            }
        }
    }
}

// ---------- certified constructors ----------
//
// Every simplification made by an outermost constructor call is recorded as an obligation
// "plain operation on these arguments == simplified result", to be discharged by the solver.

impl Ctx {
    fn linear_form(&self, t: T, k: u128, m: u128, c: &mut u128, o: &mut BTreeMap<T, u128>) {
        match self.op(t) {
            Op::Const(v) => *c = c.wrapping_add(v.wrapping_mul(k)) & m,
            Op::Sum(c0, ts) => {
                *c = c.wrapping_add(c0.wrapping_mul(k)) & m;
                for (t, k2) in ts.iter() {
                    self.linear_form(*t, k2.wrapping_mul(k) & m, m, c, o);
                }
            }
            _ => {
                let e = o.entry(t).or_insert(0);
                *e = e.wrapping_add(k) & m;
            }
        }
    }

    /// Large sums only: `a == b` reduced to "what is left of a - b == 0" after cancelling equal
    /// addends (exact arithmetic modulo 2^w on the coefficients).
    fn residual(&mut self, a: T, b: T) -> Option<(T, T)> {
        let w = self.w(a);
        if !matches!(self.op(a), Op::Sum(..)) {
            return None;
        }
        let m = mask(w);
        let mut c = 0;
        let mut o = BTreeMap::new();
        self.linear_form(a, 1, m, &mut c, &mut o);
        let n = o.len();
        if n <= SUM_MAX {
            return None;
        }
        self.linear_form(b, m, m, &mut c, &mut o);
        o.retain(|_, k| *k != 0);
        let z = self.c(0, w);
        if o.is_empty() {
            let c = self.c(c, w);
            return Some((c, z));
        }
        let r = self.intern(Op::Sum(c, o.into_iter().collect::<Vec<_>>().into()), w);
        Some((r, z))
    }

    fn ground(&self, t: T, d: u32) -> bool {
        self.cval(t).is_some() || d > 0 && !matches!(self.op(t), Op::Var(_)) && self.children(t).iter().all(|x| self.ground(*x, d - 1))
    }
    fn done(&mut self, raw: Op, w: u32, r: T) -> T {
        self.depth -= 1;
        if self.depth == 0 && self.certify {
            let konst = self.op_children(&raw).iter().all(|t| self.ground(*t, 2));
            if !konst {
                let (raw, r0) = (self.intern(raw, w), r);
                let mut r = r;
                let mut raw = raw;
                if let Some((a, b)) = self.residual(raw, r) {
                    raw = a;
                    r = b;
                }
                if raw == r {
                    self.linear += 1;
                    return r0;
                }
                if raw != r && self.obl_seen.insert((raw, r)) {
                    self.obl.push((raw, r));
                }
            }
        }
        r
    }
    fn bin(&mut self, raw: Op, w: u32, f: &mut dyn FnMut(&mut Ctx) -> T) -> T {
        self.depth += 1;
        let r = f(self);
        self.done(raw, w, r)
    }
    pub fn concat(&mut self, parts: &[T]) -> T {
        if parts.len() == 1 {
            return parts[0];
        }
        let w = parts.iter().map(|t| self.w(*t)).sum();
        self.bin(Op::Concat(parts.to_vec().into()), w, &mut |s| s.concat0(parts))
    }
    pub fn extract(&mut self, x: T, lo: u32, w: u32) -> T {
        if lo == 0 && w == self.w(x) {
            return x;
        }
        self.bin(Op::Extract(x, lo), w, &mut |s| s.extract0(x, lo, w))
    }
    pub fn sext(&mut self, x: T, w: u32) -> T {
        let xw = self.w(x);
        if w == xw {
            return x;
        }
        // sign extension as arithmetic shift of the value placed at the top
        self.depth += 1;
        let r = self.sext0(x, w);
        if self.certify && self.depth == 1 && self.cval(x).is_none() {
            let z = self.c(0, w - xw);
            let top = self.intern(Op::Concat(vec![z, x].into()), w);
            let k = self.c((w - xw) as u128, w);
            return self.done(Op::AShr(top, k), w, r);
        }
        self.depth -= 1;
        r
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.bin(Op::Sum(0, vec![(a, 1), (b, 1)].into()), w, &mut |s| s.add0(a, b))
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.bin(Op::Sum(0, vec![(a, 1), (b, mask(w))].into()), w, &mut |s| s.sub0(a, b))
    }
    pub fn scale(&mut self, a: T, k: u128) -> T {
        let w = self.w(a);
        let kt = self.c(k, w);
        self.bin(Op::Mul(a, kt), w, &mut |s| s.scale0(a, k))
    }
    pub fn shl_c(&mut self, a: T, k: u32) -> T {
        let w = self.w(a);
        let kt = self.c(k as u128, w);
        self.bin(Op::Shl(a, kt), w, &mut |s| s.shl_c0(a, k))
    }
    pub fn lshr_c(&mut self, a: T, k: u32) -> T {
        let w = self.w(a);
        let kt = self.c(k as u128, w);
        self.bin(Op::LShr(a, kt), w, &mut |s| s.lshr_c0(a, k))
    }
    pub fn ashr_c(&mut self, a: T, k: u32) -> T {
        let w = self.w(a);
        let kt = self.c(k as u128, w);
        self.bin(Op::AShr(a, kt), w, &mut |s| s.ashr_c0(a, k))
    }
    /// top `w` bits of (hi:lo) << k
    pub fn fshl_c(&mut self, hi: T, lo: T, k: u32) -> T {
        let w = self.w(hi);
        self.depth += 1;
        let r = self.fshl_c0(hi, lo, k);
        if self.certify && self.depth == 1 {
            let k = k % w;
            let kt = self.c(k as u128, w);
            let kr = self.c((w - k) as u128, w);
            let h = self.intern(Op::Shl(hi, kt), w);
            let l = self.intern(Op::LShr(lo, kr), w);
            return self.done(Op::Or(vec![h, l].into()), w, r);
        }
        self.depth -= 1;
        r
    }
    pub fn lookup(&mut self, tb: Vec<u128>, idx: T, w: u32) -> T {
        let id = self.table(tb.clone());
        self.bin(Op::Lookup(id, idx), w, &mut |s| s.lookup0(tb.clone(), idx, w))
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        let w = self.w(a);
        self.bin(Op::Ite(c, a, b), w, &mut |s| s.ite0(c, a, b))
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.bin(Op::And(vec![a, b].into()), w, &mut |s| s.and0(a, b))
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.bin(Op::Or(vec![a, b].into()), w, &mut |s| s.or0(a, b))
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.bin(Op::Xor(vec![a, b].into()), w, &mut |s| s.xor0(a, b))
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.bin(Op::Mul(a, b), w, &mut |s| s.mul0(a, b))
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.bin(Op::UDiv(a, b), w, &mut |s| s.udiv0(a, b))
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.bin(Op::URem(a, b), w, &mut |s| s.urem0(a, b))
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.bin(Op::SDiv(a, b), w, &mut |s| s.sdiv0(a, b))
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.bin(Op::SRem(a, b), w, &mut |s| s.srem0(a, b))
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.bin(Op::Shl(a, b), w, &mut |s| s.shl0(a, b))
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.bin(Op::LShr(a, b), w, &mut |s| s.lshr0(a, b))
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.bin(Op::AShr(a, b), w, &mut |s| s.ashr0(a, b))
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        let w = 1;
        self.bin(Op::Eq(a, b), w, &mut |s| s.eq0(a, b))
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        let w = 1;
        self.bin(Op::Ult(a, b), w, &mut |s| s.ult0(a, b))
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = 1;
        self.bin(Op::Slt(a, b), w, &mut |s| s.slt0(a, b))
    }
}
