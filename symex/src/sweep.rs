//! Equivalence prover: SAT sweeping over the term DAG.
//!
//! Candidate equal nodes are found by simulation; each candidate is *proved* by an SMT query over
//! a small cut of its cone before it is merged. What remains is one query over the full cone.

use crate::solver::{cone, Res, Solver};
use crate::term::{Ctx, Op, T};
use std::collections::{HashMap, HashSet};

pub enum Verdict {
    Proved,
    Refuted(HashMap<u32, u128>),
    Unknown(String),
}

#[derive(Default)]
pub struct Sweep {
    pub norm: HashMap<T, T>,
    classes: HashMap<(u32, u64), Vec<T>>,
    pub lemmas: u64,
    pub failed: u64,
    tried: HashSet<(T, T)>,
}

pub const BASE_SAMPLES: usize = 24;

fn sig(ctx: &mut Ctx, t: T) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for s in 0..BASE_SAMPLES.min(ctx.nsamples()) {
        let v = ctx.val(s, t);
        for x in [v as u64, (v >> 64) as u64] {
            h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 29;
        }
    }
    h
}

pub fn sample_model(ctx: &Ctx, s: usize) -> HashMap<u32, u128> {
    ctx.var_vals[s].iter().enumerate().map(|(i, v)| (i as u32, *v)).collect()
}

impl Sweep {
    pub fn find(&self, t: T) -> T {
        let mut t = t;
        while let Some(&n) = self.norm.get(&t) {
            if n == t {
                break;
            }
            t = n;
        }
        t
    }

    /// Prove a == b unconditionally. Some(true) proved, Some(false) refuted by a full model
    /// (returned through `model`), None unknown.
    fn prove_pair(
        &mut self,
        ctx: &mut Ctx,
        sv: &mut Solver,
        a: T,
        b: T,
        model: &mut Option<HashMap<u32, u128>>,
        quick: bool,
    ) -> Option<bool> {
        let (mut a, mut b) = (a, b);
        if let (Op::Sum(_, x), Op::Sum(_, y)) = (ctx.op(a), ctx.op(b)) {
            // what the two sums have in common does not matter
            let n = x.len() + y.len();
            let d = ctx.sub(a, b);
            let w = ctx.w(a);
            match ctx.op(d).clone() {
                Op::Sum(c, ts) if ts.len() < n => {
                    // nor do common factors: addends of equal weight that cancel among themselves
                    let m = crate::term::mask(w);
                    let mut groups: std::collections::BTreeMap<u128, Vec<(T, bool)>> = Default::default();
                    for (t, k) in ts.iter() {
                        let neg = k.wrapping_neg() & m;
                        groups.entry((*k).min(neg)).or_default().push((*t, *k <= neg));
                    }
                    let mut all = c == 0 && groups.len() <= 12;
                    for (k, g) in &groups {
                        let (mut x, mut y) = (ctx.c(0, w), ctx.c(0, w));
                        for (t, pos) in g {
                            if *pos {
                                x = ctx.add(x, *t);
                            } else {
                                y = ctx.add(y, *t);
                            }
                        }
                        if groups.len() == 1 && *k == 1 {
                            // nothing gained but the cancellation
                            (a, b) = (x, y);
                            all = false;
                            break;
                        }
                        all = all && self.prove_pair(ctx, sv, x, y, &mut None, true) == Some(true);
                        if !all {
                            break;
                        }
                    }
                    if all {
                        return Some(true);
                    }
                    if groups.len() > 1 || !groups.contains_key(&1) {
                        a = d;
                        b = ctx.c(0, w);
                    }
                }
                Op::Const(v) => return Some(v == 0),
                _ => {}
            }
        }
        let e = ctx.eq(a, b);
        match ctx.cval(e) {
            Some(1) => return Some(true),
            Some(_) => return Some(false),
            None => {}
        }
        let ne = ctx.not(e);
        let mut last = usize::MAX;
        let depths: &[(usize, u64)] = if quick {
            &[(2, 1000), (4, 2000), (7, 3000), (12, 4000)]
        } else {
            &[(2, 1000), (4, 2000), (7, 3000), (12, 5000), (24, 10000), (1000, 20000)]
        };
        for &(d, to) in depths {
            // breadth-first cut
            let mut depth: HashMap<T, usize> = HashMap::new();
            let mut cur = vec![a, b];
            depth.insert(a, 0);
            depth.insert(b, 0);
            let mut cut = HashSet::new();
            let mut inner = 0usize;
            for k in 0..d {
                let mut nx = vec![];
                for t in cur {
                    inner += 1;
                    for c in ctx.children(t) {
                        if !depth.contains_key(&c) {
                            depth.insert(c, k + 1);
                            nx.push(c);
                        }
                    }
                }
                cur = nx;
                if cur.is_empty() || inner > 6000 {
                    break;
                }
            }
            for t in cur {
                if !matches!(ctx.op(t), Op::Var(_) | Op::Const(_)) {
                    cut.insert(t);
                }
            }
            let complete = cut.is_empty();
            if inner == last {
                break;
            }
            last = inner;
            let c = if complete { None } else { Some(&cut) };
            match sv.check(ctx, &[ne], c, to, complete) {
                Res::Unsat => return Some(true),
                Res::Sat(m) => {
                    if complete {
                        *model = Some(m);
                        return Some(false);
                    }
                }
                Res::Unknown(_) => return None,
            }
            if inner > 6000 {
                break;
            }
        }
        None
    }

    pub fn normalise(
        &mut self,
        ctx: &mut Ctx,
        sv: &mut Solver,
        roots: &[T],
        check_model: &mut dyn FnMut(&mut Ctx, HashMap<u32, u128>) -> bool,
    ) -> bool {
        let order = cone(ctx, roots, None);
        for t in order {
            if crate::solver::stopped() || sv.deadline.map_or(false, |d| std::time::Instant::now() > d) {
                return false;
            }
            if self.norm.contains_key(&t) {
                continue;
            }
            let n = {
                let norm = &self.norm;
                let f = |x: T| {
                    let mut x = x;
                    while let Some(&y) = norm.get(&x) {
                        if y == x {
                            break;
                        }
                        x = y;
                    }
                    x
                };
                ctx.rebuild(t, &f)
            };
            let n = self.find(n);
            let mut rep = n;
            let w = ctx.w(n);
            if w >= 8 && !matches!(ctx.op(n), Op::Const(_)) {
                let key = (w, sig(ctx, n));
                let cands = self.classes.get(&key).cloned().unwrap_or_default();
                let mut hit = false;
                for r0 in cands.iter().take(4) {
                    let r = self.find(*r0);
                    if r == n {
                        hit = true;
                        break;
                    }
                    let pk = (r.min(n), r.max(n));
                    if self.tried.contains(&pk) {
                        continue;
                    }
                    let mut model = None;
                    match self.prove_pair(ctx, sv, r, n, &mut model, true) {
                        Some(true) => {
                            self.lemmas += 1;
                            rep = r;
                            hit = true;
                            break;
                        }
                        _ => {
                            if std::env::var("SYMEX_TRACE").is_ok() {
                                let d = ctx.sub(r, n);
                                if let Op::Sum(c, ts) = ctx.op(d) {
                                    if ts.len() < 8 {
                                        eprintln!("residual {} {:?}", c, ts);
                                        for t in ts.iter() {
                                            eprintln!("   {} {:?} {:?}", t.0, ctx.op(t.0), ctx.children(t.0).iter().map(|x| ctx.op(*x).clone()).collect::<Vec<_>>());
                                        }
                                    }
                                }
                                eprintln!("unproved pair w={} {:?} / {:?} cones {} {}", w, ctx.op(r), ctx.op(n), cone(ctx, &[r], None).len(), cone(ctx, &[n], None).len());
                            }
                            self.failed += 1;
                            self.tried.insert(pk);
                            if let Some(m) = model {
                                if check_model(ctx, m) {
                                    return true;
                                }
                            }
                        }
                    }
                }
                if !hit {
                    self.classes.entry(key).or_default().push(n);
                }
            }
            if n != t {
                self.norm.insert(n, rep);
            }
            self.norm.insert(t, rep);
        }
        false
    }

    /// Under the path condition `pc`, are all pairs equal?
    pub fn prove(
        &mut self,
        ctx: &mut Ctx,
        sv: &mut Solver,
        pc: &[T],
        alive: &[usize],
        pairs: &[(T, T)],
        final_ms: u64,
    ) -> Verdict {
        for &s in alive {
            for &(a, b) in pairs {
                if ctx.val(s, a) != ctx.val(s, b) {
                    return Verdict::Refuted(sample_model(ctx, s));
                }
            }
        }
        let open: Vec<(T, T)> = pairs.iter().copied().filter(|(a, b)| a != b).collect();
        if open.is_empty() {
            return Verdict::Proved;
        }
        let mut roots = vec![];
        for (a, b) in &open {
            roots.push(*a);
            roots.push(*b);
        }
        // straight question first, unless the terms are large or arithmetic
        let all = cone(ctx, &roots, None);
        let arith = all.iter().filter(|t| matches!(ctx.op(**t), Op::Sum(..) | Op::Mul(..)) && ctx.w(**t) >= 32).count();
        if all.len() < 30000 && arith < 16 {
            let mut any = ctx.bool(false);
            for (a, b) in &open {
                let n = ctx.ne(*a, *b);
                any = ctx.or(any, n);
            }
            if ctx.cval(any) == Some(0) {
                return Verdict::Proved;
            }
            let mut q = pc.to_vec();
            q.push(any);
            match sv.check(ctx, &q, None, 4000, true) {
                Res::Unsat => return Verdict::Proved,
                Res::Sat(m) => return Verdict::Refuted(m),
                Res::Unknown(_) => {}
            }
        }
        // conditions inside the terms that no sample has exercised both ways: have the solver
        // produce a sample for the other way
        let mut asked = 0;
        for t in cone(ctx, &roots, None) {
            let c = match ctx.op(t) {
                Op::Ite(c, _, _) => *c,
                Op::Eq(..) | Op::Ult(..) | Op::Slt(..) => t,
                _ => continue,
            };
            let first = ctx.val(0, c);
            if (1..ctx.nsamples()).any(|k| ctx.val(k, c) != first) || asked >= 60 {
                continue;
            }
            asked += 1;
            let mut q = pc.to_vec();
            q.push(if first == 1 { ctx.not(c) } else { c });
            if let Res::Sat(m) = sv.check(ctx, &q, None, 1500, true) {
                let k = ctx.add_sample(&m);
                if pc.iter().all(|p| ctx.val(k, *p) == 1)
                    && open.iter().any(|(a, b)| ctx.val(k, *a) != ctx.val(k, *b))
                {
                    return Verdict::Refuted(sample_model(ctx, k));
                }
            }
        }
        let mut found: Option<HashMap<u32, u128>> = None;
        let pcv = pc.to_vec();
        let op2 = open.clone();
        {
            let mut cm = |ctx: &mut Ctx, m: HashMap<u32, u128>| -> bool {
                let s = ctx.add_sample(&m);
                if pcv.iter().all(|p| ctx.val(s, *p) == 1)
                    && op2.iter().any(|(a, b)| ctx.val(s, *a) != ctx.val(s, *b))
                {
                    found = Some(sample_model(ctx, s));
                    return true;
                }
                false
            };
            self.normalise(ctx, sv, &roots, &mut cm);
        }
        if let Some(m) = found {
            return Verdict::Refuted(m);
        }
        let mut any = ctx.bool(false);
        for (a, b) in &open {
            let (x, y) = (self.find(*a), self.find(*b));
            if x != y {
                let n = ctx.ne(x, y);
                any = ctx.or(any, n);
            }
        }
        if ctx.cval(any) == Some(0) {
            return Verdict::Proved;
        }
        let mut q = pc.to_vec();
        q.push(any);
        match sv.check(ctx, &q, None, final_ms, true) {
            Res::Unsat => Verdict::Proved,
            Res::Sat(m) => Verdict::Refuted(m),
            Res::Unknown(e) => Verdict::Unknown(format!("equivalence query: {}", e)),
        }
    }
}
