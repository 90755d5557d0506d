//! Symbolic interpreter for LLVM IR.

use crate::ir::*;
use crate::solver::{Res, Solver};
use crate::sweep::{sample_model, Sweep, Verdict};
use crate::term::{mask, Ctx, T};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub const UNDEF: T = T::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cell {
    pub t: T,
    pub b: u32,
}
const UC: Cell = Cell { t: UNDEF, b: 0 };

#[derive(Clone, Debug)]
pub enum Val {
    S(T),
    V(Rc<Vec<Val>>),
    /// integers wider than 128 bits: 8-bit terms, low first
    W(Rc<Vec<T>>),
    U,
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub data: Vec<Cell>,
    pub writable: bool,
    pub name: Rc<str>,
    pub heap: bool,
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    block: u32,
    idx: usize,
    regs: Rc<Vec<Option<Val>>>,
    allocas: Vec<u32>,
    ret_dst: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    objs: crate::term::FxMap<u32, Rc<Obj>>,
    next_id: u32,
    pc: Vec<T>,
    alive: Vec<usize>,
    conc: HashMap<T, u128>,
    expect_panic: bool,
    ct: bool,
    inputs: Vec<T>,
    features: Vec<(String, T)>,
    reached: BTreeSet<u32>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub loc: String,
    pub inputs: Vec<u8>,
    /// second input for two-run violations (timing): same shape, other contents
    pub inputs2: Option<Vec<u8>>,
    /// value of the symbolic CPU feature word, if the run had one
    pub feats: Option<[u64; 3]>,
    pub undef_dep: bool,
}

#[derive(Debug)]
pub enum Stop {
    Violation(Box<Violation>),
    Inconclusive(String),
}
type R<X> = Result<X, Stop>;

fn inc<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Inconclusive(s.into()))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    Block(usize, u32),
    Ret(usize),
}

enum Step {
    Cont,
    Arrived,
    Dead,
    Fork(Vec<State>, At),
    Split(Vec<State>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Feat {
    On,
    Off,
    Sym,
}

#[derive(Default, Clone, Debug)]
pub struct ExecStats {
    pub insts: u64,
    pub forks: u64,
    pub merges: u64,
    pub ends: u64,
    pub panics_expected: u64,
    pub checks: u64,
    pub check_bytes: u64,
    pub checks_syntactic: u64,
    pub sym_branches: u64,
    pub mem_checks: u64,
    pub assumes: u64,
    pub terms: u64,
    pub lemmas: u64,
    pub ct_branches: u64,
}

impl ExecStats {
    pub fn add(&mut self, o: &ExecStats) {
        self.insts += o.insts;
        self.forks += o.forks;
        self.merges += o.merges;
        self.ends += o.ends;
        self.panics_expected += o.panics_expected;
        self.checks += o.checks;
        self.check_bytes += o.check_bytes;
        self.checks_syntactic += o.checks_syntactic;
        self.sym_branches += o.sym_branches;
        self.mem_checks += o.mem_checks;
        self.assumes += o.assumes;
        self.terms += o.terms;
        self.lemmas += o.lemmas;
        self.ct_branches += o.ct_branches;
    }
}

pub struct Program {
    pub m: Module,
    /// identifies the build for messages
    pub name: String,
}

pub struct Engine<'p> {
    pub p: &'p Program,
    pub ctx: Ctx,
    pub sv: Solver,
    pub sweep: Sweep,
    pub funcs: HashMap<String, Rc<Func>>,
    globals: crate::term::FxMap<u32, Rc<Obj>>,
    gid: HashMap<String, u32>,
    faddr: HashMap<String, u64>,
    fname: HashMap<u64, String>,
    pub args: Vec<u64>,
    pub feat: Feat,
    feat_words: Vec<T>,
    in_vars: Vec<T>,
    /// run on these input bytes instead of symbolic ones
    pub fixed: Option<Vec<u8>>,
    pub fixed_feats: Option<[u64; 3]>,
    pub rewrites: u64,
    pub linear: u64,
    /// what the harness showed
    pub outs: Vec<String>,
    /// functional checks are not this run's business (memory, panics and undefined values are)
    pub safety_only: bool,
    pub stats: ExecStats,
    pub executed: BTreeSet<String>,
    pub dbg_seen: std::collections::HashSet<u32, std::hash::BuildHasherDefault<crate::term::Fx>>,
    pub max_insts: u64,
    /// have the solver prove every term simplification
    pub certify: bool,
    pub deadline: std::time::Instant,
    pub query_ms: u64,
    attr_cache: HashMap<String, Rc<FnInfo>>,
    cur_dbg: u32,
    seed: u64,
    pub reached: BTreeSet<u32>,
}

struct FnInfo {
    noreturn: bool,
    features: Vec<String>,
}

const GLOBAL_BASE: u32 = 0x100;
const DYN_BASE: u32 = 0x0100_0000;
const FN_BASE: u64 = 0x7000_0000_0000_0000;

impl<'p> Engine<'p> {
    pub fn new(p: &'p Program, seed: u64, cross: bool) -> Engine<'p> {
        let mut gid = HashMap::new();
        for (i, g) in p.m.global_order.iter().enumerate() {
            gid.insert(g.clone(), GLOBAL_BASE + i as u32);
        }
        let mut faddr = HashMap::new();
        let mut fname = HashMap::new();
        let mut names: Vec<&String> = p.m.defs.keys().chain(p.m.decls.keys()).collect();
        names.sort();
        for (i, n) in names.into_iter().enumerate() {
            let a = FN_BASE + 16 * i as u64;
            faddr.insert(n.clone(), a);
            fname.insert(a, n.clone());
        }
        Engine {
            p,
            ctx: Ctx::new(seed, crate::sweep::BASE_SAMPLES),
            sv: Solver::new(cross),
            sweep: Sweep::default(),
            funcs: HashMap::new(),
            globals: Default::default(),
            gid,
            faddr,
            fname,
            args: vec![],
            feat: Feat::On,
            feat_words: vec![],
            in_vars: vec![],
            fixed: None,
            fixed_feats: None,
            rewrites: 0,
            linear: 0,
            outs: vec![],
            safety_only: false,
            stats: ExecStats::default(),
            executed: BTreeSet::new(),
            dbg_seen: Default::default(),
            max_insts: 200_000_000,
            certify: false,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
            query_ms: 60_000,
            attr_cache: HashMap::new(),
            cur_dbg: 0,
            seed,
            reached: BTreeSet::new(),
        }
    }

    /// Fresh term context for the next case; solver, lemma cache and parsed code are kept.
    pub fn reset(&mut self) {
        self.stats.terms += self.ctx.nodes.len() as u64;
        self.stats.lemmas += self.sweep.lemmas;
        self.linear += self.ctx.linear;
        self.ctx = Ctx::new(self.seed, crate::sweep::BASE_SAMPLES);
        self.sweep = Sweep::default();
        self.globals.clear();
        self.feat_words.clear();
        self.in_vars.clear();
        self.outs.clear();
        self.reached.clear();
    }

    fn loc(&self) -> String {
        let ch = self.p.m.dbg_chain(self.cur_dbg);
        let v: Vec<String> = ch
            .iter()
            .take(6)
            .map(|(n, f, l)| {
                let f = f.rsplit('/').next().unwrap_or(f);
                format!("{} ({}:{})", n, f, l)
            })
            .collect();
        v.join(" < ")
    }

    // ---------------------------------------------------------------- run

    pub fn run_case(&mut self, entry: &str, args: &[u64], feat: Feat) -> R<()> {
        self.reset();
        self.args = args.to_vec();
        self.feat = feat;
        for k in 0..3 {
            let t = match feat {
                Feat::On => self.ctx.c(u64::MAX as u128, 64),
                Feat::Off => self.ctx.c(1u128 << 63, 64),
                Feat::Sym if self.fixed_feats.is_some() => {
                    self.ctx.c(self.fixed_feats.unwrap()[k] as u128, 64)
                }
                Feat::Sym => {
                    let v = self.ctx.var(format!("cpu{}", k), 63, false);
                    let one = self.ctx.c(1, 1);
                    self.ctx.concat(&[v, one])
                }
            };
            self.feat_words.push(t);
        }
        let f = self.func(entry)?;
        let st = State {
            frames: vec![Frame {
                regs: Rc::new(vec![None; f.nregs]),
                f,
                block: 0,
                idx: 0,
                allocas: vec![],
                ret_dst: None,
                normal: None,
            }],
            objs: Default::default(),
            next_id: DYN_BASE,
            pc: vec![],
            alive: (0..self.ctx.nsamples()).collect(),
            conc: HashMap::new(),
            expect_panic: false,
            ct: false,
            inputs: vec![],
            features: vec![],
            reached: BTreeSet::new(),
        };
        let (e0, p0) = (self.stats.ends, self.stats.panics_expected);
        self.ctx.certify = self.certify;
        let ends = self.run(st, At::Ret(0))?;
        if self.certify {
            self.ctx.certify = false;
            let o = std::mem::take(&mut self.ctx.obl);
            self.rewrites += o.len() as u64;
            if let Err(e) = self.sv.certify(&self.ctx, &o) {
                return inc(e);
            }
        }
        for s in ends {
            if s.expect_panic {
                return self.violate(&s, "no-panic", "a call that must panic returned normally");
            }
            // a state whose feasibility is unknown does not count as a witness
            if !s.alive.is_empty() {
                self.stats.ends += 1;
                self.reached.extend(s.reached.iter());
            }
        }
        if self.stats.ends == e0 && self.stats.panics_expected == p0 {
            return inc("vacuous: no feasible path reaches the end of the harness");
        }
        Ok(())
    }

    fn at(&self, s: &State, a: At) -> bool {
        match a {
            At::Ret(d) => s.frames.len() <= d,
            At::Block(d, b) => {
                s.frames.len() == d + 1 && s.frames[d].block == b && s.frames[d].idx == 0
            }
        }
    }

    fn run(&mut self, st: State, stop: At) -> R<Vec<State>> {
        let mut work = vec![st];
        let mut out = vec![];
        while let Some(mut s) = work.pop() {
            loop {
                match self.step(&mut s)? {
                    Step::Cont => {}
                    Step::Arrived => {
                        if self.at(&s, stop) {
                            out.push(s);
                            break;
                        }
                    }
                    Step::Dead => break,
                    Step::Split(v) => {
                        self.stats.forks += v.len() as u64;
                        work.extend(v);
                        break;
                    }
                    Step::Fork(v, join) => {
                        self.stats.forks += v.len() as u64;
                        let mut rs = vec![];
                        for f in v {
                            if self.at(&f, join) {
                                rs.push(f);
                            } else {
                                rs.extend(self.run(f, join)?);
                            }
                        }
                        for m in self.merge_all(rs) {
                            if self.at(&m, stop) {
                                out.push(m);
                            } else {
                                work.push(m);
                            }
                        }
                        break;
                    }
                }
            }
            if work.len() + out.len() > 4000 {
                return inc("path explosion");
            }
        }
        Ok(out)
    }

    // ---------------------------------------------------------------- merging

    fn merge_all(&mut self, mut v: Vec<State>) -> Vec<State> {
        let mut out: Vec<State> = vec![];
        v.reverse();
        while let Some(s) = v.pop() {
            let mut done = false;
            for o in out.iter_mut() {
                if let Some(m) = self.merge(o, &s) {
                    *o = m;
                    done = true;
                    self.stats.merges += 1;
                    break;
                }
            }
            if !done {
                out.push(s);
            }
        }
        out
    }

    fn merge(&mut self, a: &State, b: &State) -> Option<State> {
        if a.frames.len() != b.frames.len()
            || a.expect_panic != b.expect_panic
            || a.ct != b.ct
            || a.inputs != b.inputs
            || a.features.len() != b.features.len()
        {
            return None;
        }
        for (x, y) in a.frames.iter().zip(b.frames.iter()) {
            if !Rc::ptr_eq(&x.f, &y.f)
                || x.block != y.block
                || x.idx != y.idx
                || x.allocas != y.allocas
                || x.ret_dst != y.ret_dst
            {
                return None;
            }
        }
        let mut k = 0;
        while k < a.pc.len() && k < b.pc.len() && a.pc[k] == b.pc[k] {
            k += 1;
        }
        let mut ca = self.ctx.bool(true);
        for t in &a.pc[k..] {
            ca = self.ctx.and(ca, *t);
        }
        let mut cb = self.ctx.bool(true);
        for t in &b.pc[k..] {
            cb = self.ctx.and(cb, *t);
        }
        // objects
        for (id, x) in &a.objs {
            if let Some(y) = b.objs.get(id) {
                if x.size != y.size || x.base != y.base {
                    return None;
                }
            }
        }
        let mut objs = a.objs.clone();
        for (id, y) in &b.objs {
            match a.objs.get(id) {
                None => {
                    // present only in b: either allocated there, or a global written there
                    if *id < DYN_BASE {
                        let x = self.global_obj(*id).ok()?;
                        let m = self.merge_obj(ca, &x, y);
                        objs.insert(*id, Rc::new(m));
                    } else {
                        objs.insert(*id, y.clone());
                    }
                }
                Some(x) => {
                    if !Rc::ptr_eq(x, y) {
                        let m = self.merge_obj(ca, x, y);
                        objs.insert(*id, Rc::new(m));
                    }
                }
            }
        }
        for (id, x) in &a.objs {
            if *id < DYN_BASE && !b.objs.contains_key(id) {
                let y = self.global_obj(*id).ok()?;
                let m = self.merge_obj(ca, x, &y);
                objs.insert(*id, Rc::new(m));
            }
        }
        let mut frames = a.frames.clone();
        for (i, fr) in frames.iter_mut().enumerate() {
            let (ra, rb) = (&a.frames[i].regs, &b.frames[i].regs);
            if Rc::ptr_eq(ra, rb) {
                continue;
            }
            let mut regs = Vec::with_capacity(ra.len());
            for (x, y) in ra.iter().zip(rb.iter()) {
                let v = match (x, y) {
                    (Some(x), Some(y)) => self.merge_val(ca, x, y),
                    _ => None,
                };
                regs.push(v);
            }
            fr.regs = Rc::new(regs);
        }
        let mut pc = a.pc[..k].to_vec();
        let o = self.ctx.or(ca, cb);
        if self.ctx.cval(o) != Some(1) {
            pc.push(o);
        }
        let mut alive = a.alive.clone();
        alive.extend(b.alive.iter());
        alive.sort();
        alive.dedup();
        let conc = a
            .conc
            .iter()
            .filter(|(k, v)| b.conc.get(k) == Some(v))
            .map(|(k, v)| (*k, *v))
            .collect();
        let reached = a.reached.union(&b.reached).copied().collect();
        Some(State {
            frames,
            objs,
            next_id: a.next_id.max(b.next_id),
            pc,
            alive,
            conc,
            expect_panic: a.expect_panic,
            ct: a.ct,
            inputs: a.inputs.clone(),
            features: a.features.clone(),
            reached,
        })
    }

    fn merge_obj(&mut self, c: T, x: &Obj, y: &Obj) -> Obj {
        let mut o = x.clone();
        let n = o.data.len();
        let mut i = 0;
        while i < n {
            let (p, q) = (x.data[i], y.data[i]);
            if p == q {
                i += 1;
                continue;
            }
            if p.t == UNDEF || q.t == UNDEF {
                // undefined on one side: an unknown there
                o.data[i] = self.cond_cell(c, p, q);
                i += 1;
                continue;
            }
            // try to merge whole words so that pointers stay recognisable
            let mut len = 1;
            if p.b == 0 || q.b == 0 {
                let wp = (self.ctx.w(p.t) / 8) as usize;
                let wq = (self.ctx.w(q.t) / 8) as usize;
                let l = wp.max(wq);
                if l > 1 && l <= 8 && i + l <= n && x.data[i..i + l].iter().all(|c| c.t != UNDEF)
                    && y.data[i..i + l].iter().all(|c| c.t != UNDEF)
                {
                    len = l;
                }
            }
            let a = self.cells_term(&x.data[i..i + len]);
            let b = self.cells_term(&y.data[i..i + len]);
            let m = self.ctx.ite(c, a, b);
            for k in 0..len {
                o.data[i + k] = Cell { t: m, b: k as u32 };
            }
            i += len;
        }
        o
    }

    fn merge_val(&mut self, c: T, x: &Val, y: &Val) -> Option<Val> {
        match (x, y) {
            (Val::S(a), Val::S(b)) => {
                if self.ctx.w(*a) != self.ctx.w(*b) {
                    return None;
                }
                Some(Val::S(self.ctx.ite(c, *a, *b)))
            }
            (Val::V(a), Val::V(b)) => {
                if Rc::ptr_eq(a, b) {
                    return Some(x.clone());
                }
                if a.len() != b.len() {
                    return None;
                }
                let mut v = vec![];
                for (p, q) in a.iter().zip(b.iter()) {
                    v.push(self.merge_val(c, p, q)?);
                }
                Some(Val::V(Rc::new(v)))
            }
            (Val::W(a), Val::W(b)) => {
                if a.len() != b.len() {
                    return None;
                }
                let v = a.iter().zip(b.iter()).map(|(p, q)| self.ctx.ite(c, *p, *q)).collect();
                Some(Val::W(Rc::new(v)))
            }
            (Val::U, Val::U) => Some(Val::U),
            (Val::U, o) => {
                let u = self.undef_like(o);
                self.merge_val(c, &u, o)
            }
            (o, Val::U) => {
                let u = self.undef_like(o);
                self.merge_val(c, o, &u)
            }
            _ => None,
        }
    }

    /// Unknowns in the shape of `v`.
    fn undef_like(&mut self, v: &Val) -> Val {
        match v {
            Val::S(t) => {
                let w = self.ctx.w(*t);
                Val::S(self.fresh_undef(w))
            }
            Val::V(v) => {
                let v = v.iter().map(|x| self.undef_like(x)).collect();
                Val::V(Rc::new(v))
            }
            Val::W(v) => {
                let v = v.iter().map(|_| self.fresh_undef(8)).collect();
                Val::W(Rc::new(v))
            }
            Val::U => Val::U,
        }
    }

    // ---------------------------------------------------------------- violations

    /// Report a violation on the path of `s` (if that path is feasible).
    fn violate<X>(&mut self, s: &State, kind: &str, msg: &str) -> R<X> {
        let m = match s.alive.first() {
            Some(&x) => sample_model(&self.ctx, x),
            None => match self.sv.check(&self.ctx, &s.pc, None, self.query_ms, true) {
                Res::Sat(m) => m,
                Res::Unsat => return inc("internal: dead path"),
                Res::Unknown(e) => return inc(format!("{} on a path of unknown feasibility: {}", msg, e)),
            },
        };
        Err(Stop::Violation(Box::new(self.mk_violation(s, kind, msg, m))))
    }
    fn mk_violation(
        &mut self,
        s: &State,
        kind: &str,
        msg: &str,
        m: HashMap<u32, u128>,
    ) -> Violation {
        let smp = self.ctx.add_sample(&m);
        let inputs = s.inputs.iter().map(|t| self.ctx.val(smp, *t) as u8).collect();
        let feats = if self.feat == Feat::Sym {
            let mut f = [0u64; 3];
            for k in 0..3 {
                f[k] = self.ctx.val(smp, self.feat_words[k]) as u64;
            }
            Some(f)
        } else {
            None
        };
        Violation {
            kind: kind.into(),
            msg: msg.into(),
            loc: self.loc(),
            inputs,
            inputs2: None,
            feats,
            undef_dep: self.ctx.vars.iter().any(|v| v.undef),
        }
    }

    // ---------------------------------------------------------------- conditions

    fn cv(&self, s: &State, t: T) -> Option<u128> {
        self.ctx.cval(t).or_else(|| s.conc.get(&t).copied())
    }

    /// Add `c` to the path; false if that is infeasible.
    fn assume(&mut self, s: &mut State, c: T) -> R<bool> {
        match self.cv(s, c) {
            Some(1) => return Ok(true),
            Some(_) => return Ok(false),
            None => {}
        }
        let mut al = vec![];
        for &x in &s.alive {
            if self.ctx.val(x, c) == 1 {
                al.push(x);
            }
        }
        if al.is_empty() {
            // impossible whatever the path? (the answer is shared by all look-alike conditions)
            if !s.pc.is_empty()
                && self.sv.check(&self.ctx, &[c], None, 2000, false) == Res::Unsat
            {
                return Ok(false);
            }
            let mut q = s.pc.clone();
            q.push(c);
            match self.sv.check(&self.ctx, &q, None, self.query_ms, true) {
                Res::Sat(m) => {
                    let x = self.ctx.add_sample(&m);
                    // guard against a wrong model
                    for t in &q {
                        if self.ctx.val(x, *t) != 1 {
                            return inc("solver model does not satisfy the path condition");
                        }
                    }
                    al.push(x);
                }
                Res::Unsat => return Ok(false),
                Res::Unknown(_) => {}
            }
        }
        s.alive = al;
        s.pc.push(c);
        s.conc.insert(c, 1);
        let n = self.ctx.not(c);
        s.conc.insert(n, 0);
        Ok(true)
    }

    /// Split on the value of `t`: one state per feasible value.
    fn concretise(&mut self, s: &State, t: T, what: &str) -> R<Step> {
        let mut leaves = vec![];
        let mut out = vec![];
        if self.ctx.const_leaves(t, &mut leaves) {
            for v in leaves {
                let k = self.ctx.c(v, self.ctx.w(t));
                let e = self.ctx.eq(t, k);
                let mut n = s.clone();
                if self.assume(&mut n, e)? {
                    n.conc.insert(t, v);
                    out.push(n);
                }
            }
        } else {
            let mut rest = s.clone();
            loop {
                if out.len() > 300 {
                    return inc(format!("too many values for {}", what));
                }
                let v = match rest.alive.first() {
                    Some(&x) => self.ctx.val(x, t),
                    None => {
                        return inc(format!("cannot enumerate {}", what));
                    }
                };
                let k = self.ctx.c(v, self.ctx.w(t));
                let e = self.ctx.eq(t, k);
                let mut n = rest.clone();
                if self.assume(&mut n, e)? {
                    n.conc.insert(t, v);
                    out.push(n);
                }
                let ne = self.ctx.not(e);
                if !self.assume(&mut rest, ne)? {
                    break;
                }
            }
        }
        Ok(Step::Split(out))
    }

    // ---------------------------------------------------------------- memory

    fn global_obj(&mut self, id: u32) -> R<Rc<Obj>> {
        if let Some(o) = self.globals.get(&id) {
            return Ok(o.clone());
        }
        let idx = (id - GLOBAL_BASE) as usize;
        if id < GLOBAL_BASE || idx >= self.p.m.global_order.len() {
            return inc("no such global");
        }
        let name = self.p.m.global_order[idx].clone();
        let (ty, init, konst, al) = match self.p.m.global_init(&name) {
            Ok(x) => x,
            Err(e) => return inc(format!("global {}: {}", name, e)),
        };
        let size = ty.size();
        let mut data = vec![UC; size as usize];
        if name.contains("std_detect") && name.contains("CACHE") {
            for k in 0..3usize {
                for b in 0..8usize {
                    if k * 8 + b < data.len() {
                        data[k * 8 + b] = Cell { t: self.feat_words[k], b: b as u32 };
                    }
                }
            }
        } else if let Some(k) = init {
            self.init_const(&mut data, 0, &ty, &k)?;
        } else {
            return inc(format!("external global {}", name));
        }
        let o = Rc::new(Obj {
            base: ((id as u64) << 32) | 0x10_0000 | al,
            size,
            data,
            writable: !konst,
            name: name.as_str().into(),
            heap: false,
        });
        self.globals.insert(id, o.clone());
        Ok(o)
    }
    fn global_addr(&mut self, name: &str) -> R<u64> {
        let mut n = name.to_string();
        while let Some(a) = self.p.m.aliases.get(&n) {
            n = a.clone();
        }
        if let Some(a) = self.faddr.get(&n) {
            return Ok(*a);
        }
        match self.gid.get(&n) {
            Some(&id) => {
                let al = match self.p.m.global_init(&n) {
                    Ok(x) => x.3,
                    Err(e) => return inc(format!("global {}: {}", n, e)),
                };
                Ok(((id as u64) << 32) | 0x10_0000 | al)
            }
            None => inc(format!("unknown symbol {}", n)),
        }
    }
    fn init_const(&mut self, data: &mut [Cell], off: u64, ty: &Ty, k: &K) -> R<()> {
        match k {
            K::Undef => Ok(()),
            K::Zero | K::Null => {
                let z = self.ctx.c(0, 8);
                for i in 0..ty.size() {
                    data[(off + i) as usize] = Cell { t: z, b: 0 };
                }
                Ok(())
            }
            K::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    let t = self.ctx.c(*x as u128, 8);
                    data[off as usize + i] = Cell { t, b: 0 };
                }
                Ok(())
            }
            K::Agg(v) => {
                for (i, (t, x)) in v.iter().enumerate() {
                    let (o, _) = ty.field(i as u64);
                    self.init_const(data, off + o, t, x)?;
                }
                Ok(())
            }
            _ => {
                let v = self.kval(ty, k)?;
                let mut cs = vec![];
                self.val_cells(ty, &v, &mut cs)?;
                for (i, c) in cs.iter().enumerate() {
                    data[off as usize + i] = *c;
                }
                Ok(())
            }
        }
    }

    fn alloc(&mut self, s: &mut State, size: u64, align: u64, name: &str, heap: bool) -> u64 {
        let id = s.next_id;
        s.next_id += 1;
        let base = ((id as u64) << 32) | 0x10_0000 | align.max(1);
        s.objs.insert(
            id,
            Rc::new(Obj {
                base,
                size,
                data: vec![UC; size as usize],
                writable: true,
                name: name.into(),
                heap,
            }),
        );
        base
    }

    fn obj(&mut self, s: &State, addr: u64) -> Option<(u32, Rc<Obj>)> {
        let id = (addr >> 32) as u32;
        if let Some(o) = s.objs.get(&id) {
            return Some((id, o.clone()));
        }
        if id >= GLOBAL_BASE && id < DYN_BASE {
            if let Ok(o) = self.global_obj(id) {
                return Some((id, o));
            }
        }
        None
    }

    fn access(&mut self, s: &State, addr: u64, n: u64, write: bool, align: u64) -> R<(u32, usize)> {
        self.stats.mem_checks += 1;
        let what = if write { "write" } else { "read" };
        match self.obj(s, addr) {
            Some((id, o)) => {
                let off = addr.wrapping_sub(o.base);
                if off > o.size || n > o.size - off {
                    let m = format!(
                        "out-of-bounds {} of {} bytes at offset {} of {} ({} bytes)",
                        what, n, off as i64, o.name, o.size
                    );
                    return self.violate(s, "oob", &m);
                }
                if write && !o.writable {
                    let m = format!("write to constant {}", o.name);
                    return self.violate(s, "oob", &m);
                }
                if align > 1 && addr % align != 0 {
                    let m = format!(
                        "misaligned {} ({} required) at offset {} of {}",
                        what, align, off, o.name
                    );
                    return self.violate(s, "misaligned", &m);
                }
                Ok((id, off as usize))
            }
            None => {
                let m = format!("{} of {} bytes through an invalid pointer {:#x}", what, n, addr);
                self.violate(s, "oob", &m)
            }
        }
    }

    fn read_cells(&mut self, s: &State, addr: u64, n: u64, align: u64) -> R<Vec<Cell>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.access(s, addr, n, false, align)?;
        let (_, o) = self.obj(s, (id as u64) << 32).unwrap();
        Ok(o.data[off..off + n as usize].to_vec())
    }
    fn write_cells(&mut self, s: &mut State, addr: u64, cs: &[Cell], align: u64) -> R<()> {
        if cs.is_empty() {
            return Ok(());
        }
        let (id, off) = self.access(s, addr, cs.len() as u64, true, align)?;
        if !s.objs.contains_key(&id) {
            let o = self.global_obj(id)?;
            s.objs.insert(id, o);
        }
        let o = Rc::make_mut(s.objs.get_mut(&id).unwrap());
        o.data[off..off + cs.len()].copy_from_slice(cs);
        Ok(())
    }

    fn fresh_undef(&mut self, w: u32) -> T {
        let n = self.ctx.vars.len();
        self.ctx.var(format!("undef{}", n), w, true)
    }

    /// Term made of cells (low address first); undefined cells become fresh unknowns.
    fn cells_term(&mut self, cs: &[Cell]) -> T {
        let mut parts = vec![];
        let mut i = 0;
        while i < cs.len() {
            if cs[i].t == UNDEF {
                let u = self.fresh_undef(8);
                parts.push(u);
                i += 1;
                continue;
            }
            let mut j = i + 1;
            while j < cs.len() && cs[j].t == cs[i].t && cs[j].b == cs[j - 1].b + 1 {
                j += 1;
            }
            let e = self.ctx.extract(cs[i].t, cs[i].b * 8, 8 * (j - i) as u32);
            parts.push(e);
            i = j;
        }
        self.ctx.concat(&parts)
    }

    fn cells_val(&mut self, ty: &Ty, cs: &[Cell]) -> R<Val> {
        match ty {
            Ty::Int(w) => {
                if cs.iter().all(|c| c.t == UNDEF) {
                    return Ok(Val::U);
                }
                if *w > 128 {
                    let v = cs.iter().map(|c| self.cells_term(&[*c])).collect();
                    return Ok(Val::W(Rc::new(v)));
                }
                let t = self.cells_term(cs);
                Ok(Val::S(self.ctx.trunc(t, *w)))
            }
            Ty::Ptr => {
                if cs.iter().all(|c| c.t == UNDEF) {
                    return Ok(Val::U);
                }
                Ok(Val::S(self.cells_term(cs)))
            }
            Ty::Vec(n, t) => {
                let b = t.bits();
                if b % 8 == 0 {
                    let k = (b / 8) as usize;
                    let mut v = vec![];
                    for i in 0..*n as usize {
                        v.push(self.cells_val(t, &cs[i * k..(i + 1) * k])?);
                    }
                    Ok(Val::V(Rc::new(v)))
                } else {
                    let x = self.cells_term(cs);
                    let mut v = vec![];
                    for i in 0..*n as u32 {
                        v.push(Val::S(self.ctx.extract(x, i * b as u32, b as u32)));
                    }
                    Ok(Val::V(Rc::new(v)))
                }
            }
            Ty::Arr(n, t) => {
                let k = t.size() as usize;
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.cells_val(t, &cs[i * k..i * k + t.store_size() as usize])?);
                }
                Ok(Val::V(Rc::new(v)))
            }
            Ty::Struct(ts, _) => {
                let mut v = vec![];
                for i in 0..ts.len() {
                    let (o, t) = ty.field(i as u64);
                    let o = o as usize;
                    v.push(self.cells_val(&t, &cs[o..o + t.store_size() as usize])?);
                }
                Ok(Val::V(Rc::new(v)))
            }
            Ty::Float(w) => {
                if cs.iter().all(|c| c.t == UNDEF) {
                    return Ok(Val::U);
                }
                let t = self.cells_term(cs);
                Ok(Val::S(self.ctx.trunc(t, *w)))
            }
            _ => inc("load type"),
        }
    }
    fn val_cells(&mut self, ty: &Ty, v: &Val, out: &mut Vec<Cell>) -> R<()> {
        let n = ty.store_size() as usize;
        match (ty, v) {
            (_, Val::U) => {
                for _ in 0..n {
                    out.push(UC);
                }
                Ok(())
            }
            (Ty::Int(_), Val::S(t)) | (Ty::Ptr, Val::S(t)) | (Ty::Float(_), Val::S(t)) => {
                let z = self.ctx.zext(*t, 8 * n as u32);
                for b in 0..n {
                    out.push(Cell { t: z, b: b as u32 });
                }
                Ok(())
            }
            (Ty::Int(_), Val::W(ts)) => {
                for t in ts.iter() {
                    out.push(Cell { t: *t, b: 0 });
                }
                Ok(())
            }
            (Ty::Vec(_, t), Val::V(vs)) => {
                if t.bits() % 8 == 0 {
                    for x in vs.iter() {
                        self.val_cells(t, x, out)?;
                    }
                } else {
                    let x = self.vec_bits(vs)?;
                    let z = self.ctx.zext(x, 8 * n as u32);
                    for b in 0..n {
                        out.push(Cell { t: z, b: b as u32 });
                    }
                }
                Ok(())
            }
            (Ty::Arr(_, t), Val::V(vs)) => {
                for x in vs.iter() {
                    let st = out.len();
                    self.val_cells(t, x, out)?;
                    while out.len() < st + t.size() as usize {
                        out.push(UC);
                    }
                }
                Ok(())
            }
            (Ty::Struct(ts, _), Val::V(vs)) => {
                let st = out.len();
                for i in 0..ts.len() {
                    let (o, t) = ty.field(i as u64);
                    while out.len() < st + o as usize {
                        out.push(UC);
                    }
                    self.val_cells(&t, &vs[i], out)?;
                }
                while out.len() < st + n {
                    out.push(UC);
                }
                Ok(())
            }
            _ => inc(format!("store {:?}", ty)),
        }
    }
    fn vec_bits(&mut self, vs: &[Val]) -> R<T> {
        let mut parts = vec![];
        for x in vs {
            parts.push(match x {
                Val::S(t) => *t,
                _ => return inc("undef lane in a bit vector"),
            });
        }
        Ok(self.ctx.concat(&parts))
    }

    // ---------------------------------------------------------------- values

    fn kval(&mut self, ty: &Ty, k: &K) -> R<Val> {
        Ok(match k {
            K::Int(v, w) => {
                if *w > 128 {
                    let n = (*w / 8) as usize;
                    let neg = (*v as i128) < 0;
                    let mut bs = vec![];
                    for i in 0..n {
                        let x = if i < 16 {
                            (v >> (8 * i)) & 0xff
                        } else if neg {
                            0xff
                        } else {
                            0
                        };
                        bs.push(self.ctx.c(x, 8));
                    }
                    Val::W(Rc::new(bs))
                } else {
                    Val::S(self.ctx.c(*v, *w))
                }
            }
            K::Null => Val::S(self.ctx.c(0, 64)),
            K::Undef => self.undef_of(ty),
            K::Zero => self.zero_of(ty)?,
            K::Global(n) => {
                let a = self.global_addr(n)?;
                Val::S(self.ctx.c(a as u128, 64))
            }
            K::Agg(v) => {
                let mut o = vec![];
                for (t, x) in v {
                    o.push(self.kval(t, x)?);
                }
                Val::V(Rc::new(o))
            }
            K::Bytes(b) => {
                let o = b.iter().map(|x| Val::S(self.ctx.c(*x as u128, 8))).collect();
                Val::V(Rc::new(o))
            }
            K::Splat(tv) => {
                let x = self.kval(&tv.0, &tv.1)?;
                match ty {
                    Ty::Vec(n, _) => Val::V(Rc::new(vec![x; *n as usize])),
                    _ => return inc("splat"),
                }
            }
            K::Expr(op, ops, rty) => match op.as_str() {
                "getelementptr" => {
                    let ety = ops[0].0.clone();
                    let base = self.kval(&ops[1].0, &ops[1].1)?;
                    let mut idx = vec![];
                    for (t, x) in &ops[2..] {
                        idx.push((t.clone(), self.kval(t, x)?));
                    }
                    self.gep(base, &ety, &idx)?
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "ptrtoaddr" | "addrspacecast" | "trunc" => {
                    let v = self.kval(&ops[0].0, &ops[0].1)?;
                    match v {
                        Val::S(t) => {
                            let w = rty.bits() as u32;
                            let tw = self.ctx.w(t);
                            Val::S(if w <= tw { self.ctx.trunc(t, w) } else { self.ctx.zext(t, w) })
                        }
                        x => x,
                    }
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" | "lshr" => {
                    let a = self.kval(&ops[0].0, &ops[0].1)?;
                    let b = self.kval(&ops[1].0, &ops[1].1)?;
                    self.bin(op, &a, &b)?
                }
                _ => return inc(format!("const expr {}", op)),
            },
            K::Float(f) => {
                // only bit patterns written as 0x... are supported
                if let (Some(h), Ty::Float(64)) = (f.strip_prefix("0x"), ty) {
                    match u64::from_str_radix(h, 16) {
                        Ok(v) => Val::S(self.ctx.c(v as u128, 64)),
                        Err(_) => return inc("float"),
                    }
                } else if let (Ok(v), Ty::Float(64)) = (f.parse::<f64>(), ty) {
                    Val::S(self.ctx.c(v.to_bits() as u128, 64))
                } else if let (Ok(v), Ty::Float(32)) = (f.parse::<f32>(), ty) {
                    Val::S(self.ctx.c(v.to_bits() as u128, 32))
                } else {
                    return inc("float constant");
                }
            }
            K::Reg(_) => return inc("register in constant"),
        })
    }
    fn undef_of(&mut self, ty: &Ty) -> Val {
        match ty {
            Ty::Vec(n, t) | Ty::Arr(n, t) => {
                let x = self.undef_of(t);
                Val::V(Rc::new(vec![x; *n as usize]))
            }
            Ty::Struct(ts, _) => Val::V(Rc::new(ts.iter().map(|t| self.undef_of(t)).collect())),
            _ => Val::U,
        }
    }
    fn zero_of(&mut self, ty: &Ty) -> R<Val> {
        Ok(match ty {
            Ty::Int(w) if *w > 128 => {
                let z = self.ctx.c(0, 8);
                Val::W(Rc::new(vec![z; (*w / 8) as usize]))
            }
            Ty::Int(w) | Ty::Float(w) => Val::S(self.ctx.c(0, *w)),
            Ty::Ptr => Val::S(self.ctx.c(0, 64)),
            Ty::Vec(n, t) | Ty::Arr(n, t) => {
                let x = self.zero_of(t)?;
                Val::V(Rc::new(vec![x; *n as usize]))
            }
            Ty::Struct(ts, _) => {
                let mut v = vec![];
                for t in ts.iter() {
                    v.push(self.zero_of(t)?);
                }
                Val::V(Rc::new(v))
            }
            _ => return inc("zero"),
        })
    }

    fn val(&mut self, s: &State, ty: &Ty, k: &K) -> R<Val> {
        match k {
            K::Reg(r) => {
                let f = s.frames.last().unwrap();
                match &f.regs[*r as usize] {
                    Some(v) => Ok(v.clone()),
                    None => inc(format!("unset register in {}", f.f.name)),
                }
            }
            K::Int(v, w) if *w <= 128 => Ok(Val::S(self.ctx.c(*v, *w))),
            K::Agg(v) if v.iter().any(|x| matches!(x.1, K::Reg(_))) => inc("register in aggregate"),
            _ => self.kval(ty, k),
        }
    }
    fn sval(&mut self, s: &State, ty: &Ty, k: &K) -> R<T> {
        match self.val(s, ty, k)? {
            Val::S(t) => Ok(t),
            Val::U => inc(format!("use of an undefined value at {}", self.loc())),
            _ => inc("scalar expected"),
        }
    }

    fn gep(&mut self, base: Val, ety: &Ty, idx: &[(Ty, Val)]) -> R<Val> {
        let mut a = match base {
            Val::S(t) => t,
            Val::U => return Ok(Val::U),
            _ => return inc("vector gep"),
        };
        let mut ty = ety.clone();
        for (i, (_, v)) in idx.iter().enumerate() {
            let t = match v {
                Val::S(t) => *t,
                Val::U => return Ok(Val::U),
                _ => return inc("vector gep"),
            };
            let t = if self.ctx.w(t) < 64 {
                self.ctx.sext(t, 64)
            } else {
                self.ctx.trunc(t, 64)
            };
            if i == 0 {
                let o = self.ctx.scale(t, ty.size() as u128);
                a = self.ctx.add(a, o);
            } else {
                match &ty {
                    Ty::Struct(..) => {
                        let k = match self.ctx.cval(t) {
                            Some(k) => k,
                            None => return inc("struct gep"),
                        };
                        let (o, t2) = ty.field(k as u64);
                        let o = self.ctx.c(o as u128, 64);
                        a = self.ctx.add(a, o);
                        ty = t2;
                    }
                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                        let e = (**e).clone();
                        let o = self.ctx.scale(t, e.size() as u128);
                        a = self.ctx.add(a, o);
                        ty = e;
                    }
                    _ => return inc("gep type"),
                }
            }
        }
        Ok(Val::S(a))
    }

    fn lanes2(
        &mut self,
        a: &Val,
        b: &Val,
        f: &mut dyn FnMut(&mut Ctx, T, T) -> T,
    ) -> R<Val> {
        match (a, b) {
            (Val::S(x), Val::S(y)) => Ok(Val::S(f(&mut self.ctx, *x, *y))),
            (Val::V(x), Val::V(y)) => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.lanes2(p, q, f)?);
                }
                Ok(Val::V(Rc::new(v)))
            }
            (Val::V(x), Val::U) | (Val::U, Val::V(x)) => {
                Ok(Val::V(Rc::new(vec![Val::U; x.len()])))
            }
            (Val::U, _) | (_, Val::U) => Ok(Val::U),
            _ => inc("operand shapes"),
        }
    }
    fn lanes1(&mut self, a: &Val, f: &mut dyn FnMut(&mut Ctx, T) -> T) -> R<Val> {
        match a {
            Val::S(x) => Ok(Val::S(f(&mut self.ctx, *x))),
            Val::V(x) => {
                let mut v = vec![];
                for p in x.iter() {
                    v.push(self.lanes1(p, f)?);
                }
                Ok(Val::V(Rc::new(v)))
            }
            Val::U => Ok(Val::U),
            _ => inc("operand shapes"),
        }
    }

    fn bin(&mut self, op: &str, a: &Val, b: &Val) -> R<Val> {
        if let (Val::W(x), Val::W(y)) = (a, b) {
            let f: fn(&mut Ctx, T, T) -> T = match op {
                "and" => Ctx::and,
                "or" => Ctx::or,
                "xor" => Ctx::xor,
                "lshr" | "shl" => {
                    // byte multiples only
                    let mut k = 0u64;
                    for (i, t) in y.iter().enumerate() {
                        match self.ctx.cval(*t) {
                            Some(v) if i < 4 => k |= (v as u64) << (8 * i),
                            Some(0) => {}
                            _ => return inc("wide shift"),
                        }
                    }
                    if k % 8 != 0 {
                        return inc("wide shift amount");
                    }
                    let k = (k / 8) as usize;
                    let z = self.ctx.c(0, 8);
                    let n = x.len();
                    let v = (0..n)
                        .map(|i| {
                            if op == "lshr" {
                                if i + k < n {
                                    x[i + k]
                                } else {
                                    z
                                }
                            } else if i >= k {
                                x[i - k]
                            } else {
                                z
                            }
                        })
                        .collect();
                    return Ok(Val::W(Rc::new(v)));
                }
                _ => return inc(format!("wide {}", op)),
            };
            let v = x.iter().zip(y.iter()).map(|(p, q)| f(&mut self.ctx, *p, *q)).collect();
            return Ok(Val::W(Rc::new(v)));
        }
        let f: fn(&mut Ctx, T, T) -> T = match op {
            "add" => Ctx::add,
            "sub" => Ctx::sub,
            "mul" => Ctx::mul,
            "udiv" => Ctx::udiv,
            "urem" => Ctx::urem,
            "sdiv" => Ctx::sdiv,
            "srem" => Ctx::srem,
            "and" => Ctx::and,
            "or" => Ctx::or,
            "xor" => Ctx::xor,
            "shl" => Ctx::shl,
            "lshr" => Ctx::lshr,
            "ashr" => Ctx::ashr,
            _ => return inc(format!("binop {}", op)),
        };
        self.lanes2(a, b, &mut |c, x, y| f(c, x, y))
    }

    fn icmp(&mut self, pred: &str, a: &Val, b: &Val) -> R<Val> {
        if let (Val::W(x), Val::W(y)) = (a, b) {
            let mut acc = self.ctx.bool(true);
            for (p, q) in x.iter().zip(y.iter()) {
                let e = self.ctx.eq(*p, *q);
                acc = self.ctx.and(acc, e);
            }
            return match pred {
                "eq" => Ok(Val::S(acc)),
                "ne" => Ok(Val::S(self.ctx.not(acc))),
                "ult" | "ugt" => {
                    let (x, y) = if pred == "ult" { (x, y) } else { (y, x) };
                    let mut lt = self.ctx.bool(false);
                    for (p, q) in x.iter().zip(y.iter()) {
                        let l = self.ctx.ult(*p, *q);
                        let e = self.ctx.eq(*p, *q);
                        lt = self.ctx.ite(e, lt, l);
                    }
                    Ok(Val::S(lt))
                }
                _ => inc("wide icmp"),
            };
        }
        let p = pred.to_string();
        self.lanes2(a, b, &mut |c, x, y| match p.as_str() {
            "eq" => c.eq(x, y),
            "ne" => c.ne(x, y),
            "ult" => c.ult(x, y),
            "ugt" => c.ult(y, x),
            "ule" => c.ule(x, y),
            "uge" => c.ule(y, x),
            "slt" => c.slt(x, y),
            "sgt" => c.slt(y, x),
            "sle" => {
                let t = c.slt(y, x);
                c.not(t)
            }
            _ => {
                let t = c.slt(x, y);
                c.not(t)
            }
        })
    }

    fn cast(&mut self, op: &str, v: &Val, from: &Ty, to: &Ty) -> R<Val> {
        if let Val::U = v {
            return Ok(self.undef_of(to));
        }
        match op {
            "bitcast" => {
                if from == to {
                    return Ok(v.clone());
                }
                let mut cs = vec![];
                if from.bits() % 8 == 0 && to.bits() % 8 == 0 {
                    self.val_cells(from, v, &mut cs)?;
                    return self.cells_val(to, &cs);
                }
                // sub-byte vectors
                let x = match v {
                    Val::S(t) => *t,
                    Val::V(vs) => self.vec_bits(vs)?,
                    _ => return inc("bitcast"),
                };
                match to {
                    Ty::Int(_) => Ok(Val::S(x)),
                    Ty::Vec(n, t) => {
                        let b = t.bits() as u32;
                        let v =
                            (0..*n as u32).map(|i| Val::S(self.ctx.extract(x, i * b, b))).collect();
                        Ok(Val::V(Rc::new(v)))
                    }
                    _ => inc("bitcast"),
                }
            }
            _ => {
                let w = match to {
                    Ty::Vec(_, t) => t.bits() as u32,
                    t => t.bits() as u32,
                };
                if let Val::W(ts) = v {
                    if w <= 128 {
                        let t = self.ctx.concat(&ts[..((w + 7) / 8) as usize]);
                        return Ok(Val::S(self.ctx.trunc(t, w)));
                    }
                    if op == "trunc" {
                        return Ok(Val::W(Rc::new(ts[..(w / 8) as usize].to_vec())));
                    }
                    return inc("wide cast");
                }
                if w > 128 {
                    if let (Val::S(t), "zext") = (v, op) {
                        let tw = self.ctx.w(*t);
                        let up = (tw + 7) / 8 * 8;
                        let t = self.ctx.zext(*t, up);
                        let mut b: Vec<T> =
                            (0..up / 8).map(|i| self.ctx.extract(t, i * 8, 8)).collect();
                        let z = self.ctx.c(0, 8);
                        while b.len() < (w / 8) as usize {
                            b.push(z);
                        }
                        return Ok(Val::W(Rc::new(b)));
                    }
                    return inc("wide cast");
                }
                let o = op.to_string();
                self.lanes1(v, &mut |c, t| match o.as_str() {
                    "sext" => c.sext(t, w),
                    _ => {
                        if c.w(t) >= w {
                            c.trunc(t, w)
                        } else {
                            c.zext(t, w)
                        }
                    }
                })
            }
        }
    }

    // ---------------------------------------------------------------- stepping

    fn func(&mut self, name: &str) -> R<Rc<Func>> {
        if let Some(f) = self.funcs.get(name) {
            return Ok(f.clone());
        }
        match self.p.m.parse_func(name) {
            Ok(f) => {
                let f = Rc::new(f);
                self.funcs.insert(name.to_string(), f.clone());
                self.executed.insert(name.to_string());
                Ok(f)
            }
            Err(e) => inc(format!("parse {}", e)),
        }
    }

    fn setr(&mut self, s: &mut State, r: Option<u32>, v: Val) {
        if let Some(r) = r {
            let f = s.frames.last_mut().unwrap();
            Rc::make_mut(&mut f.regs)[r as usize] = Some(v);
        }
    }

    /// Enter `block` of the top frame from its current block.
    fn goto(&mut self, s: &mut State, block: u32) -> R<()> {
        let fi = s.frames.len() - 1;
        let f = s.frames[fi].f.clone();
        let from = s.frames[fi].block;
        let b = &f.blocks[block as usize];
        if !b.phis.is_empty() {
            let mut vs = vec![];
            for (dst, ty, inc_) in &b.phis {
                let k = match inc_.iter().find(|x| x.0 == from) {
                    Some(x) => &x.1,
                    None => return inc("phi without edge"),
                };
                // undefined incoming values of dead phis are tolerated
                let v = match k {
                    K::Reg(r) => s.frames[fi].regs[*r as usize].clone(),
                    _ => Some(self.kval(ty, k)?),
                };
                vs.push((*dst, v));
            }
            let regs = Rc::make_mut(&mut s.frames[fi].regs);
            for (d, v) in vs {
                regs[d as usize] = v;
            }
        }
        s.frames[fi].block = block;
        s.frames[fi].idx = 0;
        Ok(())
    }

    fn join_of(&self, s: &State) -> At {
        let d = s.frames.len() - 1;
        let f = &s.frames[d];
        match f.f.ipdom[f.block as usize] {
            EXIT => At::Ret(d),
            b => At::Block(d, b),
        }
    }

    fn ct_branch(&mut self, s: &State, c: T) -> R<()> {
        // two-way feasible? then it is a data-dependent branch
        self.stats.ct_branches += 1;
        let mut m: [Option<HashMap<u32, u128>>; 2] = [None, None];
        for &x in &s.alive {
            let v = self.ctx.val(x, c) as usize;
            if m[v].is_none() {
                m[v] = Some(sample_model(&self.ctx, x));
            }
        }
        for v in 0..2 {
            if m[v].is_none() {
                let lit = if v == 1 { c } else { self.ctx.not(c) };
                let mut q = s.pc.clone();
                q.push(lit);
                match self.sv.check(&self.ctx, &q, None, self.query_ms, true) {
                    Res::Sat(x) => m[v] = Some(x),
                    Res::Unsat => return Ok(()),
                    Res::Unknown(e) => return inc(format!("timing branch query: {}", e)),
                }
            }
        }
        self.ct_violation(s, "branch depends on the contents", m[0].take().unwrap(), m[1].take().unwrap())
    }
    fn ct_violation<X>(
        &mut self,
        s: &State,
        msg: &str,
        m0: HashMap<u32, u128>,
        m1: HashMap<u32, u128>,
    ) -> R<X> {
        let a = self.mk_violation(s, "timing", msg, m0);
        let b = self.mk_violation(s, "timing", msg, m1);
        let mut v = a;
        v.inputs2 = Some(b.inputs);
        Err(Stop::Violation(Box::new(v)))
    }
    fn ct_value(&mut self, s: &State, t: T, msg: &str) -> R<()> {
        // is the value of t the same for all contents?
        if self.cv(s, t).is_some() {
            return Ok(());
        }
        let first = match s.alive.first() {
            Some(&x) => x,
            None => return inc("timing: no sample"),
        };
        let v = self.ctx.val(first, t);
        let m0 = sample_model(&self.ctx, first);
        for &x in &s.alive.clone() {
            if self.ctx.val(x, t) != v {
                let m1 = sample_model(&self.ctx, x);
                return self.ct_violation(s, msg, m0, m1);
            }
        }
        let k = self.ctx.c(v, self.ctx.w(t));
        let ne = self.ctx.ne(t, k);
        let mut q = s.pc.clone();
        q.push(ne);
        match self.sv.check(&self.ctx, &q, None, self.query_ms, true) {
            Res::Unsat => Ok(()),
            Res::Sat(m1) => self.ct_violation(s, msg, m0, m1),
            Res::Unknown(e) => inc(format!("timing query: {}", e)),
        }
    }

    fn step(&mut self, s: &mut State) -> R<Step> {
        self.stats.insts += 1;
        if self.stats.insts % 4096 == 0 {
            if crate::solver::stopped() || std::time::Instant::now() > self.deadline {
                return inc("time limit");
            }
            if self.ctx.nodes.len() > 1_500_000 && memory_short() {
                return inc("memory limit");
            }
        }
        if self.stats.insts > self.max_insts {
            return inc("instruction limit");
        }
        let fi = s.frames.len() - 1;
        let f = s.frames[fi].f.clone();
        let (bl, ix) = (s.frames[fi].block as usize, s.frames[fi].idx);
        let inst = match f.blocks[bl].insts.get(ix) {
            Some(i) => i,
            None => return inc("fell off block"),
        };
        if inst.dbg != 0 {
            self.cur_dbg = inst.dbg;
            self.dbg_seen.insert(inst.dbg);
        }
        let dst = inst.dst;
        macro_rules! next {
            ($v:expr) => {{
                let v = $v;
                self.setr(s, dst, v);
                s.frames[fi].idx += 1;
                return Ok(Step::Cont);
            }};
        }
        match &inst.i {
            I::Bin(op, ty, a, b) => {
                let x = self.val(s, ty, a)?;
                let y = self.val(s, ty, b)?;
                if matches!(op.as_str(), "udiv" | "urem" | "sdiv" | "srem") {
                    if let Val::S(d) = y {
                        let z = self.ctx.c(0, self.ctx.w(d));
                        let e = self.ctx.eq(d, z);
                        if self.cv(s, e) != Some(0) {
                            let mut bad = s.clone();
                            if self.assume(&mut bad, e)? {
                                return self.violate(&bad, "ub", "division by zero");
                            }
                        }
                    }
                }
                let v = self.bin(op, &x, &y)?;
                next!(v)
            }
            I::ICmp(p, ty, a, b) => {
                let x = self.val(s, ty, a)?;
                let y = self.val(s, ty, b)?;
                let v = self.icmp(p, &x, &y)?;
                next!(v)
            }
            I::Cast(op, from, a, to) => {
                let x = self.val(s, from, a)?;
                let v = self.cast(op, &x, from, to)?;
                next!(v)
            }
            I::Select(cty, c, ty, a, b) => {
                let cvv = self.val(s, cty, c)?;
                let x = self.val(s, ty, a)?;
                let y = self.val(s, ty, b)?;
                let v = match cvv {
                    Val::S(c) => match self.cv(s, c) {
                        Some(1) => x,
                        Some(_) => y,
                        None => self.sel(c, &x, &y)?,
                    },
                    Val::V(cs) => {
                        let (xs, ys) = match (&x, &y) {
                            (Val::V(xs), Val::V(ys)) => (xs, ys),
                            _ => return inc("vector select"),
                        };
                        let mut v = vec![];
                        for i in 0..cs.len() {
                            match &cs[i] {
                                Val::S(c) => v.push(self.sel(*c, &xs[i], &ys[i])?),
                                _ => v.push(Val::U),
                            }
                        }
                        Val::V(Rc::new(v))
                    }
                    Val::U => self.undef_of(ty),
                    _ => return inc("select"),
                };
                next!(v)
            }
            I::Load(ty, p, al) => {
                let a = self.sval(s, &Ty::Ptr, p)?;
                match self.cv(s, a) {
                    Some(addr) => {
                        let cs = self.read_cells(s, addr as u64, ty.store_size(), *al)?;
                        let v = self.cells_val(ty, &cs)?;
                        next!(v)
                    }
                    None => {
                        if s.ct {
                            self.ct_value(s, a, "memory address depends on the contents")?;
                        }
                        match self.load_sym(s, a, ty, *al)? {
                            Ok(v) => next!(v),
                            Err(st) => Ok(st),
                        }
                    }
                }
            }
            I::Store(ty, v, p, al) => {
                let x = self.val(s, ty, v)?;
                let a = self.sval(s, &Ty::Ptr, p)?;
                match self.cv(s, a) {
                    Some(addr) => {
                        let mut cs = vec![];
                        self.val_cells(ty, &x, &mut cs)?;
                        self.write_cells(s, addr as u64, &cs, *al)?;
                        s.frames[fi].idx += 1;
                        Ok(Step::Cont)
                    }
                    None => {
                        if s.ct {
                            self.ct_value(s, a, "memory address depends on the contents")?;
                        }
                        if let Some(st) = self.store_sym(s, a, ty, &x, *al)? {
                            return Ok(st);
                        }
                        s.frames[fi].idx += 1;
                        Ok(Step::Cont)
                    }
                }
            }
            I::Gep(bty, base, ety, idx) => {
                let b = self.val(s, bty, base)?;
                let mut iv = vec![];
                for (t, k) in idx {
                    iv.push((t.clone(), self.val(s, t, k)?));
                }
                let v = self.gep(b, ety, &iv)?;
                next!(v)
            }
            I::Alloca(size, al) => {
                let name = format!("stack object of {}", short(&f.name));
                let a = self.alloc(s, *size, *al, &name, false);
                s.frames[fi].allocas.push((a >> 32) as u32);
                let t = self.ctx.c(a as u128, 64);
                next!(Val::S(t))
            }
            I::Freeze(ty, v) => {
                let x = self.val(s, ty, v)?;
                let v = self.freeze(ty, &x)?;
                next!(v)
            }
            I::ExtractValue(ty, v, ix) => {
                let mut x = self.val(s, ty, v)?;
                for i in ix {
                    x = match x {
                        Val::V(vs) => vs[*i as usize].clone(),
                        Val::U => Val::U,
                        _ => return inc("extractvalue"),
                    };
                }
                next!(x)
            }
            I::InsertValue(ty, v, ety, e, ix) => {
                let x = self.val(s, ty, v)?;
                let e = self.val(s, ety, e)?;
                fn ins(x: Val, ix: &[u64], e: Val) -> Option<Val> {
                    if ix.is_empty() {
                        return Some(e);
                    }
                    match x {
                        Val::V(vs) => {
                            let mut v = (*vs).clone();
                            let k = ix[0] as usize;
                            v[k] = ins(v[k].clone(), &ix[1..], e)?;
                            Some(Val::V(Rc::new(v)))
                        }
                        _ => None,
                    }
                }
                let x = if let Val::U = x { self.undef_of(ty) } else { x };
                match ins(x, ix, e) {
                    Some(v) => next!(v),
                    None => inc("insertvalue"),
                }
            }
            I::ExtractElement(ty, v, i) => {
                let x = self.val(s, ty, v)?;
                let i = self.sval(s, &Ty::Int(64), i)?;
                match (self.cv(s, i), x) {
                    (Some(k), Val::V(vs)) => next!(vs[k as usize].clone()),
                    (_, Val::U) => next!(Val::U),
                    _ => inc("extractelement"),
                }
            }
            I::InsertElement(ty, v, e, i) => {
                let x = self.val(s, ty, v)?;
                let et = match ty {
                    Ty::Vec(_, t) => (**t).clone(),
                    _ => return inc("insertelement"),
                };
                let e = self.val(s, &et, e)?;
                let i = self.sval(s, &Ty::Int(64), i)?;
                let x = if let Val::U = x { self.undef_of(ty) } else { x };
                match (self.cv(s, i), x) {
                    (Some(k), Val::V(vs)) => {
                        let mut v = (*vs).clone();
                        v[k as usize] = e;
                        next!(Val::V(Rc::new(v)))
                    }
                    _ => inc("insertelement"),
                }
            }
            I::Shuffle(ty, a, b, mt, mk) => {
                let n = match ty {
                    Ty::Vec(n, _) => *n as usize,
                    _ => return inc("shuffle"),
                };
                let x = self.val(s, ty, a)?;
                let y = self.val(s, ty, b)?;
                let x = if let Val::U = x { self.undef_of(ty) } else { x };
                let y = if let Val::U = y { self.undef_of(ty) } else { y };
                let (xs, ys) = match (x, y) {
                    (Val::V(x), Val::V(y)) => (x, y),
                    _ => return inc("shuffle"),
                };
                let mm = match self.kval(mt, mk)? {
                    Val::V(m) => m,
                    _ => return inc("shuffle mask"),
                };
                let mut v = vec![];
                for k in mm.iter() {
                    v.push(match k {
                        Val::S(t) => {
                            let i = self.ctx.cval(*t).unwrap_or(0) as usize;
                            if i < n {
                                xs[i].clone()
                            } else {
                                ys[i - n].clone()
                            }
                        }
                        _ => Val::U,
                    });
                }
                next!(Val::V(Rc::new(v)))
            }
            I::AtomicRmw(op, p, ty, v) => {
                let a = self.sval(s, &Ty::Ptr, p)?;
                let addr = match self.cv(s, a) {
                    Some(x) => x as u64,
                    None => return inc("atomic address"),
                };
                let x = self.val(s, ty, v)?;
                let cs = self.read_cells(s, addr, ty.store_size(), 1)?;
                let old = self.cells_val(ty, &cs)?;
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" | "sub" | "and" | "or" | "xor" => self.bin(op, &old, &x)?,
                    _ => return inc(format!("atomicrmw {}", op)),
                };
                let mut cs = vec![];
                self.val_cells(ty, &new, &mut cs)?;
                self.write_cells(s, addr, &cs, 1)?;
                next!(old)
            }
            I::CmpXchg(p, ty, c, n) => {
                let a = self.sval(s, &Ty::Ptr, p)?;
                let addr = match self.cv(s, a) {
                    Some(x) => x as u64,
                    None => return inc("atomic address"),
                };
                let c = self.val(s, ty, c)?;
                let n = self.val(s, ty, n)?;
                let cs = self.read_cells(s, addr, ty.store_size(), 1)?;
                let old = self.cells_val(ty, &cs)?;
                let e = match self.icmp("eq", &old, &c)? {
                    Val::S(t) => t,
                    _ => return inc("cmpxchg"),
                };
                let new = self.sel(e, &n, &old)?;
                let mut cs = vec![];
                self.val_cells(ty, &new, &mut cs)?;
                self.write_cells(s, addr, &cs, 1)?;
                next!(Val::V(Rc::new(vec![old, Val::S(e)])))
            }
            I::Nop => {
                s.frames[fi].idx += 1;
                Ok(Step::Cont)
            }
            I::Br(b) => {
                self.goto(s, *b)?;
                Ok(Step::Arrived)
            }
            I::CondBr(c, x, y) => {
                let c = match self.val(s, &Ty::Int(1), c)? {
                    Val::S(t) => t,
                    Val::U => return self.violate(s, "undef", "branch on an uninitialised value"),
                    _ => return inc("branch"),
                };
                match self.cv(s, c) {
                    Some(v) => {
                        self.goto(s, if v == 1 { *x } else { *y })?;
                        Ok(Step::Arrived)
                    }
                    None => {
                        self.stats.sym_branches += 1;
                        if s.ct {
                            self.ct_branch(s, c)?;
                        }
                        let join = self.join_of(s);
                        let mut v = vec![];
                        let n = self.ctx.not(c);
                        for (t, b) in [(c, *x), (n, *y)] {
                            let mut st = s.clone();
                            if self.assume(&mut st, t)? {
                                self.goto(&mut st, b)?;
                                v.push(st);
                            }
                        }
                        if v.len() == 1 {
                            *s = v.pop().unwrap();
                            return Ok(Step::Arrived);
                        }
                        Ok(Step::Fork(v, join))
                    }
                }
            }
            I::Switch(ty, v, d, cs) => {
                let t = match self.val(s, ty, v)? {
                    Val::S(t) => t,
                    Val::U => return self.violate(s, "undef", "switch on an uninitialised value"),
                    _ => return inc("switch"),
                };
                if let Some(k) = self.cv(s, t) {
                    let b = cs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d);
                    self.goto(s, b)?;
                    return Ok(Step::Arrived);
                }
                self.stats.sym_branches += 1;
                if s.ct {
                    self.ct_value(s, t, "branch depends on the contents")?;
                }
                let join = self.join_of(s);
                let mut groups: Vec<(u32, T)> = vec![];
                let mut none = self.ctx.bool(true);
                let w = self.ctx.w(t);
                for (k, b) in cs {
                    let kt = self.ctx.c(*k, w);
                    let e = self.ctx.eq(t, kt);
                    let ne = self.ctx.not(e);
                    none = self.ctx.and(none, ne);
                    match groups.iter_mut().find(|g| g.0 == *b) {
                        Some(g) => g.1 = self.ctx.or(g.1, e),
                        None => groups.push((*b, e)),
                    }
                }
                match groups.iter_mut().find(|g| g.0 == *d) {
                    Some(g) => g.1 = self.ctx.or(g.1, none),
                    None => groups.push((*d, none)),
                }
                let mut out = vec![];
                for (b, c) in groups {
                    let mut st = s.clone();
                    if self.assume(&mut st, c)? {
                        self.goto(&mut st, b)?;
                        out.push(st);
                    }
                }
                if out.len() == 1 {
                    *s = out.pop().unwrap();
                    return Ok(Step::Arrived);
                }
                Ok(Step::Fork(out, join))
            }
            I::Ret(v) => {
                let v = match v {
                    Some((t, k)) => Some(self.val(s, t, k)?),
                    None => None,
                };
                let fr = s.frames.pop().unwrap();
                for id in fr.allocas {
                    s.objs.remove(&id);
                }
                if !s.frames.is_empty() {
                    if let Some(v) = v {
                        self.setr(s, fr.ret_dst, v);
                    }
                    let k = s.frames.len() - 1;
                    match fr.normal {
                        Some(b) => self.goto(s, b)?,
                        None => s.frames[k].idx += 1,
                    }
                }
                Ok(Step::Arrived)
            }
            I::Unreachable => self.violate(s, "ub", "reached code marked unreachable"),
            I::Unsupported(op) => inc(format!("unsupported instruction {} in {}", op, f.name)),
            I::Call(rty, callee, args, normal) => {
                let mut av = Vec::with_capacity(args.len());
                for (t, k) in args {
                    if *t == Ty::Other {
                        av.push((t.clone(), Val::U));
                    } else {
                        av.push((t.clone(), self.val(s, t, k)?));
                    }
                }
                let name = match callee {
                    Callee::Name(n) => {
                        let mut n = n.clone();
                        while let Some(a) = self.p.m.aliases.get(&n) {
                            n = a.clone();
                        }
                        n
                    }
                    Callee::Op(k) => {
                        let t = self.sval(s, &Ty::Ptr, k)?;
                        match self.cv(s, t) {
                            Some(a) => match self.fname.get(&(a as u64)) {
                                Some(n) => n.clone(),
                                None => {
                                    return self.violate(
                                        s,
                                        "ub",
                                        "call through an invalid function pointer",
                                    )
                                }
                            },
                            None => return self.concretise(s, t, "function pointer"),
                        }
                    }
                    Callee::Asm(t) => {
                        if t.starts_with('|') && *rty == Ty::Void {
                            // empty assembly (black box on memory)
                            s.frames[fi].idx += 1;
                            return Ok(Step::Cont);
                        }
                        if t.starts_with('|') && args.len() == 1 {
                            let v = av[0].1.clone();
                            next!(v)
                        }
                        return inc(format!("inline asm {:?}", t));
                    }
                };
                if let Some(st) = self.builtin(s, &name, rty, &av, dst, *normal)? {
                    return Ok(st);
                }
                let info = self.fn_info(&name);
                if info.noreturn {
                    if s.expect_panic {
                        if s.alive.is_empty() {
                            return inc("expected panic on a path of unknown feasibility");
                        }
                        self.stats.panics_expected += 1;
                        return Ok(Step::Dead);
                    }
                    let m = format!("panic: {}", short(&name));
                    return self.violate(s, "panic", &m);
                }
                if self.feat == Feat::Sym && !info.features.is_empty() {
                    let caller = self.fn_info(&f.name);
                    for ft in &info.features {
                        if caller.features.contains(ft) {
                            continue;
                        }
                        // every CPU with a later vector extension reports SSE3 too
                        let ft = if ft == "sse3" { "ssse3" } else { ft.as_str() };
                        let t = match s.features.iter().find(|x| x.0 == *ft) {
                            Some(x) => x.1,
                            None => {
                                return inc(format!("CPU feature {} not declared", ft));
                            }
                        };
                        let n = self.ctx.not(t);
                        let mut bad = s.clone();
                        if self.assume(&mut bad, n)? {
                            let m = format!(
                                "{} needs CPU feature {} but is reached without it",
                                short(&name),
                                ft
                            );
                            return self.violate(&bad, "feature", &m);
                        }
                    }
                }
                if !self.p.m.defs.contains_key(&name) {
                    return inc(format!("external function {}", name));
                }
                if s.frames.len() > 400 {
                    return inc("call depth");
                }
                let g = self.func(&name)?;
                let mut regs = vec![None; g.nregs];
                for (i, (r, _, byval)) in g.params.iter().enumerate() {
                    if i >= av.len() {
                        return inc("argument count");
                    }
                    if byval.is_some() {
                        return inc("byval parameter");
                    }
                    regs[*r as usize] = Some(av[i].1.clone());
                }
                s.frames.push(Frame {
                    f: g,
                    block: 0,
                    idx: 0,
                    regs: Rc::new(regs),
                    allocas: vec![],
                    ret_dst: dst,
                    normal: *normal,
                });
                Ok(Step::Cont)
            }
        }
    }

    fn fn_info(&mut self, name: &str) -> Rc<FnInfo> {
        if let Some(i) = self.attr_cache.get(name) {
            return i.clone();
        }
        let t = self.p.m.fn_attr_text(name);
        let noreturn = t.split(|c: char| c.is_whitespace()).any(|w| w == "noreturn");
        let mut features = vec![];
        if let Some(i) = t.find("\"target-features\"=\"") {
            let r = &t[i + "\"target-features\"=\"".len()..];
            if let Some(e) = r.find('"') {
                for x in r[..e].split(',') {
                    if let Some(x) = x.strip_prefix('+') {
                        if !matches!(x, "fxsr" | "sse" | "sse2" | "x87" | "cx8" | "mmx") {
                            features.push(x.to_string());
                        }
                    }
                }
            }
        }
        let i = Rc::new(FnInfo { noreturn, features });
        self.attr_cache.insert(name.to_string(), i.clone());
        i
    }

    fn sel(&mut self, c: T, x: &Val, y: &Val) -> R<Val> {
        if let Some(v) = self.ctx.cval(c) {
            return Ok(if v == 1 { x.clone() } else { y.clone() });
        }
        match (x, y) {
            (Val::U, Val::U) => Ok(Val::U),
            (Val::S(a), Val::U) => {
                let u = self.fresh_undef(self.ctx.w(*a));
                Ok(Val::S(self.ctx.ite(c, *a, u)))
            }
            (Val::U, Val::S(b)) => {
                let u = self.fresh_undef(self.ctx.w(*b));
                Ok(Val::S(self.ctx.ite(c, u, *b)))
            }
            _ => match self.merge_val(c, x, y) {
                Some(v) => Ok(v),
                None => inc("select shapes"),
            },
        }
    }

    fn freeze(&mut self, ty: &Ty, v: &Val) -> R<Val> {
        Ok(match (ty, v) {
            (Ty::Vec(_, t), Val::V(vs)) | (Ty::Arr(_, t), Val::V(vs)) => {
                let mut o = vec![];
                for x in vs.iter() {
                    o.push(self.freeze(t, x)?);
                }
                Val::V(Rc::new(o))
            }
            (Ty::Int(w), Val::U) if *w <= 128 => Val::S(self.fresh_undef(*w)),
            (Ty::Ptr, Val::U) => Val::S(self.fresh_undef(64)),
            (_, Val::U) => return inc("freeze"),
            _ => v.clone(),
        })
    }

    // ---------------------------------------------------------------- symbolic addresses

    /// Object and offset term for a symbolic address, with the bounds established by the solver.
    fn sym_base(&mut self, s: &State, a: T, n: u64, write: bool) -> R<(u32, Rc<Obj>, T)> {
        let x = match s.alive.first() {
            Some(&x) => x,
            None => return inc("symbolic address on a path of unknown feasibility"),
        };
        let v = self.ctx.val(x, a) as u64;
        let (id, o) = match self.obj(s, v) {
            Some(x) => x,
            None => return self.violate(s, "oob", "access through an invalid pointer"),
        };
        let b = self.ctx.c(o.base as u128, 64);
        let off = self.ctx.sub(a, b);
        self.stats.mem_checks += 1;
        if n > o.size {
            return self.violate(s, "oob", "access larger than the object");
        }
        let lim = self.ctx.c((o.size - n + 1) as u128, 64);
        let inb = self.ctx.ult(off, lim);
        if self.cv(s, inb) != Some(1) {
            let bad = self.ctx.not(inb);
            let mut st = s.clone();
            if self.assume(&mut st, bad)? {
                let m = format!(
                    "out-of-bounds {} of {} ({} bytes) at a data-dependent offset",
                    if write { "write" } else { "read" },
                    o.name,
                    o.size
                );
                return self.violate(&st, "oob", &m);
            }
        }
        if write && !o.writable {
            return self.violate(s, "oob", "write to a constant");
        }
        Ok((id, o, off))
    }

    fn load_sym(&mut self, s: &mut State, a: T, ty: &Ty, al: u64) -> R<Result<Val, Step>> {
        let mut leaves = vec![];
        if self.ctx.const_leaves(a, &mut leaves) {
            // every leaf that is feasible must be valid
            let mut acc: Option<Val> = None;
            for v in leaves {
                let k = self.ctx.c(v, 64);
                let e = self.ctx.eq(a, k);
                let valid = match self.obj(s, v as u64) {
                    Some((_, o)) => {
                        let off = (v as u64).wrapping_sub(o.base);
                        off <= o.size && ty.store_size() <= o.size - off
                    }
                    None => false,
                };
                if !valid {
                    let mut st = s.clone();
                    if !self.assume(&mut st, e)? {
                        continue;
                    }
                    self.read_cells(&st, v as u64, ty.store_size(), al)?;
                }
                let cs = self.read_cells(s, v as u64, ty.store_size(), 1)?;
                let x = self.cells_val(ty, &cs)?;
                acc = Some(match acc {
                    None => x,
                    Some(y) => self.sel(e, &x, &y)?,
                });
            }
            return match acc {
                Some(v) => Ok(Ok(v)),
                None => inc("no feasible address"),
            };
        }
        let n = ty.store_size();
        let w = match ty {
            Ty::Int(w) if *w <= 128 => *w,
            Ty::Ptr => 64,
            _ => return Ok(Err(self.concretise(s, a, "load address")?)),
        };
        let (_, o, off) = self.sym_base(s, a, n, false)?;
        let cnt = o.size - n + 1;
        if cnt > 8192 {
            return Ok(Err(self.concretise(s, a, "load address")?));
        }
        let mut bits = 1;
        while (1u64 << bits) < cnt {
            bits += 1;
        }
        let idx = self.ctx.extract(off, 0, bits);
        let allc = o.data.iter().all(|c| c.t != UNDEF && self.ctx.cval(c.t).is_some());
        if allc {
            let mut tb = vec![];
            for k in 0..(1usize << bits) {
                if (k as u64) < cnt {
                    let t = self.cells_term(&o.data[k..k + n as usize]);
                    tb.push(self.ctx.cval(t).unwrap() & mask(w));
                } else {
                    tb.push(0);
                }
            }
            return Ok(Ok(Val::S(self.ctx.lookup(tb, idx, w))));
        }
        // ite chain over offsets that respect the known low bits
        let mut acc = None;
        let mut step = 1u64;
        while step < 64 {
            let k = step.trailing_zeros() + 1;
            let low = self.ctx.extract(off, 0, k);
            if self.ctx.cval(low) == Some(0) {
                step *= 2;
            } else {
                break;
            }
        }
        if cnt / step > 1024 {
            return Ok(Err(self.concretise(s, a, "load address")?));
        }
        let hi = self.ctx.umax(off).min((cnt - 1) as u128) as u64;
        let lo = self.ctx.umin(off) as u64 / step * step;
        let mut k = lo;
        while k <= hi {
            let cs = &o.data[k as usize..(k + n) as usize].to_vec();
            let v = self.cells_val(ty, cs)?;
            acc = Some(match acc {
                None => v,
                Some(y) => {
                    let kt = self.ctx.c(k as u128, 64);
                    let e = self.ctx.eq(off, kt);
                    self.sel(e, &v, &y)?
                }
            });
            k += step;
        }
        Ok(Ok(acc.unwrap()))
    }

    fn store_sym(&mut self, s: &mut State, a: T, ty: &Ty, v: &Val, al: u64) -> R<Option<Step>> {
        let mut leaves = vec![];
        let mut cs = vec![];
        self.val_cells(ty, v, &mut cs)?;
        let n = cs.len() as u64;
        if self.ctx.const_leaves(a, &mut leaves) && leaves.len() <= 64 {
            for x in leaves {
                let k = self.ctx.c(x, 64);
                let e = self.ctx.eq(a, k);
                let mut st = s.clone();
                if !self.assume(&mut st, e)? {
                    continue;
                }
                self.access(&st, x as u64, n, true, al)?;
                let old = self.read_cells(s, x as u64, n, 1)?;
                let mut new = vec![];
                for i in 0..cs.len() {
                    new.push(self.cond_cell(e, cs[i], old[i]));
                }
                self.write_cells(s, x as u64, &new, 1)?;
            }
            return Ok(None);
        }
        let (id, o, off) = self.sym_base(s, a, n, true)?;
        let cnt = o.size - n + 1;
        if cnt > 1024 {
            return Ok(Some(self.concretise(s, a, "store address")?));
        }
        let hi = self.ctx.umax(off).min((cnt - 1) as u128) as u64;
        let lo = self.ctx.umin(off) as u64;
        let mut data = o.data.clone();
        for k in lo..=hi {
            let kt = self.ctx.c(k as u128, 64);
            let e = self.ctx.eq(off, kt);
            if self.ctx.cval(e) == Some(0) {
                continue;
            }
            for i in 0..cs.len() {
                let j = k as usize + i;
                data[j] = self.cond_cell(e, cs[i], data[j]);
            }
        }
        let mut no = (*o).clone();
        no.data = data;
        s.objs.insert(id, Rc::new(no));
        Ok(None)
    }
    fn cond_cell(&mut self, c: T, x: Cell, y: Cell) -> Cell {
        if x == y {
            return x;
        }
        if x.t == UNDEF && y.t == UNDEF {
            return UC;
        }
        let a = self.cells_term(&[x]);
        let b = self.cells_term(&[y]);
        Cell { t: self.ctx.ite(c, a, b), b: 0 }
    }

    // ---------------------------------------------------------------- builtins

    fn done(&mut self, s: &mut State, dst: Option<u32>, v: Option<Val>, normal: Option<u32>) -> R<Option<Step>> {
        if let Some(v) = v {
            self.setr(s, dst, v);
        }
        match normal {
            Some(b) => {
                self.goto(s, b)?;
                Ok(Some(Step::Arrived))
            }
            None => {
                let k = s.frames.len() - 1;
                s.frames[k].idx += 1;
                Ok(Some(Step::Cont))
            }
        }
    }

    fn builtin(
        &mut self,
        s: &mut State,
        name: &str,
        rty: &Ty,
        av: &[(Ty, Val)],
        dst: Option<u32>,
        normal: Option<u32>,
    ) -> R<Option<Step>> {
        // concrete scalar argument, splitting the state if needed
        macro_rules! carg {
            ($i:expr, $what:expr) => {
                match &av[$i].1 {
                    Val::S(t) => match self.cv(s, *t) {
                        Some(v) => v as u64,
                        None => {
                            if s.ct {
                                self.ct_value(s, *t, "memory operand depends on the contents")?;
                            }
                            return Ok(Some(self.concretise(s, *t, $what)?));
                        }
                    },
                    _ => return inc(format!("argument of {}", name)),
                }
            };
        }
        macro_rules! targ {
            ($i:expr) => {
                match &av[$i].1 {
                    Val::S(t) => *t,
                    Val::U => return inc(format!("undefined argument of {}", name)),
                    _ => return inc(format!("argument of {}", name)),
                }
            };
        }
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(s, n, rty, av, dst, normal);
        }
        if let Some(n) = name.strip_prefix("vp_") {
            match n {
                "arg" => {
                    let i = carg!(0, "arg") as usize;
                    let v = *self.args.get(i).unwrap_or(&0);
                    let t = self.ctx.c(v as u128, 64);
                    return self.done(s, dst, Some(Val::S(t)), normal);
                }
                "alloc" => {
                    let n = carg!(0, "size");
                    let a = self.alloc(s, n, 1, "harness buffer", true);
                    let t = self.ctx.c(a as u128, 64);
                    return self.done(s, dst, Some(Val::S(t)), normal);
                }
                "sym" => {
                    let p = carg!(0, "ptr");
                    let n = carg!(1, "len");
                    let mut cs = vec![];
                    for _ in 0..n {
                        let k = s.inputs.len();
                        // one variable per input position, shared by all paths
                        let t = match &self.fixed {
                            Some(f) => {
                                let b = f.get(k).copied().unwrap_or(0);
                                self.ctx.c(b as u128, 8)
                            }
                            None => self.input_var(k),
                        };
                        s.inputs.push(t);
                        cs.push(Cell { t, b: 0 });
                    }
                    self.write_cells(s, p, &cs, 1)?;
                    return self.done(s, dst, None, normal);
                }
                "assume" => {
                    let c = targ!(0);
                    self.stats.assumes += 1;
                    if !self.assume(s, c)? {
                        return Ok(Some(Step::Dead));
                    }
                    return self.done(s, dst, None, normal);
                }
                "check" => {
                    let c = match &av[0].1 {
                        Val::S(t) => *t,
                        _ => {
                            return self.violate(s, "undef", "checked condition is uninitialised")
                        }
                    };
                    let id = carg!(1, "id");
                    self.stats.checks += 1;
                    let one = self.ctx.bool(true);
                    self.prove(s, &[(c, one)], &format!("check {} failed", id))?;
                    return self.done(s, dst, None, normal);
                }
                "check_eq" => {
                    let a = carg!(0, "ptr");
                    let b = carg!(1, "ptr");
                    let n = carg!(2, "len");
                    let id = carg!(3, "id");
                    self.stats.checks += 1;
                    self.stats.check_bytes += n;
                    let x = self.read_cells(s, a, n, 1)?;
                    let y = self.read_cells(s, b, n, 1)?;
                    let mut pairs = vec![];
                    for i in 0..n as usize {
                        if x[i].t == UNDEF || y[i].t == UNDEF {
                            return self.violate(
                                s,
                                "undef",
                                &format!("check {}: byte {} is uninitialised", id, i),
                            );
                        }
                        let p = self.cells_term(&[x[i]]);
                        let q = self.cells_term(&[y[i]]);
                        pairs.push((p, q));
                    }
                    self.prove(s, &pairs, &format!("check {} failed: values differ", id))?;
                    return self.done(s, dst, None, normal);
                }
                "expect_panic" => {
                    s.expect_panic = carg!(0, "flag") != 0;
                    return self.done(s, dst, None, normal);
                }
                "ct" => {
                    s.ct = carg!(0, "flag") != 0;
                    return self.done(s, dst, None, normal);
                }
                "out" => {
                    let p = carg!(0, "ptr");
                    let n = carg!(1, "len");
                    let cs = self.read_cells(s, p, n, 1)?;
                    let mut o = String::new();
                    for c in cs {
                        let v = if c.t == UNDEF {
                            None
                        } else {
                            let t = self.cells_term(&[c]);
                            self.ctx.cval(t)
                        };
                        match v {
                            Some(v) => o.push_str(&format!("{:02x}", v)),
                            None => o.push_str("??"),
                        }
                    }
                    self.outs.push(o);
                    return self.done(s, dst, None, normal);
                }
                "unsupported" => return inc("the harness cannot judge this case"),
                "reach" => {
                    let id = carg!(0, "id") as u32;
                    s.reached.insert(id);
                    return self.done(s, dst, None, normal);
                }
                "feature" => {
                    let p = carg!(0, "ptr");
                    let n = carg!(1, "len");
                    let c = targ!(2);
                    let cs = self.read_cells(s, p, n, 1)?;
                    let mut nm = String::new();
                    for x in cs {
                        let t = self.cells_term(&[x]);
                        nm.push(self.ctx.cval(t).unwrap_or(63) as u8 as char);
                    }
                    s.features.push((nm, c));
                    return self.done(s, dst, None, normal);
                }
                _ => {}
            }
        }
        // allocator
        let al = if name.contains("_7___rustc") || name.contains("7___rustc") {
            name.rsplit("___").next().unwrap_or("")
        } else {
            name
        };
        match al {
            "rust_alloc" | "rdl_alloc" | "rust_alloc_zeroed" | "rdl_alloc_zeroed" | "__rust_alloc"
            | "__rust_alloc_zeroed" => {
                let n = carg!(0, "allocation size");
                let a = carg!(1, "alignment");
                let p = self.alloc(s, n, a, "heap object", true);
                if al.contains("zeroed") {
                    let z = self.ctx.c(0, 8);
                    self.write_cells(s, p, &vec![Cell { t: z, b: 0 }; n as usize], 1)?;
                }
                let t = self.ctx.c(p as u128, 64);
                return self.done(s, dst, Some(Val::S(t)), normal);
            }
            "malloc" | "calloc" => {
                let mut n = carg!(0, "allocation size");
                if al == "calloc" {
                    n *= carg!(1, "allocation size");
                }
                let p = self.alloc(s, n, 16, "heap object", true);
                if al == "calloc" {
                    let z = self.ctx.c(0, 8);
                    self.write_cells(s, p, &vec![Cell { t: z, b: 0 }; n as usize], 1)?;
                }
                let t = self.ctx.c(p as u128, 64);
                return self.done(s, dst, Some(Val::S(t)), normal);
            }
            "rust_dealloc" | "rdl_dealloc" | "free" | "__rust_dealloc" => {
                let p = carg!(0, "pointer");
                if p != 0 {
                    self.free(s, p)?;
                }
                return self.done(s, dst, None, normal);
            }
            "rust_realloc" | "rdl_realloc" | "__rust_realloc" => {
                let p = carg!(0, "pointer");
                let old = carg!(1, "size");
                let a = carg!(2, "alignment");
                let n = carg!(3, "size");
                let q = self.realloc(s, p, old, n, a)?;
                let t = self.ctx.c(q as u128, 64);
                return self.done(s, dst, Some(Val::S(t)), normal);
            }
            "rust_no_alloc_shim_is_unstable_v2" | "rust_no_alloc_shim_is_unstable" => {
                return self.done(s, dst, None, normal);
            }
            _ => {}
        }
        match name {
            "memcpy" | "memmove" => {
                let n = carg!(2, "copy length");
                let d = carg!(0, "copy destination");
                let q = carg!(1, "copy source");
                self.copy(s, d, q, n)?;
                let t = self.ctx.c(d as u128, 64);
                self.done(s, dst, Some(Val::S(t)), normal)
            }
            "memset" => {
                let n = carg!(2, "set length");
                let d = carg!(0, "set destination");
                let v = targ!(1);
                let v = self.ctx.trunc(v, 8);
                self.write_cells(s, d, &vec![Cell { t: v, b: 0 }; n as usize], 1)?;
                let t = self.ctx.c(d as u128, 64);
                self.done(s, dst, Some(Val::S(t)), normal)
            }
            "memcmp" | "bcmp" => {
                let n = carg!(2, "compare length");
                let a = carg!(0, "compare pointer");
                let b = carg!(1, "compare pointer");
                let x = self.read_cells(s, a, n, 1)?;
                let y = self.read_cells(s, b, n, 1)?;
                let mut xs = vec![];
                let mut ys = vec![];
                for i in 0..n as usize {
                    xs.push(self.cells_term(&[x[i]]));
                    ys.push(self.cells_term(&[y[i]]));
                }
                if s.ct {
                    // the library comparison may stop at the first difference
                    let mut e = self.ctx.bool(true);
                    for i in 0..n as usize {
                        let q = self.ctx.eq(xs[i], ys[i]);
                        e = self.ctx.and(e, q);
                    }
                    self.ct_value(s, e, "library comparison of the contents (may stop early)")?;
                }
                let w = 32;
                let (z, one, neg) =
                    (self.ctx.c(0, w), self.ctx.c(1, w), self.ctx.c(u128::MAX, w));
                let mut r = z;
                for i in (0..n as usize).rev() {
                    let e = self.ctx.eq(xs[i], ys[i]);
                    let d = if name == "bcmp" {
                        one
                    } else {
                        let l = self.ctx.ult(xs[i], ys[i]);
                        self.ctx.ite(l, neg, one)
                    };
                    r = self.ctx.ite(e, r, d);
                }
                self.done(s, dst, Some(Val::S(r)), normal)
            }
            // the environment's randomness (seeds of hash maps); any value will do
            "getrandom" => {
                let d = carg!(0, "buffer");
                let n = carg!(1, "length");
                let z = self.ctx.c(0x5a, 8);
                self.write_cells(s, d, &vec![Cell { t: z, b: 0 }; n as usize], 1)?;
                let t = self.ctx.c(n as u128, 64);
                self.done(s, dst, Some(Val::S(t)), normal)
            }
            "strlen" => inc("strlen"),
            _ => Ok(None),
        }
    }

    fn input_var(&mut self, k: usize) -> T {
        while self.in_vars.len() <= k {
            let n = self.in_vars.len();
            let t = self.ctx.var(format!("in{}", n), 8, false);
            self.in_vars.push(t);
        }
        self.in_vars[k]
    }

    fn free(&mut self, s: &mut State, p: u64) -> R<()> {
        let id = (p >> 32) as u32;
        match s.objs.get(&id) {
            Some(o) if o.heap && o.base == p => {
                s.objs.remove(&id);
                Ok(())
            }
            _ => self.violate(s, "oob", "invalid free"),
        }
    }
    fn realloc(&mut self, s: &mut State, p: u64, old: u64, n: u64, a: u64) -> R<u64> {
        let q = self.alloc(s, n, a, "heap object", true);
        let m = old.min(n);
        let cs = self.read_cells(s, p, m, 1)?;
        self.write_cells(s, q, &cs, 1)?;
        self.free(s, p)?;
        Ok(q)
    }
    fn copy(&mut self, s: &mut State, d: u64, q: u64, n: u64) -> R<()> {
        let cs = self.read_cells(s, q, n, 1)?;
        self.write_cells(s, d, &cs, 1)
    }

    fn prove(&mut self, s: &State, pairs: &[(T, T)], what: &str) -> R<()> {
        if self.safety_only {
            return Ok(());
        }
        if pairs.iter().all(|(a, b)| a == b) {
            self.stats.checks_syntactic += 1;
            return Ok(());
        }
        if s.alive.is_empty() {
            match self.sv.check(&self.ctx, &s.pc, None, self.query_ms, true) {
                Res::Unsat => return Ok(()),
                Res::Sat(_) => {}
                Res::Unknown(e) => return inc(format!("path feasibility: {}", e)),
            }
        }
        match self.sweep.prove(&mut self.ctx, &mut self.sv, &s.pc, &s.alive, pairs, self.query_ms) {
            Verdict::Proved => Ok(()),
            Verdict::Refuted(m) => {
                let v = self.mk_violation(s, "check", what, m);
                Err(Stop::Violation(Box::new(v)))
            }
            Verdict::Unknown(e) => inc(e),
        }
    }

    fn intrinsic(
        &mut self,
        s: &mut State,
        n: &str,
        rty: &Ty,
        av: &[(Ty, Val)],
        dst: Option<u32>,
        normal: Option<u32>,
    ) -> R<Option<Step>> {
        let starts = |p: &str| n.starts_with(p);
        macro_rules! carg {
            ($i:expr, $what:expr) => {
                match &av[$i].1 {
                    Val::S(t) => match self.cv(s, *t) {
                        Some(v) => v as u64,
                        None => {
                            if s.ct {
                                self.ct_value(s, *t, "memory operand depends on the contents")?;
                            }
                            return Ok(Some(self.concretise(s, *t, $what)?));
                        }
                    },
                    _ => return inc(format!("argument of {}", n)),
                }
            };
        }
        if starts("lifetime.start") || starts("lifetime.end") {
            if let Val::S(t) = &av[av.len() - 1].1 {
                if let Some(a) = self.cv(s, *t) {
                    let id = ((a as u64) >> 32) as u32;
                    if let Some(o) = s.objs.get_mut(&id) {
                        if !o.heap {
                            let o = Rc::make_mut(o);
                            for c in o.data.iter_mut() {
                                *c = UC;
                            }
                        }
                    }
                }
            }
            return self.done(s, dst, None, normal);
        }
        if starts("assume")
            || starts("experimental.noalias")
            || starts("dbg.")
            || starts("donothing")
            || starts("sideeffect")
            || starts("prefetch")
            || starts("stackrestore")
            || starts("invariant.end")
            || starts("x86.sse2.pause")
        {
            return self.done(s, dst, None, normal);
        }
        if starts("trap") || starts("ubsantrap") || starts("debugtrap") {
            if s.expect_panic {
                self.stats.panics_expected += 1;
                return Ok(Some(Step::Dead));
            }
            return self.violate(s, "panic", "abort (trap)");
        }
        if starts("memcpy") || starts("memmove") {
            let len = carg!(2, "copy length");
            if len == 0 {
                return self.done(s, dst, None, normal);
            }
            let d = carg!(0, "copy destination");
            let q = carg!(1, "copy source");
            self.copy(s, d, q, len)?;
            return self.done(s, dst, None, normal);
        }
        if starts("memset") {
            let len = carg!(2, "set length");
            if len == 0 {
                return self.done(s, dst, None, normal);
            }
            let d = carg!(0, "set destination");
            let c = match &av[1].1 {
                Val::S(t) => Cell { t: *t, b: 0 },
                _ => UC,
            };
            self.write_cells(s, d, &vec![c; len as usize], 1)?;
            return self.done(s, dst, None, normal);
        }
        if starts("is.constant") {
            let t = self.ctx.bool(false);
            return self.done(s, dst, Some(Val::S(t)), normal);
        }
        if starts("expect") || starts("launder") || starts("strip") || starts("threadlocal.address") || starts("ssa.copy") {
            let v = av[0].1.clone();
            return self.done(s, dst, Some(v), normal);
        }
        if starts("objectsize") {
            let t = self.ctx.c(u128::MAX, 64);
            return self.done(s, dst, Some(Val::S(t)), normal);
        }
        if starts("stacksave") {
            let t = self.ctx.c(0, 64);
            return self.done(s, dst, Some(Val::S(t)), normal);
        }
        let v = self.pure_intrinsic(n, rty, av)?;
        self.done(s, dst, Some(v), normal)
    }

    fn pure_intrinsic(&mut self, n: &str, rty: &Ty, av: &[(Ty, Val)]) -> R<Val> {
        let base = n.split('.').next().unwrap_or("");
        let a = |i: usize| av[i].1.clone();
        match base {
            "umin" | "umax" | "smin" | "smax" => {
                let b = base.to_string();
                return self.lanes2(&a(0), &a(1), &mut |c, x, y| {
                    let l = if b.starts_with('u') { c.ult(x, y) } else { c.slt(x, y) };
                    if b.ends_with("min") {
                        c.ite(l, x, y)
                    } else {
                        c.ite(l, y, x)
                    }
                });
            }
            "abs" => {
                return self.lanes1(&a(0), &mut |c, x| {
                    let w = c.w(x);
                    let sgn = c.extract(x, w - 1, 1);
                    let z = c.c(0, w);
                    let neg = c.sub(z, x);
                    c.ite(sgn, neg, x)
                });
            }
            "bswap" => {
                return self.lanes1(&a(0), &mut |c, x| {
                    let w = c.w(x);
                    let p: Vec<T> = (0..w / 8).rev().map(|i| c.extract(x, i * 8, 8)).collect();
                    c.concat(&p)
                });
            }
            "bitreverse" => {
                return self.lanes1(&a(0), &mut |c, x| {
                    let w = c.w(x);
                    let p: Vec<T> = (0..w).rev().map(|i| c.extract(x, i, 1)).collect();
                    c.concat(&p)
                });
            }
            "ctpop" => {
                return self.lanes1(&a(0), &mut |c, x| {
                    let w = c.w(x);
                    if let Some(v) = c.cval(x) {
                        return c.c(v.count_ones() as u128, w);
                    }
                    let mut acc = c.c(0, w);
                    for i in 0..w {
                        let b = c.extract(x, i, 1);
                        let z = c.zext(b, w);
                        acc = c.add(acc, z);
                    }
                    acc
                });
            }
            "cttz" | "ctlz" => {
                let tz = base == "cttz";
                return self.lanes1(&a(0), &mut |c, x| {
                    let w = c.w(x);
                    if let Some(v) = c.cval(x) {
                        let r = if v == 0 {
                            w
                        } else if tz {
                            v.trailing_zeros()
                        } else {
                            v.leading_zeros() - (128 - w)
                        };
                        return c.c(r as u128, w);
                    }
                    let mut acc = c.c(w as u128, w);
                    for i in 0..w {
                        // last assignment wins: scan from far to near
                        let pos = if tz { w - 1 - i } else { i };
                        let b = c.extract(x, pos, 1);
                        let r = if tz { pos } else { w - 1 - pos };
                        let rt = c.c(r as u128, w);
                        acc = c.ite(b, rt, acc);
                    }
                    acc
                });
            }
            "fshl" | "fshr" => {
                let k = a(2);
                let left = base == "fshl";
                let do_one = |c: &mut Ctx, hi: T, lo: T, k: T| -> Option<T> {
                    let w = c.w(hi);
                    let kv = c.cval(k)?;
                    let kv = (kv % w as u128) as u32;
                    if left {
                        Some(c.fshl_c(hi, lo, kv))
                    } else if kv == 0 {
                        Some(lo)
                    } else {
                        Some(c.fshl_c(hi, lo, w - kv))
                    }
                };
                match (a(0), a(1), k) {
                    (Val::S(h), Val::S(l), Val::S(k)) => {
                        if let Some(t) = do_one(&mut self.ctx, h, l, k) {
                            return Ok(Val::S(t));
                        }
                        // symbolic amount
                        let c = &mut self.ctx;
                        let w = c.w(h);
                        let wt = c.c(w as u128, w);
                        let km = c.urem(k, wt);
                        let one = c.c(1, w);
                        let r = if left {
                            let x = c.shl(h, km);
                            let ik = c.sub(wt, km);
                            let ik = c.sub(ik, one);
                            let y0 = c.lshr(l, one);
                            let y = c.lshr(y0, ik);
                            c.or(x, y)
                        } else {
                            let y = c.lshr(l, km);
                            let ik = c.sub(wt, km);
                            let ik = c.sub(ik, one);
                            let x0 = c.shl(h, one);
                            let x = c.shl(x0, ik);
                            c.or(x, y)
                        };
                        return Ok(Val::S(r));
                    }
                    (Val::V(h), Val::V(l), Val::V(k)) => {
                        let mut v = vec![];
                        for i in 0..h.len() {
                            match (&h[i], &l[i], &k[i]) {
                                (Val::S(h), Val::S(l), Val::S(k)) => {
                                    match do_one(&mut self.ctx, *h, *l, *k) {
                                        Some(t) => v.push(Val::S(t)),
                                        None => return inc("vector funnel shift"),
                                    }
                                }
                                _ => v.push(Val::U),
                            }
                        }
                        return Ok(Val::V(Rc::new(v)));
                    }
                    (Val::U, ..) | (_, Val::U, _) => return Ok(Val::U),
                    _ => return inc("funnel shift"),
                }
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let (x, y) = match (a(0), a(1)) {
                    (Val::S(x), Val::S(y)) => (x, y),
                    (x @ Val::V(_), y @ Val::V(_)) if n.contains(".sat") => {
                        let nn = n.to_string();
                        let mut out = vec![];
                        if let (Val::V(xs), Val::V(ys)) = (&x, &y) {
                            for (p, q) in xs.iter().zip(ys.iter()) {
                                let e = self.pure_intrinsic(
                                    &nn,
                                    rty,
                                    &[(Ty::Other, p.clone()), (Ty::Other, q.clone())],
                                )?;
                                out.push(e);
                            }
                        }
                        return Ok(Val::V(Rc::new(out)));
                    }
                    _ => return Ok(self.undef_of(rty)),
                };
                let c = &mut self.ctx;
                let w = c.w(x);
                let (r, ov) = match base {
                    "uadd" => {
                        let r = c.add(x, y);
                        let ov = if w < 128 {
                            let (p, q) = (c.zext(x, w + 1), c.zext(y, w + 1));
                            let t = c.add(p, q);
                            c.extract(t, w, 1)
                        } else {
                            c.ult(r, x)
                        };
                        (r, ov)
                    }
                    "usub" => (c.sub(x, y), c.ult(x, y)),
                    "umul" => {
                        let r = c.mul(x, y);
                        if w > 64 {
                            return inc("umul width");
                        }
                        let (p, q) = (c.zext(x, 2 * w), c.zext(y, 2 * w));
                        let t = c.mul(p, q);
                        let h = c.extract(t, w, w);
                        let z = c.c(0, w);
                        (r, c.ne(h, z))
                    }
                    _ => {
                        let r = match base {
                            "sadd" => c.add(x, y),
                            "ssub" => c.sub(x, y),
                            _ => c.mul(x, y),
                        };
                        let ww = if base == "smul" { 2 * w } else { w + 1 };
                        if ww > 128 {
                            return inc("signed overflow width");
                        }
                        let (p, q) = (c.sext(x, ww), c.sext(y, ww));
                        let t = match base {
                            "sadd" => c.add(p, q),
                            "ssub" => c.sub(p, q),
                            _ => c.mul(p, q),
                        };
                        let e = c.sext(r, ww);
                        (r, c.ne(t, e))
                    }
                };
                if n.contains(".sat") {
                    let c = &mut self.ctx;
                    let satv = match base {
                        "uadd" => c.c(u128::MAX, w),
                        "usub" => c.c(0, w),
                        _ => {
                            let sgn = c.extract(x, w - 1, 1);
                            let mn = c.c(1u128 << (w - 1), w);
                            let mx = c.c((1u128 << (w - 1)) - 1, w);
                            c.ite(sgn, mn, mx)
                        }
                    };
                    return Ok(Val::S(self.ctx.ite(ov, satv, r)));
                }
                return Ok(Val::V(Rc::new(vec![Val::S(r), Val::S(ov)])));
            }
            "ucmp" | "scmp" => {
                let w = match rty {
                    Ty::Int(w) => *w,
                    _ => return inc("ucmp type"),
                };
                let u = base == "ucmp";
                return self.lanes2(&a(0), &a(1), &mut |c, x, y| {
                    let l = if u { c.ult(x, y) } else { c.slt(x, y) };
                    let g = if u { c.ult(y, x) } else { c.slt(y, x) };
                    let (m1, z, p1) = (c.c(u128::MAX, w), c.c(0, w), c.c(1, w));
                    let r = c.ite(g, p1, z);
                    c.ite(l, m1, r)
                });
            }
            "ptrmask" => return self.bin("and", &a(0), &a(1)),
            "vector" => {
                if let Some(k) = n.strip_prefix("vector.reduce.") {
                    let k = k.split('.').next().unwrap_or("").to_string();
                    if let Val::V(vs) = a(0) {
                        let mut acc = vs[0].clone();
                        for x in &vs[1..] {
                            acc = match k.as_str() {
                                "add" | "and" | "or" | "xor" | "mul" => self.bin(&k, &acc, x)?,
                                "umin" | "umax" | "smin" | "smax" => self.pure_intrinsic(
                                    &k,
                                    rty,
                                    &[(Ty::Other, acc), (Ty::Other, x.clone())],
                                )?,
                                _ => return inc(format!("intrinsic {}", n)),
                            };
                        }
                        return Ok(acc);
                    }
                }
            }
            "x86" => return self.x86(n, av),
            _ => {}
        }
        inc(format!("intrinsic llvm.{}", n))
    }

    fn vts(&self, v: &Val) -> R<Vec<T>> {
        match v {
            Val::V(vs) => {
                let mut o = vec![];
                for x in vs.iter() {
                    match x {
                        Val::S(t) => o.push(*t),
                        _ => return inc("undefined vector lane"),
                    }
                }
                Ok(o)
            }
            _ => inc("vector expected"),
        }
    }

    fn x86(&mut self, n: &str, av: &[(Ty, Val)]) -> R<Val> {
        let pack = |v: Vec<T>| Val::V(Rc::new(v.into_iter().map(Val::S).collect()));
        match n {
            "x86.sha256rnds2" => {
                // lanes are numbered from the least significant: a = {H, G, D, C}, b = {F, E, B, A};
                // only the two low lanes of the third operand are used
                let a = self.vts(&av[0].1)?;
                let b = self.vts(&av[1].1)?;
                let wk: Vec<T> = match &av[2].1 {
                    Val::V(v) => {
                        let mut o = vec![];
                        for x in v.iter().take(2) {
                            match x {
                                Val::S(t) => o.push(*t),
                                _ => return inc("undefined sha256rnds2 lane"),
                            }
                        }
                        o
                    }
                    _ => return inc("sha256rnds2"),
                };
                let c = &mut self.ctx;
                let (mut aa, mut bb, mut cc, mut dd) = (b[3], b[2], a[3], a[2]);
                let (mut ee, mut ff, mut gg, mut hh) = (b[1], b[0], a[1], a[0]);
                let ror = |c: &mut Ctx, x: T, k: u32| c.fshl_c(x, x, 32 - k);
                for i in 0..2 {
                    let t = c.and(ee, ff);
                    let ne = c.not(ee);
                    let u = c.and(ne, gg);
                    let ch = c.xor(t, u);
                    let (r6, r11, r25) = (ror(c, ee, 6), ror(c, ee, 11), ror(c, ee, 25));
                    let s1 = c.xor(r6, r11);
                    let s1 = c.xor(s1, r25);
                    let (p, q, r) = (c.and(aa, bb), c.and(aa, cc), c.and(bb, cc));
                    let maj = c.xor(p, q);
                    let maj = c.xor(maj, r);
                    let (r2, r13, r22) = (ror(c, aa, 2), ror(c, aa, 13), ror(c, aa, 22));
                    let s0 = c.xor(r2, r13);
                    let s0 = c.xor(s0, r22);
                    let t1 = c.add(ch, s1);
                    let t1 = c.add(t1, wk[i]);
                    let t1 = c.add(t1, hh);
                    let t2 = c.add(maj, s0);
                    let na = c.add(t1, t2);
                    let ne2 = c.add(t1, dd);
                    hh = gg;
                    gg = ff;
                    ff = ee;
                    ee = ne2;
                    dd = cc;
                    cc = bb;
                    bb = aa;
                    aa = na;
                }
                let _ = (hh, gg, dd, cc);
                Ok(pack(vec![ff, ee, bb, aa]))
            }
            "x86.sha256msg1" => {
                let a = self.vts(&av[0].1)?;
                let b = self.vts(&av[1].1)?;
                let w = [a[0], a[1], a[2], a[3], b[0]];
                let mut o = vec![];
                for i in 0..4 {
                    let s = self.sha_sigma(w[i + 1], 7, 18, 3);
                    o.push(self.ctx.add(w[i], s));
                }
                Ok(pack(o))
            }
            "x86.sha256msg2" => {
                let a = self.vts(&av[0].1)?;
                let b = self.vts(&av[1].1)?;
                let s14 = self.sha_sigma(b[2], 17, 19, 10);
                let s15 = self.sha_sigma(b[3], 17, 19, 10);
                let w16 = self.ctx.add(a[0], s14);
                let w17 = self.ctx.add(a[1], s15);
                let s16 = self.sha_sigma(w16, 17, 19, 10);
                let s17 = self.sha_sigma(w17, 17, 19, 10);
                let w18 = self.ctx.add(a[2], s16);
                let w19 = self.ctx.add(a[3], s17);
                Ok(pack(vec![w16, w17, w18, w19]))
            }
            "x86.ssse3.pshuf.b.128" => {
                let a = self.vts(&av[0].1)?;
                let m = self.vts(&av[1].1)?;
                let z = self.ctx.c(0, 8);
                let mut o = vec![];
                for k in m {
                    match self.ctx.cval(k) {
                        Some(v) => o.push(if v & 0x80 != 0 { z } else { a[(v & 15) as usize] }),
                        None => return inc("symbolic shuffle mask"),
                    }
                }
                Ok(pack(o))
            }
            _ => inc(format!("intrinsic llvm.{}", n)),
        }
    }
    fn sha_sigma(&mut self, x: T, r1: u32, r2: u32, sh: u32) -> T {
        let c = &mut self.ctx;
        let a = c.fshl_c(x, x, 32 - r1);
        let b = c.fshl_c(x, x, 32 - r2);
        let d = c.lshr_c(x, sh);
        let t = c.xor(a, b);
        c.xor(t, d)
    }

    pub fn chf_functions(&self) -> BTreeMap<String, (u32, u32)> {
        // source functions (including inlined ones) whose code was executed symbolically
        let mut m: BTreeMap<String, (u32, u32)> = BTreeMap::new();
        for d in &self.dbg_seen {
            for (n, f, l) in self.p.m.dbg_chain(*d) {
                if n.starts_with("chf::") || n.starts_with("{impl#") && f.contains("/repo/src") {
                    let e = m.entry(n).or_insert((l, l));
                    e.0 = e.0.min(l);
                    e.1 = e.1.max(l);
                }
            }
        }
        m
    }
}

/// Is this process about to run out of memory? (looked at every half second)
fn memory_short() -> bool {
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
    static LAST: AtomicU64 = AtomicU64::new(0);
    static SHORT: AtomicBool = AtomicBool::new(false);
    static T0: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    let now = T0.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64 / 500 + 1;
    if LAST.swap(now, Relaxed) != now {
        let field = |f: &str, k: &str| -> u64 {
            std::fs::read_to_string(f)
                .unwrap_or_default()
                .lines()
                .find(|l| l.starts_with(k))
                .and_then(|l| l.split_whitespace().nth(1)?.parse().ok())
                .unwrap_or(0)
        };
        let rss = field("/proc/self/status", "VmRSS:");
        let left = field("/proc/meminfo", "MemAvailable:");
        SHORT.store(rss > 22 << 20 || left != 0 && left < 2 << 20 && rss > 8 << 20, Relaxed);
    }
    SHORT.load(Relaxed)
}

/// Readable form of a v0-mangled name: the path identifiers in order.
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut ids: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' && !(i > 0 && b[i - 1].is_ascii_digit()) {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[st..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if l > 0 && l < 100 && j + l <= b.len() && !b[j].is_ascii_digit() {
                ids.push(n[j..j + l].to_string());
                i = j + l;
            }
            continue;
        }
        if b[i] == b's' || b[i] == b'B' || b[i] == b'K' {
            // disambiguator / back reference: skip to '_'
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 14 {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    ids.join("::")
}
