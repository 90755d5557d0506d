//! SMT-LIB2 back end: one long-lived solver process per worker, one push/pop scope per query.

use crate::term::{Ctx, Op, T};
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat(HashMap<u32, u128>),
    Unsat,
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub secs: f64,
    pub cross: u64,
    pub cross_disagree: u64,
    pub maxq: f64,
    pub cert_queries: u64,
    pub cert_lemmas: u64,
    pub cert_cached: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.queries += o.queries;
        self.unsat += o.unsat;
        self.sat += o.sat;
        self.unknown += o.unknown;
        self.cached += o.cached;
        self.secs += o.secs;
        self.cross += o.cross;
        self.cross_disagree += o.cross_disagree;
        self.maxq = self.maxq.max(o.maxq);
        self.cert_queries += o.cert_queries;
        self.cert_lemmas += o.cert_lemmas;
        self.cert_cached += o.cert_cached;
    }
}

pub struct Solver {
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    prog: String,
    pub stats: Stats,
    /// canonical query text -> unsat?
    pub cache: HashMap<u128, bool>,
    /// re-check each distinct unsat lemma with a second solver
    pub cross: bool,
    /// certified rewrites known to all workers
    pub shared: Option<Shared>,
    /// no query may run beyond this
    pub deadline: Option<Instant>,
}

fn z3_path() -> String {
    for p in ["/usr/local/bin/z3-new", "/usr/bin/z3-new", "/opt/veriftools/bin/z3-new"] {
        if std::path::Path::new(p).exists() {
            return p.to_string();
        }
    }
    if Command::new("z3-new").arg("--version").stdout(Stdio::null()).status().is_ok() {
        return "z3-new".into();
    }
    "z3".into()
}

impl Solver {
    pub fn new(cross: bool) -> Solver {
        Solver { child: None, prog: z3_path(), stats: Stats::default(), cache: HashMap::new(), cross, shared: None, deadline: None }
    }

    fn start(&mut self) -> Result<(), String> {
        if self.child.is_some() {
            return Ok(());
        }
        let mut c = Command::new(&self.prog)
            .arg("-in")
            .arg("-smt2")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("{}: {}", self.prog, e))?;
        let mut i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        i.write_all(b"(set-option :produce-models true)\n(set-option :print-success false)\n")
            .map_err(|e| e.to_string())?;
        self.child = Some((c, i, o));
        Ok(())
    }

    fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }

    /// Is the conjunction of `asserts` (1-bit terms) satisfiable? Terms in `cut` are treated as
    /// free variables. Returns a model over the real variables when `cut` is empty.
    pub fn check(
        &mut self,
        ctx: &Ctx,
        asserts: &[T],
        cut: Option<&HashSet<T>>,
        timeout_ms: u64,
        want_model: bool,
    ) -> Res {
        let (body, leaves, names) = print_query(ctx, asserts, cut);
        let key = text_hash(&body);
        match self.cache.get(&key) {
            Some(true) => {
                self.stats.cached += 1;
                return Res::Unsat;
            }
            // satisfiable before; good enough where no model is wanted
            Some(false) if !want_model => {
                self.stats.cached += 1;
                return Res::Sat(HashMap::new());
            }
            _ => {}
        }
        if let Ok(d) = std::env::var("SYMEX_DUMP_LAST") {
            let _ = std::fs::write(d, &body);
        }
        let t0 = Instant::now();
        let timeout_ms = match self.deadline {
            Some(d) => timeout_ms.min(d.saturating_duration_since(t0).as_millis() as u64 + 500),
            None => timeout_ms,
        };
        let r = self.run(&body, &leaves, &names, timeout_ms, want_model);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.secs += dt;
        if dt > self.stats.maxq {
            self.stats.maxq = dt;
            if dt > 5.0 {
                if let Ok(d) = std::env::var("SYMEX_DUMP_SLOW") {
                    let _ = std::fs::write(d, &body);
                }
            }
        }
        self.stats.queries += 1;
        match &r {
            Res::Sat(_) => {
                self.stats.sat += 1;
                self.cache.insert(key, false);
            }
            Res::Unsat => {
                self.stats.unsat += 1;
                if self.cross {
                    self.cross_check(&body);
                }
                self.cache.insert(key, true);
            }
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        r
    }

    /// Proves every recorded simplification `raw == simplified` valid. Each is stated over the
    /// smallest neighbourhood that random evaluation does not refute (so that identical rewrites
    /// share one query); if the solver refutes that, the neighbourhood grows up to the full terms.
    pub fn certify(&mut self, ctx: &Ctx, obls: &[(T, T)]) -> Result<(), String> {
        let mut left: Vec<((T, T), Nbh)> =
            obls.iter().map(|&(a, b)| ((a, b), Nbh::new(ctx, a, b))).collect();
        while !left.is_empty() {
            let mut batch: Vec<((T, T), Nbh, String)> = vec![];
            let mut inbatch: HashMap<String, usize> = HashMap::new();
            let mut dup: Vec<((T, T), Nbh, usize)> = vec![];
            let mut again = vec![];
            for ((a, b), mut nb) in left {
                if !nb.settle(ctx) {
                    let (t, _, n) = print_terms(ctx, &[a, b], None, "");
                    return Err(format!(
                        "simplification not certified: {} vs {} in\n{}",
                        n[0],
                        n[1],
                        &t[..t.len().min(2000)]
                    ));
                }
                let (mut txt, _, n) = print_terms(ctx, &[a, b], Some(&nb.cut), "");
                let _ = write!(txt, "(assert (not (= {} {})))\n", n[0], n[1]);
                if self.cache.get(&text_hash(&txt)) == Some(&true) || self.shared_has(&txt) {
                    self.stats.cert_cached += 1;
                    continue;
                }
                if self.cache.get(&text_hash(&txt)) == Some(&false) || self.shared_has(&format!("-{}", txt)) {
                    // known to be too small a neighbourhood
                    nb.grow(ctx);
                    again.push(((a, b), nb));
                    continue;
                }
                if let Some(&i) = inbatch.get(&txt) {
                    dup.push(((a, b), nb, i));
                    continue;
                }
                inbatch.insert(txt.clone(), batch.len());
                batch.push(((a, b), nb, txt));
            }
            let mut ok = vec![false; batch.len()];
            let mut groups: Vec<(usize, usize)> = vec![];
            let mut i = 0;
            while i < batch.len() {
                let j = (i + 24).min(batch.len());
                groups.push((i, j));
                i = j;
            }
            while let Some((i, j)) = groups.pop() {
                if stopped() || self.deadline.map_or(false, |d| Instant::now() > d) {
                    return Err("time limit while certifying".into());
                }
                let mut q = String::new();
                let mut dis = String::new();
                for k in i..j {
                    let ((a, b), nb, _) = &batch[k];
                    let (t, _, n) =
                        print_terms(ctx, &[*a, *b], Some(&nb.cut), &format!("o{}_", k - i));
                    q.push_str(&t);
                    let _ = write!(dis, " (not (= {} {}))", n[0], n[1]);
                }
                let _ = write!(q, "(assert (or false{}))\n", dis);
                if let Ok(d) = std::env::var("SYMEX_DUMP_LAST") {
                    let _ = std::fs::write(d, &q);
                }
                let t0 = Instant::now();
                let r = self.run(&q, &[], &[], if j - i == 1 { 20000 } else { 2000 }, false);
                self.stats.secs += t0.elapsed().as_secs_f64();
                self.stats.queries += 1;
                if t0.elapsed().as_secs_f64() > 0.5 && std::env::var("SYMEX_TRACE").is_ok() {
                    eprintln!("slow certification {}..{} {:.2} s {:?}", i, j, t0.elapsed().as_secs_f64(), r);
                    for k in i..j {
                        eprintln!("   {:?} == {:?}: {} bytes", ctx.op(batch[k].0 .0), ctx.op(batch[k].0 .1), batch[k].2.len());
                        if j - i == 1 { eprintln!("{}", &batch[k].2); }
                    }
                }
                match r {
                    Res::Unsat => {
                        self.stats.unsat += 1;
                        self.stats.cert_queries += 1;
                        for k in i..j {
                            ok[k] = true;
                            self.stats.cert_lemmas += 1;
                            self.shared_put(&batch[k].2);
                            self.cache.insert(text_hash(&batch[k].2), true);
                            if self.cross {
                                let t = batch[k].2.clone();
                                self.cross_check(&t);
                            }
                        }
                    }
                    r => {
                        if matches!(r, Res::Sat(_)) {
                            self.stats.sat += 1;
                        } else {
                            self.stats.unknown += 1;
                            if j - i == 1 && std::env::var("SYMEX_TRACE").is_ok() {
                                let ((a, b), _, t) = &batch[i];
                                let _ = t;
                                eprintln!("hard rewrite");
                                let mut l = vec![*a, *b];
                                for _ in 0..5 {
                                    let mut m = vec![];
                                    for x in l {
                                        eprintln!("  {} : {} = {:?}", x, ctx.w(x), ctx.op(x));
                                        m.extend(ctx.children(x));
                                    }
                                    m.sort();
                                    m.dedup();
                                    l = m;
                                }
                            }
                        }
                        if j - i == 1 && matches!(r, Res::Sat(_)) {
                            self.shared_put(&format!("-{}", batch[i].2));
                            self.cache.insert(text_hash(&batch[i].2), false);
                        }
                        if j - i > 1 {
                            let m = (i + j) / 2;
                            groups.push((i, m));
                            groups.push((m, j));
                        }
                    }
                }
            }
            left = again;
            for (p, mut nb, i) in dup {
                if !ok[i] {
                    nb.grow(ctx);
                    left.push((p, nb));
                }
            }
            for (k, (p, mut nb, _)) in batch.into_iter().enumerate() {
                if !ok[k] {
                    nb.grow(ctx);
                    left.push((p, nb));
                }
            }
        }
        Ok(())
    }

    fn shared_has(&self, t: &str) -> bool {
        match &self.shared {
            Some(s) => s.lock().unwrap().contains(&text_hash(t)),
            None => false,
        }
    }
    fn shared_put(&self, t: &str) {
        if let Some(s) = &self.shared {
            s.lock().unwrap().insert(text_hash(t));
        }
    }

    fn cross_check(&mut self, body: &str) {
        // second opinion from cvc5; a disagreement is fatal for the run
        let mut q = String::from("(set-logic QF_BV)\n");
        q.push_str(body);
        q.push_str("(check-sat)\n");
        let out = run_oneshot("cvc5", &["--lang=smt2", "--tlimit=60000"], &q);
        if out.contains("unsat") {
            self.stats.cross += 1;
        } else if out.contains("sat") {
            self.stats.cross_disagree += 1;
        }
    }

    fn run(
        &mut self,
        body: &str,
        leaves: &[(u32, String)],
        names: &[String],
        timeout_ms: u64,
        want_model: bool,
    ) -> Res {
        let _ = names;
        if let Err(e) = self.start() {
            return Res::Unknown(e);
        }
        let mut q = String::with_capacity(body.len() + 200);
        let _ = write!(q, "(reset)\n(set-option :timeout {})\n(set-logic QF_BV)\n", timeout_ms);
        q.push_str(body);
        q.push_str("(check-sat)\n(echo \"@@\")\n");
        let ans = match self.talk(&q, timeout_ms * 2 + 10000) {
            Ok(a) => a,
            Err(e) => {
                self.kill();
                return Res::Unknown(e);
            }
        };
        if ans.iter().any(|l| l.contains("(error")) {
            self.kill();
            return Res::Unknown(format!("solver error: {}", ans.join(" ")));
        }
        let verdict = ans.iter().find(|l| !l.trim().is_empty()).cloned().unwrap_or_default();
        let res = match verdict.trim() {
            "unsat" => Res::Unsat,
            "sat" => {
                let mut m = HashMap::new();
                if want_model && !leaves.is_empty() {
                    let mut ok = true;
                    for ch in leaves.chunks(200) {
                        let mut g = String::from("(get-value (");
                        for (_, n) in ch {
                            g.push_str(n);
                            g.push(' ');
                        }
                        g.push_str("))\n(echo \"@@\")\n");
                        match self.talk(&g, 60000) {
                            Ok(ls) => {
                                let txt = ls.join(" ");
                                for (id, n) in ch {
                                    match find_value(&txt, n) {
                                        Some(v) => {
                                            m.insert(*id, v);
                                        }
                                        None => ok = false,
                                    }
                                }
                            }
                            Err(_) => ok = false,
                        }
                    }
                    if !ok {
                        self.kill();
                        return Res::Unknown("model".into());
                    }
                }
                Res::Sat(m)
            }
            x => Res::Unknown(x.to_string()),
        };
        res
    }

    fn talk(&mut self, q: &str, limit_ms: u64) -> Result<Vec<String>, String> {
        let (c, i, o) = self.child.as_mut().unwrap();
        let _armed = watchdog::arm(c.id() as i32, limit_ms);
        i.write_all(q.as_bytes()).map_err(|e| e.to_string())?;
        i.flush().map_err(|e| e.to_string())?;
        let mut v = vec![];
        loop {
            let mut l = String::new();
            let n = o.read_line(&mut l).map_err(|e| e.to_string())?;
            if n == 0 {
                return Err("solver died".into());
            }
            if l.trim() == "@@" {
                return Ok(v);
            }
            v.push(l.trim_end().to_string());
        }
    }
}

/// Set when a violation has been confirmed: nothing that is still running matters.
pub static STOP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn stopped() -> bool { STOP.load(std::sync::atomic::Ordering::Relaxed) }

/// Solvers sometimes overrun their own time limit; this ends them from outside.
mod watchdog {
    use std::collections::HashMap;
    use std::sync::{Mutex, Once, OnceLock};
    use std::time::{Duration, Instant};
    extern "C" {
        fn kill(pid: i32, sig: i32) -> i32;
    }
    fn table() -> &'static Mutex<HashMap<i32, Instant>> {
        static T: OnceLock<Mutex<HashMap<i32, Instant>>> = OnceLock::new();
        T.get_or_init(Default::default)
    }
    pub struct Armed(i32);
    impl Drop for Armed {
        fn drop(&mut self) {
            table().lock().unwrap().remove(&self.0);
        }
    }
    pub fn arm(pid: i32, ms: u64) -> Armed {
        static S: Once = Once::new();
        S.call_once(|| {
            std::thread::spawn(|| loop {
                std::thread::sleep(Duration::from_millis(200));
                let now = Instant::now();
                let mut t = table().lock().unwrap();
                t.retain(|pid, d| {
                    if *d < now || super::stopped() {
                        unsafe { kill(*pid, 9) };
                        return false;
                    }
                    true
                });
            });
        });
        table().lock().unwrap().insert(pid, Instant::now() + Duration::from_millis(ms));
        Armed(pid)
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.kill();
    }
}

pub fn run_oneshot(prog: &str, args: &[&str], input: &str) -> String {
    let c = Command::new(prog)
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    let mut c = match c {
        Ok(c) => c,
        Err(_) => return String::new(),
    };
    let mut si = c.stdin.take().unwrap();
    let inp = input.to_string();
    let h = std::thread::spawn(move || {
        let _ = si.write_all(inp.as_bytes());
    });
    let out = c.wait_with_output();
    let _ = h.join();
    match out {
        Ok(o) => String::from_utf8_lossy(&o.stdout).to_string(),
        Err(_) => String::new(),
    }
}

fn find_value(txt: &str, name: &str) -> Option<u128> {
    let pat = format!("({} ", name);
    let i = txt.find(&pat)? + pat.len();
    let r = txt[i..].trim_start();
    if let Some(h) = r.strip_prefix("#x") {
        let e = h.find(')')?;
        return u128::from_str_radix(h[..e].trim(), 16).ok();
    }
    if let Some(h) = r.strip_prefix("#b") {
        let e = h.find(')')?;
        return u128::from_str_radix(h[..e].trim(), 2).ok();
    }
    if let Some(h) = r.strip_prefix("(_ bv") {
        let e = h.find(' ')?;
        return h[..e].parse().ok();
    }
    None
}

pub fn bvc(v: u128, w: u32) -> String {
    if w % 4 == 0 {
        format!("#x{:0>1$x}", v, (w / 4) as usize)
    } else {
        format!("#b{:0>1$b}", v, w as usize)
    }
}

/// A neighbourhood of two terms: what is opened up, and the frontier left as free variables.
struct Nbh {
    a: T,
    b: T,
    open: HashSet<T>,
    cut: HashSet<T>,
    full: bool,
    steps: u32,
}

impl Nbh {
    fn new(ctx: &Ctx, a: T, b: T) -> Nbh {
        let mut open = HashSet::new();
        // where one side is made of the other, the other need not be looked into
        let uses = |x: T, y: T| {
            let mut seen = HashSet::new();
            let mut st = vec![(x, 0)];
            while let Some((t, d)) = st.pop() {
                if t == y {
                    return true;
                }
                if d < 8 && t > y && seen.len() < 200 && seen.insert(t) && (t == x || !matches!(ctx.op(t), Op::Sum(..))) {
                    st.extend(ctx.children(t).into_iter().map(|c| (c, d + 1)));
                }
            }
            false
        };
        if !uses(b, a) {
            open.insert(a);
        }
        if !uses(a, b) {
            open.insert(b);
        }
        Nbh { a, b, open, cut: HashSet::new(), full: false, steps: 0 }
    }

    fn leaves(&self, ctx: &Ctx, r: T) -> HashSet<T> {
        let mut out = HashSet::new();
        let mut seen = HashSet::new();
        let mut st = vec![r];
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            if self.open.contains(&t) {
                st.extend(ctx.children(t));
            } else if !matches!(ctx.op(t), Op::Var(_) | Op::Const(_)) {
                out.insert(t);
            }
        }
        out
    }

    fn grow(&mut self, ctx: &Ctx) {
        let (la, lb) = (self.leaves(ctx, self.a), self.leaves(ctx, self.b));
        if la.is_empty() && lb.is_empty() {
            self.full = true;
        }
        self.steps += 1;
        // a leaf built directly from another leaf hides how the two are related: open it first
        let linked = la
            .union(&lb)
            .filter(|t| {
                ctx.children(**t).iter().any(|c| {
                    la.contains(c)
                        || lb.contains(c)
                        || ctx.children(*c).iter().any(|d| la.contains(d) || lb.contains(d))
                })
            })
            .copied()
            .collect::<Vec<T>>();
        // plain structure before long sums, recent terms first
        let order = |t: &T| (ctx.children(*t).len() <= 8, *t);
        let pick = linked.iter().copied().max_by_key(order);
        let other = la.symmetric_difference(&lb).copied().max_by_key(order);
        // two sums: first flatten the addends they do not share
        let sums = matches!(ctx.op(self.a), Op::Sum(..)) && matches!(ctx.op(self.b), Op::Sum(..));
        let flat = if sums {
            let direct = |r: T| {
                let mut o = HashSet::new();
                let mut st = vec![r];
                while let Some(t) = st.pop() {
                    if self.open.contains(&t) && matches!(ctx.op(t), Op::Sum(..)) {
                        st.extend(ctx.children(t));
                    } else if matches!(ctx.op(t), Op::Sum(..)) {
                        o.insert(t);
                    }
                }
                o
            };
            direct(self.a).symmetric_difference(&direct(self.b)).copied().max()
        } else {
            None
        };
        let best = match (pick, other) {
            _ if flat.is_some() => flat,
            (Some(x), Some(y)) if !order(&x).0 && order(&y).0 => Some(y),
            (Some(x), _) => Some(x),
            (None, y) => y,
        };
        match best {
            Some(t) if self.steps < 24 => {
                self.open.insert(t);
            }
            _ => {
                self.open.extend(la);
                self.open.extend(lb);
            }
        }
        if self.steps == 40 && std::env::var("SYMEX_TRACE").is_ok() {
            let (t, _, n) = print_terms(ctx, &[self.a, self.b], Some(&self.cut), "");
            eprintln!("deep rewrite {:?}\n{}", n, &t[t.len().saturating_sub(3000)..]);
        }
    }

    /// Opens nodes until evaluation no longer tells the two apart; false if it still does with
    /// everything open.
    fn settle(&mut self, ctx: &Ctx) -> bool {
        loop {
            if self.full {
                return false;
            }
            self.cut = self.leaves(ctx, self.a);
            self.cut.extend(self.leaves(ctx, self.b));
            if !differs(ctx, self.a, self.b, &self.cut) {
                return true;
            }
            self.grow(ctx);
        }
    }
}

/// Some assignment to the cut tells `a` and `b` apart (so this cut cannot prove them equal).
fn differs(ctx: &Ctx, a: T, b: T, cut: &HashSet<T>) -> bool {
    let order = cone(ctx, &[a, b], Some(cut));
    let mut rng = 0x243F6A8885A308D3u64;
    for s in 0..6 {
        let mut v: HashMap<T, u128> = HashMap::new();
        for &t in &order {
            let x = if cut.contains(&t) || matches!(ctx.op(t), Op::Var(_)) {
                let m = crate::term::mask(ctx.w(t));
                let mut r = 0u128;
                for _ in 0..2 {
                    rng ^= rng << 13;
                    rng ^= rng >> 7;
                    rng ^= rng << 17;
                    r = r << 64 | rng as u128;
                }
                m & match s {
                    0 => u128::MAX,
                    1 => 0,
                    2 => r & 3,
                    _ => r,
                }
            } else {
                ctx.eval_with(t, &|c: &T| v[c], 0)
            };
            v.insert(t, x);
        }
        if v[&a] != v[&b] {
            return true;
        }
    }
    false
}

pub type Shared = std::sync::Arc<std::sync::Mutex<HashSet<u128>>>;

fn text_hash(t: &str) -> u128 {
    // two independent 64-bit multiplicative hashes
    let (mut a, mut b) = (0xcbf29ce484222325u64, 0x9E3779B97F4A7C15u64);
    for x in t.bytes() {
        a = (a ^ x as u64).wrapping_mul(0x100000001b3);
        b = (b.rotate_left(5) ^ x as u64).wrapping_mul(0xff51afd7ed558ccd);
    }
    (a as u128) << 64 | b as u128
}

/// Topological order of the cone of `roots`, stopping at `cut`.
pub fn cone(ctx: &Ctx, roots: &[T], cut: Option<&HashSet<T>>) -> Vec<T> {
    let mut seen: HashSet<T> = HashSet::new();
    let mut out = vec![];
    let mut st: Vec<(T, bool)> = roots.iter().rev().map(|t| (*t, false)).collect();
    while let Some((t, done)) = st.pop() {
        if done {
            out.push(t);
            continue;
        }
        if !seen.insert(t) {
            continue;
        }
        st.push((t, true));
        if cut.map_or(false, |c| c.contains(&t)) {
            continue;
        }
        for c in ctx.children(t).into_iter().rev() {
            if !seen.contains(&c) {
                st.push((c, false));
            }
        }
    }
    out
}

/// Canonically named SMT text (so that structurally identical queries are textually identical).
fn print_query(
    ctx: &Ctx,
    asserts: &[T],
    cut: Option<&HashSet<T>>,
) -> (String, Vec<(u32, String)>, Vec<String>) {
    let (mut decl, leaves, names) = print_terms(ctx, asserts, cut, "");
    for n in &names {
        let _ = write!(decl, "(assert (= {} #b1))\n", n);
    }
    (decl, leaves, vec![])
}

/// Definitions of `roots` (names returned in order), with `pre` in front of every name.
fn print_terms(
    ctx: &Ctx,
    asserts: &[T],
    cut: Option<&HashSet<T>>,
    pre: &str,
) -> (String, Vec<(u32, String)>, Vec<String>) {
    let order = cone(ctx, asserts, cut);
    let mut name: HashMap<T, String> = HashMap::new();
    let mut decl = String::new();
    let mut body = String::new();
    let mut leaves = vec![];
    let mut nl = 0;
    let mut nd = 0;
    for t in order {
        let w = ctx.w(t);
        let is_cut = cut.map_or(false, |c| c.contains(&t));
        if let (Op::Const(v), false) = (ctx.op(t), is_cut) {
            name.insert(t, bvc(*v, w));
            continue;
        }
        if is_cut || matches!(ctx.op(t), Op::Var(_)) {
            let n = format!("{}x{}", pre, nl);
            nl += 1;
            let _ = write!(decl, "(declare-const {} (_ BitVec {}))\n", n, w);
            if let Op::Var(id) = ctx.op(t) {
                leaves.push((*id, n.clone()));
            }
            name.insert(t, n);
            continue;
        }
        let n = format!("{}d{}", pre, nd);
        nd += 1;
        let g = |x: &T| name[x].as_str();
        let e = match ctx.op(t) {
            Op::Const(_) | Op::Var(_) => unreachable!(),
            Op::Sum(c, ts) => {
                let mut parts = vec![];
                if *c != 0 {
                    parts.push(bvc(*c, w));
                }
                for (x, k) in ts.iter() {
                    if *k == 1 {
                        parts.push(g(x).to_string());
                    } else {
                        parts.push(format!("(bvmul {} {})", bvc(*k, w), g(x)));
                    }
                }
                fold("bvadd", &parts)
            }
            Op::And(ts) => fold("bvand", &ts.iter().map(|x| g(x).to_string()).collect::<Vec<_>>()),
            Op::Or(ts) => fold("bvor", &ts.iter().map(|x| g(x).to_string()).collect::<Vec<_>>()),
            Op::Xor(ts) => fold("bvxor", &ts.iter().map(|x| g(x).to_string()).collect::<Vec<_>>()),
            Op::Mul(a, b) => format!("(bvmul {} {})", g(a), g(b)),
            Op::UDiv(a, b) => format!("(bvudiv {} {})", g(a), g(b)),
            Op::URem(a, b) => format!("(bvurem {} {})", g(a), g(b)),
            Op::SDiv(a, b) => format!("(bvsdiv {} {})", g(a), g(b)),
            Op::SRem(a, b) => format!("(bvsrem {} {})", g(a), g(b)),
            Op::Shl(a, b) => format!("(bvshl {} {})", g(a), g(b)),
            Op::LShr(a, b) => format!("(bvlshr {} {})", g(a), g(b)),
            Op::AShr(a, b) => format!("(bvashr {} {})", g(a), g(b)),
            Op::Concat(ts) => {
                // SMT-LIB concat is high first
                let v: Vec<String> = ts.iter().rev().map(|x| g(x).to_string()).collect();
                fold("concat", &v)
            }
            Op::Extract(a, lo) => format!("((_ extract {} {}) {})", lo + w - 1, lo, g(a)),
            Op::Eq(a, b) => format!("(ite (= {} {}) #b1 #b0)", g(a), g(b)),
            Op::Ult(a, b) => format!("(ite (bvult {} {}) #b1 #b0)", g(a), g(b)),
            Op::Slt(a, b) => format!("(ite (bvslt {} {}) #b1 #b0)", g(a), g(b)),
            Op::Ite(c, a, b) => format!("(ite (= {} #b1) {} {})", g(c), g(a), g(b)),
            Op::Lookup(tb, i) => {
                let iw = ctx.w(*i);
                let tb = &ctx.tables[*tb as usize];
                let mut s = bvc(tb[tb.len() - 1], w);
                for k in (0..tb.len() - 1).rev() {
                    s = format!("(ite (= {} {}) {} {})", g(i), bvc(k as u128, iw), bvc(tb[k], w), s);
                }
                s
            }
        };
        let _ = write!(body, "(define-fun {} () (_ BitVec {}) {})\n", n, w, e);
        name.insert(t, n);
    }
    decl.push_str(&body);
    (decl, leaves, asserts.iter().map(|a| name[a].clone()).collect())
}

fn fold(op: &str, v: &[String]) -> String {
    let mut s = v[0].clone();
    for x in &v[1..] {
        s = format!("({} {} {})", op, s, x);
    }
    s
}
