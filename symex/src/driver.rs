//! Runs the cases of a property on all cores, replays what fails, writes the evidence.

use crate::exec::{Engine, Feat, Program, Stop, Violation};
use crate::ir::Module;
use crate::plan::{plan, Case, CONFIGS};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub struct Built {
    pub ll: PathBuf,
    pub so: PathBuf,
}

/// Compiles the harness against /repo's current tree.
pub fn build(cfgs: &BTreeSet<&'static str>) -> Result<BTreeMap<&'static str, Built>, String> {
    let r = root();
    let mut hs = vec![];
    for c in cfgs {
        let (name, prof, feats) = *CONFIGS.iter().find(|x| x.0 == *c).ok_or("no such build")?;
        let r = r.clone();
        hs.push(std::thread::spawn(move || -> Result<(&'static str, Built), String> {
            let dir = r.join(".build").join(name);
            let started = std::time::SystemTime::now();
            let o = Command::new("bash")
                .arg(r.join("tools/mkir.sh"))
                .arg(&dir)
                .arg(prof)
                .arg(feats)
                .output()
                .map_err(|e| e.to_string())?;
            if !o.status.success() {
                return Err(format!(
                    "build {} failed:\n{}",
                    name,
                    String::from_utf8_lossy(&o.stderr)
                ));
            }
            let deps = dir.join(prof).join("deps");
            let b = Built { ll: deps.join("harness.ll"), so: deps.join("libharness.so") };
            for f in [&b.ll, &b.so] {
                let m = std::fs::metadata(f).and_then(|m| m.modified()).map_err(|e| format!("{}: {}", f.display(), e))?;
                if m + Duration::from_secs(2) < started {
                    return Err(format!("{} was not rebuilt", f.display()));
                }
            }
            Ok((name, b))
        }));
    }
    let mut m = BTreeMap::new();
    for h in hs {
        let (n, b) = h.join().map_err(|_| "build thread")??;
        m.insert(n, b);
    }
    Ok(m)
}

pub fn build_runner() -> Result<PathBuf, String> {
    let r = root();
    let dir = r.join(".build");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let out = dir.join("runner");
    let tmp = dir.join(format!("runner.{}", std::process::id()));
    let o = Command::new("gcc")
        .args(["-O1", "-g", "-rdynamic", "-o"])
        .arg(&tmp)
        .arg(r.join("replay/runner.c"))
        .arg("-ldl")
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).into());
    }
    std::fs::rename(&tmp, &out).map_err(|e| e.to_string())?;
    Ok(out)
}

fn feat_name(f: Feat) -> &'static str {
    match f {
        Feat::On => "on",
        Feat::Off => "off",
        Feat::Sym => "sym",
    }
}

pub fn case_name(c: &Case) -> String {
    let mut s = format!("{}:{}({})", c.cfg, c.entry, c.args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    if c.feat != Feat::On {
        let _ = write!(s, " cpu={}", feat_name(c.feat));
    }
    s
}

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

// ------------------------------------------------------------------------------------------------
// native replay

struct Native<'a> {
    runner: &'a Path,
    so: &'a Path,
    entry: &'a str,
    args: &'a [u64],
    feat: Feat,
    feats: Option<[u64; 3]>,
}

fn host_has_sha() -> bool {
    std::fs::read_to_string("/proc/cpuinfo").map_or(false, |s| {
        s.lines().find(|l| l.starts_with("flags")).map_or(false, |l| l.split(' ').any(|w| w == "sha_ni"))
    })
}

/// Where the standard library keeps the detected CPU features, relative to the load address.
fn cache_offset(so: &Path) -> Option<u64> {
    let o = Command::new("nm").arg("-C").arg(so).output().ok()?;
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    let l = t.lines().find(|l| l.ends_with("std_detect::detect::cache::CACHE"))?;
    u64::from_str_radix(l.split(' ').next()?, 16).ok()
}

impl Native<'_> {
    fn poke(&self) -> Option<String> {
        let w: [u64; 3] = match (self.feat, self.feats) {
            (_, Some(f)) => f,
            (Feat::Off, _) => [1 << 63; 3],
            _ => return Some(String::new()),
        };
        let off = cache_offset(self.so)?;
        Some((0..3).map(|i| format!("{:x}={:x}", off + 8 * i as u64, w[i])).collect::<Vec<_>>().join(","))
    }

    /// (exit status, output)
    fn run(&self, input: &[u8], mode: &str, wrap: &[&str], mark: bool) -> Option<(i32, String)> {
        use std::os::unix::process::ExitStatusExt;
        static N: AtomicUsize = AtomicUsize::new(0);
        let dir = root().join(".build");
        // same length of name every time: addresses below must not depend on it
        let f = dir.join(format!("in.{:08}.{:06}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::write(&f, input).ok()?;
        let mut c = if wrap.is_empty() {
            Command::new(self.runner)
        } else {
            let mut c = Command::new(wrap[0]);
            c.args(&wrap[1..]).arg(self.runner);
            c
        };
        c.arg(self.so).arg(self.entry).arg(&f).arg(mode);
        c.args(self.args.iter().map(|x| x.to_string()));
        c.env("RUST_BACKTRACE", "0");
        let p = self.poke()?;
        if !p.is_empty() {
            c.env("VP_POKE", p);
        }
        if mark {
            c.env("VP_MARK", "1");
        }
        let o = c.stdin(Stdio::null()).output();
        let _ = std::fs::remove_file(&f);
        let o = o.ok()?;
        let code = o.status.code().unwrap_or_else(|| 128 + o.status.signal().unwrap_or(0));
        let mut t = String::from_utf8_lossy(&o.stdout).to_string();
        t.push_str(&String::from_utf8_lossy(&o.stderr));
        Some((code, t))
    }
}

/// The trace of instruction and data addresses between the two marks.
fn lackey_trace(n: &Native, input: &[u8]) -> Option<Vec<String>> {
    let (_, t) = n.run(input, "m", &["valgrind", "--tool=lackey", "--trace-mem=yes", "--log-fd=2"], true)?;
    let mark = t.lines().find(|l| l.starts_with("marks "))?.to_string();
    let mut w = mark.split(' ').skip(1);
    let (a, b) = (w.next()?.trim().to_string(), w.next()?.trim().to_string());
    let (mut on, mut v) = (false, vec![]);
    for l in t.lines() {
        let x = l.trim_start();
        if x.starts_with("S ") {
            let ad = x[2..].trim().split(',').next().unwrap_or("").trim_start_matches('0').to_string();
            if ad == a {
                on = true;
                continue;
            }
            if ad == b {
                break;
            }
        }
        if on && (l.starts_with("I ") || l.starts_with(" S ") || l.starts_with(" L ") || l.starts_with(" M ")) {
            v.push(l.to_string());
        }
    }
    if v.is_empty() {
        None
    } else {
        Some(v)
    }
}

/// Does the counterexample fail on the compiled library? Some(description) if so; None if it
/// passes; Err if this kind cannot be decided natively.
fn replay_native(n: &Native, v: &Violation) -> Result<Option<String>, String> {
    if n.feat == Feat::On && n.feats.is_none() && !host_has_sha() && n.entry.contains("sha256") {
        return Err("this machine has no SHA extensions".into());
    }
    if n.poke().is_none() {
        return Err("cannot set the CPU features".into());
    }
    if let Some(i2) = &v.inputs2 {
        // two runs that must not be distinguishable
        let (a, b) = match (lackey_trace(n, &v.inputs), lackey_trace(n, i2)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Err("no trace".into()),
        };
        if a == b {
            return Ok(None);
        }
        let k = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
        return Ok(Some(format!(
            "native traces of the two inputs differ: {} and {} events, first difference after {}",
            a.len(),
            b.len(),
            k
        )));
    }
    if v.kind == "feature" {
        // the emulated CPU of valgrind has no SHA extensions: executing one is an illegal instruction
        return match n.run(&v.inputs, "m", &["valgrind", "-q", "--tool=none"], false) {
            Some((13, o)) | Some((132, o)) => Ok(Some(format!("illegal instruction on a CPU without SHA extensions: {}", last(&o)))),
            Some((_, _)) => Err("accelerated code not reached natively".into()),
            None => Err("no replay".into()),
        };
    }
    for mode in ["r", "l"] {
        match n.run(&v.inputs, mode, &[], false) {
            Some((0, _)) => {}
            Some((20, _)) => return Ok(None),
            Some((2, o)) | Some((21, o)) => return Err(o),
            Some((_, o)) => return Ok(Some(last(&o))),
            None => return Err("no replay".into()),
        }
    }
    if v.kind == "check" || v.kind == "panic" || v.kind == "no-panic" {
        if v.undef_dep {
            return Err("may depend on uninitialised memory".into());
        }
        return Ok(None);
    }
    Err("not observable natively".into())
}

fn last(o: &str) -> String {
    let v: Vec<&str> = o
        .lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with("out ") && !l.contains("RUST_BACKTRACE"))
        .collect();
    v.iter().rev().take(4).rev().copied().collect::<Vec<_>>().join(" | ")
}

/// Interprets the compiler's code on the concrete counterexample.
fn replay_ir(e: &mut Engine, c: &Case, v: &Violation) -> Option<String> {
    e.fixed = Some(v.inputs.clone());
    e.fixed_feats = v.feats;
    e.certify = false;
    let r = e.run_case(&c.entry, &c.args, c.feat);
    e.fixed = None;
    e.fixed_feats = None;
    match r {
        Err(Stop::Violation(w)) => Some(format!("{}: {} at {}", w.kind, w.msg, w.loc)),
        _ => None,
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Default)]
struct Tally {
    done: usize,
    syntactic: u64,
    inconclusive: Vec<String>,
    /// stopped by a time limit
    late: Vec<String>,
    /// cases with sizes taken from the code that were not decided in time
    extra_left: usize,
    violations: Vec<(Case, Violation, String)>,
    unconfirmed: Vec<String>,
    known: BTreeSet<String>,
    stats: crate::exec::ExecStats,
    sv: crate::solver::Stats,
    rewrites: u64,
    linear: u64,
    funcs: BTreeMap<String, (u32, u32)>,
    slow: Vec<(f64, String)>,
    validated: u64,
}

pub struct Opts {
    pub id: String,
    pub deep: bool,
    pub seed: u64,
    pub limit: u64,
    pub only: Option<String>,
}

fn known_findings(id: &str) -> Vec<String> {
    // lines "finding: property=<id> case=<case>  <text>"
    let t = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter(|l| l.starts_with("finding:") && l.contains(&format!("property={} ", id)))
        .filter_map(|l| l.split("case=").nth(1).map(|x| x.to_string()))
        .collect()
}

pub fn check(o: Opts) -> i32 {
    let t0 = Instant::now();
    let mut p = match plan(&o.id, o.deep) {
        Some(p) => p,
        None => {
            eprintln!("no plan for {}", o.id);
            return 2;
        }
    };
    if let Some(s) = &o.only {
        p.cases.retain(|c| case_name(c).contains(s.as_str()));
    }
    let cfgs: BTreeSet<&'static str> = p.cases.iter().map(|c| c.cfg).collect();
    let built = match build(&cfgs) {
        Ok(b) => b,
        Err(e) => {
            println!("ERROR {}", e);
            return 2;
        }
    };
    let runner = match build_runner() {
        Ok(r) => r,
        Err(e) => {
            println!("ERROR runner: {}", e);
            return 2;
        }
    };
    // sizes around the numbers the code compares with
    let mut mined = BTreeSet::new();
    for b in built.values() {
        match Module::load(b.ll.to_str().unwrap()) {
            Ok(m) => mined.extend(crate::mine::constants(&m)),
            Err(e) => {
                println!("ERROR {}", e);
                return 2;
            }
        }
    }
    crate::plan::extend(&o.id, &mut p, &mined, &cfgs);
    if let Some(s) = &o.only {
        p.cases.retain(|c| case_name(c).contains(s.as_str()));
    }
    p.cases.sort_by(|a, b| a.extra.cmp(&b.extra).then(b.cost.cmp(&a.cost)));
    let t_build = t0.elapsed().as_secs_f64();
    println!(
        "{} {}: {} cases, builds {:?} ready after {:.1} s",
        o.id,
        if o.deep { "thorough" } else { "quick" },
        p.cases.len(),
        cfgs,
        t_build
    );
    let deadline = Instant::now() + Duration::from_secs(o.limit);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let tally = Mutex::new(Tally::default());
    let shared: crate::solver::Shared = Arc::new(Mutex::new(Default::default()));
    let known = known_findings(&o.id);
    let workers = std::thread::available_parallelism().map_or(8, |x| x.get()).min(16);
    let verbose = std::env::var("VP_VERBOSE").is_ok();
    // cases also run concretely, in the interpreter and natively
    let nval = if o.deep { 64 } else { 16 };
    let every = (p.cases.len() / nval).max(1);
    std::thread::scope(|sc| {
        for _ in 0..workers {
            sc.spawn(|| {
                let mut progs: HashMap<&str, &'static Program> = HashMap::new();
                let mut engines: HashMap<&str, Engine<'static>> = HashMap::new();
                loop {
                    if stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= p.cases.len() {
                        break;
                    }
                    let c = &p.cases[i];
                    if Instant::now() > deadline {
                        let mut t = tally.lock().unwrap();
                        if c.extra {
                            t.extra_left += 1;
                        } else {
                            t.late.push(format!("{}: time limit before start", case_name(c)));
                        }
                        continue;
                    }
                    let b = &built[c.cfg];
                    if !progs.contains_key(c.cfg) {
                        match Module::load(b.ll.to_str().unwrap()) {
                            Ok(m) => {
                                let pr: &'static Program =
                                    Box::leak(Box::new(Program { m, name: c.cfg.into() }));
                                progs.insert(c.cfg, pr);
                                let mut e = Engine::new(pr, o.seed, o.deep);
                                e.sv.shared = Some(shared.clone());
                                engines.insert(c.cfg, e);
                            }
                            Err(e) => {
                                tally.lock().unwrap().inconclusive.push(format!("{}: {}", c.cfg, e));
                                continue;
                            }
                        }
                    }
                    let e = engines.get_mut(c.cfg).unwrap();
                    e.safety_only = c.safety;
                    e.certify = c.certify;
                    e.deadline = deadline;
                    e.sv.deadline = Some(deadline);
                    e.query_ms = if o.deep { 300_000 } else { 90_000 };
                    if verbose {
                        println!("start {}", case_name(c));
                    }
                    let ts = Instant::now();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run_case(&c.entry, &c.args, c.feat)));
                    let r = match r {
                        Ok(r) => r,
                        Err(_) => {
                            // the engine's state is of no use any more
                            tally.lock().unwrap().inconclusive.push(format!("{}: internal error", case_name(c)));
                            engines.remove(c.cfg);
                            progs.remove(c.cfg);
                            continue;
                        }
                    };
                    let dt = ts.elapsed().as_secs_f64();
                    let reached = e.reached.clone();
                    if verbose {
                        println!("{:8.2}s {} {}", dt, case_name(c), if r.is_ok() { "ok" } else { "!" });
                    }
                    let native = Native {
                        runner: &runner,
                        so: &b.so,
                        entry: &c.entry,
                        args: &c.args,
                        feat: c.feat,
                        feats: None,
                    };
                    match r {
                        Ok(()) => {
                            let mut t = tally.lock().unwrap();
                            t.done += 1;
                            t.slow.push((dt, case_name(c)));
                            if let Some(m) = c.reach.iter().find(|m| !reached.contains(m)) {
                                t.inconclusive.push(format!("{}: vacuous, no input reaches mark {}", case_name(c), m));
                            }
                        }
                        Err(Stop::Inconclusive(s)) => {
                            let mut t = tally.lock().unwrap();
                            let late = ["time limit", "memory limit", "timeout", "unknown", "canceled"].iter().any(|x| s.contains(x)) && !s.contains("unknown symbol");
                            if late && c.extra {
                                t.extra_left += 1;
                            } else if late {
                                t.late.push(format!("{}: {}", case_name(c), s));
                            } else {
                                t.inconclusive.push(format!("{}: {}", case_name(c), s));
                            }
                        }
                        Err(Stop::Violation(v)) => {
                            let name = case_name(c);
                            if known.iter().any(|k| k.starts_with(&format!("{} ", name)) || *k == name) {
                                let mut t = tally.lock().unwrap();
                                t.done += 1;
                                t.known.insert(format!("{} {}", name, v.msg));
                                continue;
                            }
                            let n = Native { feats: v.feats, ..native };
                            let how = match replay_native(&n, &v) {
                                Ok(Some(s)) => Some(format!("native: {}", s)),
                                Ok(None) => None,
                                Err(why) => replay_ir(e, c, &v)
                                    .map(|s| format!("concrete run of the compiled code: {} ({})", s, why)),
                            };
                            let mut t = tally.lock().unwrap();
                            match how {
                                Some(h) => {
                                    t.violations.push((c.clone(), *v, h));
                                    stop.store(true, Ordering::SeqCst);
                                    crate::solver::STOP.store(true, Ordering::SeqCst);
                                }
                                None => t.unconfirmed.push(format!(
                                    "{}: {} {} at {} does not reproduce; input {}",
                                    name,
                                    v.kind,
                                    v.msg,
                                    v.loc,
                                    hex(&v.inputs)
                                )),
                            }
                            continue;
                        }
                    }
                    // the interpreter against the machine, on concrete inputs
                    if i % every == 0 && c.feat != Feat::Sym && !(c.feat == Feat::On && !host_has_sha()) {
                        let mut inp = vec![0u8; 8192];
                        let mut x = o.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i as u64 | 1;
                        for b in inp.iter_mut() {
                            x ^= x << 13;
                            x ^= x >> 7;
                            x ^= x << 17;
                            *b = x as u8;
                        }
                        e.certify = false;
                        e.fixed = Some(inp.clone());
                        let r = e.run_case(&c.entry, &c.args, c.feat);
                        e.fixed = None;
                        let outs = e.outs.clone();
                        let nat = Native { feats: None, ..native }.run(&inp, "r", &[], false);
                        let mut t = tally.lock().unwrap();
                        match (r, nat) {
                            (Ok(()), Some((0, txt))) => {
                                let got: Vec<&str> = txt.lines().filter_map(|l| l.strip_prefix("out ")).collect();
                                if got == outs.iter().map(|s| s.as_str()).collect::<Vec<_>>() {
                                    t.validated += 1;
                                } else {
                                    t.inconclusive.push(format!("{}: interpreter and machine disagree: {:?} / {:?}", case_name(c), outs, got));
                                }
                            }
                            (Err(Stop::Inconclusive(s)), Some((20, _))) if s.contains("vacuous") => {}
                            (r, n) => t.inconclusive.push(format!("{}: interpreter {:?}, machine {:?}", case_name(c), r.err(), n)),
                        }
                    }
                }
                let mut t = tally.lock().unwrap();
                for (_, mut e) in engines {
                    e.reset();
                    t.stats.add(&e.stats);
                    t.sv.add(&e.sv.stats);
                    t.rewrites += e.rewrites;
                    t.linear += e.linear;
                    for (k, v) in e.chf_functions() {
                        let f = t.funcs.entry(k).or_insert(v);
                        f.0 = f.0.min(v.0);
                        f.1 = f.1.max(v.1);
                    }
                }
            });
        }
    });
    let mut t = tally.into_inner().unwrap();
    t.syntactic = t.stats.checks_syntactic;
    t.slow.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    for k in &t.known {
        println!("KNOWN-FINDING: property={} {}", o.id, k);
    }
    let mut code = 0;
    let mut first = None;
    for (k, (c, v, how)) in t.violations.iter().enumerate() {
        let f = write_replay(&o, k, c, v, how);
        println!("  {}: {} - {} at {}", case_name(c), v.kind, v.msg, v.loc);
        println!("  input {}", hex(&v.inputs));
        println!("  {}", how);
        println!("VIOLATION property={} replay={}", o.id, f.display());
        first.get_or_insert(f);
        code = 1;
    }
    if t.sv.cross_disagree > 0 {
        t.inconclusive.push(format!("z3 and cvc5 disagree on {} queries", t.sv.cross_disagree));
    }
    // a few cases the solver did not get through are reported, and are not among those explored
    if t.late.len() * 10 > p.cases.len() {
        t.inconclusive.append(&mut t.late.clone());
    }
    if code == 0 {
        for s in t.late.iter().take(12) {
            println!("UNDECIDED {}", &s[..s.len().min(300)]);
        }
    }
    if code == 0 && (!t.inconclusive.is_empty() || !t.unconfirmed.is_empty()) {
        for s in t.inconclusive.iter().chain(t.unconfirmed.iter()).take(12) {
            println!("INCONCLUSIVE {}", &s[..s.len().min(1500)]);
        }
        code = 2;
    }
    println!(
        "{}: {} of {} cases held, {} checks, {} solver queries ({} unsat, {} sat), {:.1} s in the solver, {} rewrites certified by {} queries, {:.1} s",
        o.id,
        t.done,
        p.cases.len(),
        t.stats.checks,
        t.sv.queries,
        t.sv.unsat,
        t.sv.sat,
        t.sv.secs,
        t.rewrites,
        t.sv.cert_queries,
        t0.elapsed().as_secs_f64()
    );
    for (d, n) in t.slow.iter().take(3) {
        println!("  {:.2} s {}", d, n);
    }
    evidence(&o, &p, &t, t0.elapsed().as_secs_f64(), t_build, workers);
    code
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")) }

fn evidence(o: &Opts, p: &crate::plan::Plan, t: &Tally, wall: f64, t_build: f64, workers: usize) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut per: BTreeMap<String, usize> = BTreeMap::new();
    for c in &p.cases {
        *per.entry(format!("{}:{}{}", c.cfg, c.entry, if c.feat == Feat::On { String::new() } else { format!(" cpu={}", feat_name(c.feat)) })).or_default() += 1;
    }
    let samples: Vec<String> = t.slow.iter().step_by((t.slow.len() / 6).max(1)).take(7).map(|(d, n)| format!("{} held, {:.2} s", n, d)).collect();
    let funcs: Vec<String> = t.funcs.iter().map(|(k, v)| format!("{} (lines {}-{})", k, v.0, v.1)).collect();
    let s = &t.stats;
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"wall_s\": {:.2}, \"violations\": {},\n",
        js(&o.id),
        js(if o.deep { "thorough" } else { "quick" }),
        o.seed,
        wall,
        t.violations.len()
    );
    let _ = write!(j, " \"coverage\": {{\n");
    let _ = write!(j, "  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {},\n", s.forks + s.ends, s.insts, t.validated);
    let _ = write!(j, "  \"samples\": {},\n", jl(&samples));
    let _ = write!(j, "  \"rule\": {},\n", js("states: symbolic execution states created by forks plus final states; transitions: LLVM instructions executed symbolically; traces validated: cases also run on concrete bytes in the interpreter and natively with equal results"));
    let _ = write!(j, "  \"cases\": {}, \"cases_held\": {}, \"undecided\": {},\n", p.cases.len(), t.done, t.inconclusive.len().max(t.late.len()) + t.unconfirmed.len());
    let _ = write!(j, "  \"cases_stopped_by_time\": {}, \"sizes_from_code\": {{\"cases\": {}, \"not_decided_in_time\": {}, \"numbers\": {}}},\n", jl(&t.late), p.cases.iter().filter(|c| c.extra).count(), t.extra_left, jl(&p.mined));
    let _ = write!(j, "  \"assertions\": {}, \"assertion_bytes\": {}, \"assertions_identical_after_certified_rewriting\": {},\n", s.checks, s.check_bytes, t.syntactic);
    let _ = write!(j, "  \"memory_accesses_checked\": {}, \"symbolic_branches\": {}, \"merges\": {}, \"timing_conditions_examined\": {}, \"terms\": {},\n", s.mem_checks, s.sym_branches, s.merges, s.ct_branches, s.terms);
    let _ = write!(j, "  \"expected_panics_confirmed\": {},\n", s.panics_expected);
    let _ = write!(
        j,
        "  \"solver\": {{\"queries\": {}, \"unsat\": {}, \"sat\": {}, \"unknown\": {}, \"answered_from_cache\": {}, \"seconds\": {:.2}, \"longest_query_s\": {:.2}, \"rewrites_certified\": {}, \"of_these_by_coefficient_comparison\": {}, \"certification_queries\": {}, \"distinct_rewrite_lemmas\": {}, \"lemmas_from_cache\": {}, \"cross_checked_with_cvc5\": {}, \"cross_disagreements\": {}}},\n",
        t.sv.queries, t.sv.unsat, t.sv.sat, t.sv.unknown, t.sv.cached, t.sv.secs, t.sv.maxq, t.rewrites, t.linear, t.sv.cert_queries, t.sv.cert_lemmas, t.sv.cert_cached, t.sv.cross, t.sv.cross_disagree
    );
    let _ = write!(j, "  \"bounds\": {},\n  \"outside_the_bounds\": {},\n", jl(&p.bounds), jl(&p.outside));
    let _ = write!(j, "  \"cases_per_entry\": {{{}}},\n", per.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "  \"functions_encoded\": {},\n", jl(&funcs));
    let _ = write!(j, "  \"build_s\": {:.2}, \"workers\": {}\n }},\n", t_build, workers);
    let a: Vec<String> = [
        "rustc and LLVM translate the sources to the LLVM IR that is executed symbolically; code generation below that is trusted",
        "the interpreter models LLVM IR and the SSE/SHA intrinsics faithfully (validated on concrete runs of each check)",
        "z3 answers unsat only for unsatisfiable formulas (thorough tier: every unsat is repeated with cvc5)",
        "the reference functions in harness/src/spec.rs state the standards correctly (validated against Python's hashlib and published vectors by tools/validate_spec.sh)",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let _ = write!(j, " \"assumptions\": {}\n}}\n", jl(&a));
    let _ = std::fs::write(dir.join(format!("{}.json", o.id)), j);
}

fn write_replay(o: &Opts, k: usize, c: &Case, v: &Violation, how: &str) -> PathBuf {
    let dir = root().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}-{}.txt", o.id, k));
    let mut s = String::new();
    let _ = write!(
        s,
        "# replay with: bash /verif/check.sh replay {}\nproperty={}\nbuild={}\nentry={}\nargs={}\ncpu={}\nkind={}\ninput={}\n",
        f.display(),
        o.id,
        c.cfg,
        c.entry,
        c.args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
        feat_name(c.feat),
        v.kind,
        hex(&v.inputs)
    );
    if let Some(i) = &v.inputs2 {
        let _ = write!(s, "input2={}\n", hex(i));
    }
    if let Some(f) = &v.feats {
        let _ = write!(s, "features={:x} {:x} {:x}\n", f[0], f[1], f[2]);
    }
    let _ = write!(s, "undef={}\nwhat={}\nwhere={}\nconfirmed={}\n", v.undef_dep, v.msg, v.loc, how.replace('\n', " "));
    let _ = std::fs::write(&f, s);
    f
}

/// Runs a counterexample file against /repo's current tree: 1 if it still fails.
pub fn replay(file: &str) -> i32 {
    let t = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            println!("{}: {}", file, e);
            return 2;
        }
    };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string();
    let cfg = match CONFIGS.iter().find(|c| c.0 == get("build")) {
        Some(c) => c.0,
        None => return 2,
    };
    let built = match build(&[cfg].into_iter().collect()) {
        Ok(b) => b,
        Err(e) => {
            println!("{}", e);
            return 2;
        }
    };
    let runner = match build_runner() {
        Ok(r) => r,
        Err(e) => {
            println!("{}", e);
            return 2;
        }
    };
    let feat = match get("cpu").as_str() {
        "on" => Feat::On,
        "off" => Feat::Off,
        _ => Feat::Sym,
    };
    let fw: Vec<u64> = get("features").split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
    let feats = if fw.len() == 3 { Some([fw[0], fw[1], fw[2]]) } else { None };
    let args: Vec<u64> = get("args").split(' ').filter_map(|x| x.parse().ok()).collect();
    let i2 = get("input2");
    let v = Violation {
        kind: get("kind"),
        msg: get("what"),
        loc: get("where"),
        inputs: unhex(&get("input")),
        inputs2: if i2.is_empty() { None } else { Some(unhex(&i2)) },
        feats,
        undef_dep: get("undef") == "true",
    };
    let c = Case {
        cfg,
        entry: get("entry"),
        args,
        feat,
        safety: false,
        certify: false,
        reach: vec![],
        cost: 0,
        extra: false,
    };
    let n = Native { runner: &runner, so: &built[cfg].so, entry: &c.entry, args: &c.args, feat, feats };
    let how = match replay_native(&n, &v) {
        Ok(x) => x,
        Err(why) => {
            let m = match Module::load(built[cfg].ll.to_str().unwrap()) {
                Ok(m) => m,
                Err(e) => {
                    println!("{}", e);
                    return 2;
                }
            };
            let p = Program { m, name: cfg.into() };
            let mut e = Engine::new(&p, 1, false);
            replay_ir(&mut e, &c, &v).map(|s| format!("{} ({})", s, why))
        }
    };
    match how {
        Some(h) => {
            println!("fails: {}", h);
            1
        }
        None => {
            println!("does not fail");
            0
        }
    }
}
