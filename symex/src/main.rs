#![allow(dead_code)]
mod driver;
mod exec;
mod ir;
mod mine;
mod plan;
mod solver;
mod sweep;
mod term;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            // run IR ENTRY FEAT ARGS...
            let p = exec::Program { m: ir::Module::load(&a[2]).unwrap(), name: "dev".into() };
            let feat = match a[4].as_str() {
                "on" => exec::Feat::On,
                "off" => exec::Feat::Off,
                _ => exec::Feat::Sym,
            };
            let args: Vec<u64> = a[5..].iter().map(|x| x.parse().unwrap()).collect();
            let mut e = exec::Engine::new(&p, 1, false);
            e.certify = std::env::var("CERT").is_ok();
            e.safety_only = std::env::var("SAFETY").is_ok();
            let t0 = std::time::Instant::now();
            match e.run_case(&a[3], &args, feat) {
                Ok(()) => println!("OK"),
                Err(exec::Stop::Violation(v)) => println!("VIOLATION {:#?}", v),
                Err(exec::Stop::Inconclusive(s)) => println!("INCONCLUSIVE {}", s),
            }
            e.reset();
            println!("{:?}\n{:?}\n{:.3}s", e.stats, e.sv.stats, t0.elapsed().as_secs_f64());
            if std::env::var("FUNCS").is_ok() {
                println!("{:#?}", e.chf_functions());
            }
            0
        }
        Some("check") => {
            // check ID TIER [FILTER]
            let deep = a.get(3).map_or(false, |t| t == "thorough");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let limit = std::env::var("VP_LIMIT")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(if deep { 6 * 3600 } else { 700 });
            driver::check(driver::Opts {
                id: a[2].clone(),
                deep,
                seed,
                limit,
                only: a.get(4).cloned(),
            })
        }
        Some("mine") => {
            println!("{:?}", mine::constants(&ir::Module::load(&a[2]).unwrap()));
            0
        }
        Some("replay") => driver::replay(&a[2]),
        Some("build") => {
            let all = plan::CONFIGS.iter().map(|c| c.0).collect();
            match driver::build(&all).and_then(|_| driver::build_runner()) {
                Ok(_) => 0,
                Err(e) => {
                    eprintln!("{}", e);
                    2
                }
            }
        }
        _ => {
            eprintln!("usage: symex check ID quick|thorough | replay FILE | build | run IR ENTRY on|off|sym ARGS");
            2
        }
    };
    std::process::exit(code);
}
