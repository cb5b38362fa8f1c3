mod bits;
mod checks;
mod comp;
mod exec;
mod lang;
mod probes;
mod rng;
mod runner;
mod spadelex;
mod templates;
mod vsim;

use runner::Ctx;
use std::io::Read;
use std::time::Duration;

fn find(id: &str) -> runner::CheckDef {
    checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("no check {id}");
        std::process::exit(2)
    })
}

fn main() {
    comp::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let def = find(&args[2]);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = match args.get(3).map(|s| s.as_str()) {
                Some("thorough") => true,
                Some("quick") => false,
                _ => std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
            };
            std::process::exit(runner::check(&def, Ctx { seed, thorough }));
        }
        Some("artifacts") => checks::determ::child(),
        Some("worker") => {
            let def = find(&args[2]);
            let seed = args[3].parse().unwrap();
            let thorough = args[4] == "thorough";
            let ms: u64 = args[5].parse().unwrap();
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            let jobs = s.split(',').filter_map(|x| x.trim().parse().ok()).collect();
            runner::worker(&def, Ctx { seed, thorough }, jobs, Some(Duration::from_millis(ms)));
        }
        // run some jobs here and print what they report
        Some("job") => {
            let def = find(&args[2]);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
            let ctx = Ctx { seed, thorough };
            for j in &args[3..] {
                let j: usize = j.parse().unwrap();
                let mut r = runner::job_rng(&ctx, def.id, j);
                let mut out = runner::JobOut::default();
                runner::run_job(&def, &ctx, j, &mut r, &mut out);
                show(j, &out);
            }
            comp::cleanup_scratch();
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let def = find(v["property"].as_str().unwrap());
            let ctx = Ctx { seed: v["seed"].as_u64().unwrap(), thorough: v["tier"] == "thorough" };
            let j = v["job"].as_u64().unwrap() as usize;
            let mut r = runner::job_rng(&ctx, def.id, j);
            let mut out = runner::JobOut::default();
            runner::run_job(&def, &ctx, j, &mut r, &mut out);
            show(j, &out);
            comp::cleanup_scratch();
            std::process::exit(if out.violations.is_empty() { 0 } else { 1 });
        }
        Some("lint") => {
            for f in &args[2..] {
                let t = std::fs::read_to_string(f).unwrap();
                let st = std::time::Instant::now();
                let r = comp::compile_str(&t);
                let el = st.elapsed();
                println!("== {f}: {} {:?} {}", r.verdict(), el, if r.ok().is_none() { r.rendered.clone() } else { String::new() });
                if let Some(s) = r.ok() {
                    if std::env::var("SHOW").is_ok() {
                        println!("{}", s.verilog);
                    }
                    match vsim::Design::parse(&[&s.verilog]) {
                        Ok(d) => {
                            for i in vsim::sim::structural_check(&d) {
                                println!("  {i:?}");
                            }
                        }
                        Err(e) => println!("  SYNTAX {e}"),
                    }
                } else if let comp::Outcome::Panic(p) = &r.outcome {
                    println!("{p}");
                }
            }
            comp::cleanup_scratch();
        }
        // run FILE TOP name=bits ... : print every net of the top
        Some("run") => {
            let t = std::fs::read_to_string(&args[2]).unwrap();
            let r = comp::compile_str(&t);
            let Some(s) = r.ok() else {
                println!("{} {}", r.first_error(), r.rendered);
                return;
            };
            let d = vsim::Design::parse(&[&s.verilog]).unwrap();
            let mut is = vec![];
            let mut sim = vsim::sim::Sim::new(&d, &args[3], &mut is).unwrap();
            for a in &args[4..] {
                let (n, b) = a.split_once('=').unwrap();
                sim.set(n, &bits::LV::from_bin(b).unwrap());
                println!("settle {:?}", sim.settle());
            }
            println!("settle {:?}", sim.settle());
            for i in &sim.instances {
                for (n, id, _) in &i.nets {
                    println!("{}.{n} = {}", i.path.join("."), sim.get_id(*id).to_bin());
                }
            }
            comp::cleanup_scratch();
        }
        _ => eprintln!("usage: spade-monitor check ID [quick|thorough] | job ID N.. | replay FILE | lint FILE.."),
    }
}

fn show(j: usize, out: &runner::JobOut) {
    println!("job {j}: evals {} keys {} stats {:?}", out.evals, out.keys.len(), out.stats);
    for k in &out.known {
        println!("KNOWN {k}");
    }
    for i in &out.inconclusive {
        println!("INCONCLUSIVE {i}");
    }
    for v in &out.violations {
        println!("VIOLATION {}", v.what);
        for (k, d) in v.detail.as_object().into_iter().flatten() {
            if let Some(s) = d.as_str() {
                println!("--- {k}:\n{s}");
            } else {
                println!("--- {k}: {d}");
            }
        }
    }
}
