//! Supervisor and workers: deterministic jobs, crash isolation, evidence and verdicts.
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Default, Debug)]
pub struct JobOut {
    pub evals: u64,
    pub keys: Vec<u64>,
    pub samples: Vec<String>,
    pub stats: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub known: Vec<String>,
    pub inconclusive: Vec<String>,
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub what: String,
    pub detail: Value,
}

impl JobOut {
    pub fn stat(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn violation(&mut self, what: impl Into<String>, detail: Value) {
        self.violations.push(Violation { what: what.into(), detail });
    }
    pub fn key<T: std::hash::Hash>(&mut self, t: &T) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        self.keys.push(h.finish());
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 2 {
            self.samples.push(s.into());
        }
    }
    fn to_json(&self) -> Value {
        json!({
            "evals": self.evals, "keys": self.keys, "samples": self.samples, "stats": self.stats,
            "violations": self.violations.iter().map(|v| json!({"what": v.what, "detail": v.detail})).collect::<Vec<_>>(),
            "known": self.known, "inconclusive": self.inconclusive,
        })
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
}

pub struct CheckDef {
    pub id: &'static str,
    /// number of jobs: (quick, thorough)
    pub jobs: fn(bool) -> usize,
    pub run: fn(&Ctx, usize, &mut Rng, &mut JobOut),
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// death or endless loop of a worker is itself a violation
    pub crash_is_violation: bool,
}

/// one job in this process, as a worker runs it
pub fn run_job(def: &CheckDef, ctx: &Ctx, j: usize, r: &mut Rng, out: &mut JobOut) {
    if j == 0 {
        crate::probes::run(def.id, out);
    }
    (def.run)(ctx, j, r, out);
}

pub fn job_rng(ctx: &Ctx, id: &str, job: usize) -> Rng {
    let n: u64 = id[1..].parse().unwrap_or(0);
    Rng::derive(ctx.seed, n, job as u64)
}

/// Runs jobs in this process on a thread with a stack like a main thread's
pub fn worker(def: &CheckDef, ctx: Ctx, jobs: Vec<usize>, deadline: Option<Duration>) {
    let st = Instant::now();
    let run = def.run;
    let id = def.id;
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            for j in jobs {
                if let Some(d) = deadline {
                    if st.elapsed() > d {
                        break;
                    }
                }
                {
                    let mut o = std::io::stdout().lock();
                    let _ = writeln!(o, "S {j}");
                    let _ = o.flush();
                }
                let mut r = job_rng(&ctx, id, j);
                let mut out = JobOut::default();
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if j == 0 {
                        crate::probes::run(id, &mut out);
                    }
                    run(&ctx, j, &mut r, &mut out)
                }));
                if res.is_err() {
                    out.inconclusive.push(format!("harness panic in job {j}"));
                }
                let mut o = std::io::stdout().lock();
                let _ = writeln!(o, "R {j} {}", out.to_json());
                let _ = o.flush();
            }
            crate::comp::cleanup_scratch();
        })
        .unwrap();
    let _ = h.join();
}

/// what this process is about to run: kept in a file which outlives a crash
pub fn current(text: &str) {
    let _ = std::fs::write(current_file(std::process::id()), text);
}
fn current_file(pid: u32) -> std::path::PathBuf {
    std::env::temp_dir().join(format!("spade-monitor-current-{pid}"))
}
fn take_current(pid: u32) -> String {
    let p = current_file(pid);
    let t = std::fs::read_to_string(&p).unwrap_or_default();
    let _ = std::fs::remove_file(p);
    t
}

enum Msg {
    Start(usize, usize),
    Result(usize, usize, Value),
    Exit(usize, Option<i32>, bool),
}

struct W {
    child: std::process::Child,
    current: Option<(usize, Instant)>,
    todo: Vec<usize>,
    done: bool,
    killed: bool,
}

fn spawn(id: &str, ctx: &Ctx, todo: &[usize], w: usize, tx: mpsc::Sender<Msg>, deadline: Duration) -> std::process::Child {
    let list = todo.iter().map(|j| j.to_string()).collect::<Vec<_>>().join(",");
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("worker")
        .arg(id)
        .arg(ctx.seed.to_string())
        .arg(if ctx.thorough { "thorough" } else { "quick" })
        .arg(deadline.as_millis().to_string())
        .stdin(Stdio::piped())
        .env("RAYON_NUM_THREADS", "1")
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker");
    {
        let mut i = c.stdin.take().unwrap();
        let _ = i.write_all(list.as_bytes());
    }
    let out = c.stdout.take().unwrap();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            let Ok(l) = l else { break };
            if let Some(j) = l.strip_prefix("S ") {
                let _ = tx.send(Msg::Start(w, j.parse().unwrap()));
            } else if let Some(x) = l.strip_prefix("R ") {
                let (j, v) = x.split_once(' ').unwrap();
                if let Ok(v) = serde_json::from_str(v) {
                    let _ = tx.send(Msg::Result(w, j.parse().unwrap(), v));
                }
            }
        }
        let _ = tx.send(Msg::Exit(w, None, false));
    });
    c
}

/// Some(seconds) if the compiler does not finish with this text
fn endless(src: &str) -> Option<u64> {
    let f = std::env::temp_dir().join(format!("spade-monitor-slow-{}.spade", std::process::id()));
    std::fs::write(&f, src).ok()?;
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("lint")
        .arg(&f)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let st = Instant::now();
    let r = loop {
        if let Ok(Some(_)) = c.try_wait() {
            break None;
        }
        if st.elapsed() > JOB_TIMEOUT {
            let _ = c.kill();
            let _ = c.wait();
            break Some(JOB_TIMEOUT.as_secs());
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    let _ = std::fs::remove_file(f);
    r
}

const JOB_TIMEOUT: Duration = Duration::from_secs(60);

/// Run one job alone; Ok(result) or how it died: ("signal N" | "timeout")
fn rerun(id: &str, ctx: &Ctx, job: usize) -> Result<Value, (String, String)> {
    let (tx, rx) = mpsc::channel();
    let mut c = spawn(id, ctx, &[job], 0, tx, Duration::from_secs(100000));
    let st = Instant::now();
    let mut res = None;
    loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Result(_, _, v)) => res = Some(v),
            Ok(Msg::Exit(..)) => break,
            _ => {}
        }
        if st.elapsed() > JOB_TIMEOUT {
            let _ = c.kill();
            let _ = c.wait();
            return Err(("timeout".into(), take_current(c.id())));
        }
    }
    let s = c.wait();
    let src = take_current(c.id());
    match res {
        Some(v) => Ok(v),
        None => {
            use std::os::unix::process::ExitStatusExt;
            let how = match s {
                Ok(s) => match s.signal() {
                    Some(n) => format!("signal {n}"),
                    None => format!("exit {:?}", s.code()),
                },
                Err(e) => e.to_string(),
            };
            Err((how, src))
        }
    }
}

pub fn check(def: &CheckDef, ctx: Ctx) -> i32 {
    let st = Instant::now();
    let njobs = std::env::var("MON_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or((def.jobs)(ctx.thorough));
    let nw = std::env::var("MON_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8))
        .min(njobs.max(1));
    let budget = Duration::from_secs(if ctx.thorough { 720 } else { 170 });
    let (tx, rx) = mpsc::channel();
    let mut ws: Vec<W> = vec![];
    for w in 0..nw {
        let todo: Vec<usize> = (0..njobs).filter(|j| j % nw == w).collect();
        let child = spawn(def.id, &ctx, &todo, w, tx.clone(), budget);
        ws.push(W { child, current: None, todo, done: false, killed: false });
    }
    let mut evals = 0u64;
    let mut keys: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut viol: Vec<(usize, Value)> = vec![];
    let mut known: Vec<String> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    let mut done_jobs = 0u64;
    let mut crashed: Vec<usize> = vec![];
    let mut slow: Vec<(usize, String)> = vec![];
    let mut absorb = |j: usize,
                      v: &Value,
                      viol: &mut Vec<(usize, Value)>,
                      inconclusive: &mut Vec<String>,
                      known: &mut Vec<String>| {
        evals += v["evals"].as_u64().unwrap_or(0);
        for k in v["keys"].as_array().into_iter().flatten() {
            keys.insert(k.as_u64().unwrap_or(0));
        }
        for s in v["samples"].as_array().into_iter().flatten() {
            if samples.len() < 6 {
                samples.push(s.as_str().unwrap_or("").to_string());
            }
        }
        for (k, n) in v["stats"].as_object().into_iter().flatten() {
            *stats.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
        for x in v["violations"].as_array().into_iter().flatten() {
            viol.push((j, x.clone()));
        }
        for x in v["known"].as_array().into_iter().flatten() {
            known.push(x.as_str().unwrap_or("").to_string());
        }
        for x in v["inconclusive"].as_array().into_iter().flatten() {
            inconclusive.push(x.as_str().unwrap_or("").to_string());
        }
        done_jobs += 1;
    };
    let stop_early = std::env::var("MON_ALL").is_err();
    while ws.iter().any(|w| !w.done) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Start(w, j)) => ws[w].current = Some((j, Instant::now())),
            Ok(Msg::Result(w, j, v)) => {
                ws[w].current = None;
                ws[w].todo.retain(|x| *x != j);
                absorb(j, &v, &mut viol, &mut inconclusive, &mut known);
            }
            Ok(Msg::Exit(w, _, _)) => {
                let _ = ws[w].child.wait();
                let src = take_current(ws[w].child.id());
                if let Some((j, _)) = ws[w].current.take() {
                    // died inside job j
                    ws[w].todo.retain(|x| *x != j);
                    if ws[w].killed {
                        inconclusive.push(format!("job {j} timed out"));
                        if def.crash_is_violation && !src.is_empty() {
                            slow.push((j, src));
                        }
                    } else {
                        crashed.push(j);
                    }
                    let left = budget.saturating_sub(st.elapsed());
                    if !ws[w].todo.is_empty() && left > Duration::from_secs(1) && crashed.len() + inconclusive.len() < 40 {
                        let todo = ws[w].todo.clone();
                        ws[w].child = spawn(def.id, &ctx, &todo, w, tx.clone(), left);
                        ws[w].killed = false;
                        continue;
                    }
                }
                ws[w].done = true;
            }
            Err(_) => {}
        }
        for w in ws.iter_mut() {
            if let Some((_, t)) = &w.current {
                if t.elapsed() > JOB_TIMEOUT && !w.killed {
                    w.killed = true;
                    let _ = w.child.kill();
                }
            }
        }
        if stop_early && viol.len() >= 12 {
            for w in ws.iter_mut() {
                w.current = None;
                let _ = w.child.kill();
            }
        }
    }
    // decide crashes by running the job again on its own
    for j in crashed.iter().take(4) {
        match rerun(def.id, &ctx, *j) {
            Ok(v) => absorb(*j, &v, &mut viol, &mut inconclusive, &mut known),
            Err((how, src)) => {
                // abort, illegal instruction, bus error and segmentation fault are the process's own doing
                let own = ["signal 6", "signal 4", "signal 7", "signal 11"].contains(&how.as_str());
                if own && def.crash_is_violation {
                    viol.push((*j, json!({"what": format!("compiler process died ({how})"), "detail": {"source": src}})));
                } else {
                    inconclusive.push(format!("job {j}: {how}"));
                }
            }
        }
    }
    // texts on which the compiler seemed to run for ever, each on its own
    for (j, src) in slow.iter().take(4) {
        if let Some(secs) = endless(src) {
            viol.push((*j, json!({"what": format!("[endless] the compiler did not finish in {secs} s"), "detail": {"source": src}})));
        }
    }
    let wall = st.elapsed().as_secs_f64();
    let dir = std::path::Path::new("/verif/evidence");
    let dir = std::env::var("MON_EVIDENCE").map(std::path::PathBuf::from).unwrap_or(dir.to_path_buf());
    let _ = std::fs::create_dir_all(&dir);
    let distinct = keys.len() as u64;
    let n_viol = viol.len();
    let mut coverage = serde_json::Map::new();
    coverage.insert("evaluations".into(), json!(evals));
    coverage.insert("distinct_nontrivial".into(), json!(distinct));
    coverage.insert("rule".into(), json!(def.rule));
    coverage.insert("samples".into(), json!(samples));
    coverage.insert("jobs_completed".into(), json!(done_jobs));
    coverage.insert("jobs_planned".into(), json!(njobs));
    coverage.insert("observed".into(), json!(stats));
    coverage.insert("inconclusive".into(), json!(inconclusive.len()));
    coverage.insert("inconclusive_reasons".into(), json!(inconclusive.iter().take(10).collect::<Vec<_>>()));
    let ev = json!({
        "property": def.id,
        "tier": if ctx.thorough { "thorough" } else { "quick" },
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": def.assumptions,
        "wall_s": wall,
        "violations": n_viol,
    });
    std::fs::write(dir.join(format!("{}.json", def.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    known.sort();
    known.dedup();
    for k in &known {
        println!("KNOWN-FINDING: property={} {k}", def.id);
    }
    println!(
        "{}: {evals} evaluations, {distinct} distinct non-trivial, {done_jobs}/{njobs} jobs, {} inconclusive, {wall:.1} s",
        def.id,
        inconclusive.len()
    );
    for (k, v) in &stats {
        println!("  {k}: {v}");
    }
    for i in inconclusive.iter().take(5) {
        println!("  inconclusive: {i}");
    }
    if n_viol > 0 {
        viol.sort_by_key(|v| v.0);
        let show = std::env::var("MON_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(3usize);
        for (i, (j, v)) in viol.iter().enumerate().take(show) {
            let p = dir.join(format!("{}.replay{i}.json", def.id));
            let r = json!({"property": def.id, "seed": ctx.seed, "tier": if ctx.thorough {"thorough"} else {"quick"}, "job": j, "what": v["what"], "detail": v["detail"]});
            std::fs::write(&p, serde_json::to_string_pretty(&r).unwrap()).unwrap();
            println!("  job {j}: {}", v["what"].as_str().unwrap_or(""));
            println!("VIOLATION property={} replay={}", def.id, p.display());
        }
        return 1;
    }
    if evals == 0 || distinct == 0 {
        println!("nothing was observed: inconclusive");
        return 2;
    }
    0
}
