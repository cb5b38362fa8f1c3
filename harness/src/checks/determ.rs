//! C10: the same sources give the same output; unrelated items and order do not matter.
use super::form::corpus;
use crate::comp::{self, Opts, Run, Src};
use crate::exec::{inputs, names_of, run_vectors, source, vectors};
use crate::lang::print::{Printer, Style};
use crate::lang::*;
use crate::rng::Rng;
use crate::runner::{CheckDef, Ctx, JobOut};
use crate::vsim::Design;
use serde_json::json;

const PER_JOB: usize = 4;

pub fn all_outputs() -> Opts {
    Opts { mir: true, wrapper: true, items: true, ..Default::default() }
}

/// everything a run shows
pub fn artifacts(r: &Run) -> Vec<(&'static str, String)> {
    let mut v = vec![("verdict", r.verdict().to_string()), ("diagnostics", r.rendered.clone()), ("files", r.outputs.join(" "))];
    if let Some(s) = r.ok() {
        v.push(("Verilog", s.verilog.clone()));
        v.push(("MIR", s.mir.clone()));
        v.push(("wrapper", s.wrapper.clone()));
        v.push(("item list", s.items.clone()));
    }
    v
}

fn in_pool(n: usize, f: impl FnOnce() -> Run + Send) -> Run
where
    Run: Sized,
{
    struct S<T>(T);
    unsafe impl<T> Send for S<T> {}
    let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
    pool.install(move || S(f())).0
}

/// The units and their ports, and what they store, without the numbers of generated names. (Which of
/// several equal names is the signal and which its alias depends on these numbers, therefore the
/// rest of a unit cannot be compared as text; the generated units are simulated instead.)
fn canonical(t: &str) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = vec![];
    for l in t.lines() {
        if l.starts_with("module ") || l.starts_with("entity ") {
            out.push(vec![]);
        }
        let Some(u) = out.last_mut() else { continue };
        let w = l.trim_start();
        if u.is_empty() || w.starts_with("input") || w.starts_with("output") {
            u.push(erase(w));
        } else if w.starts_with("always") || w.starts_with("initial") || w.starts_with("reg ") {
            u.push(w.split(' ').next().unwrap().to_string());
        } else if let Some(k) = w.strip_prefix("reg[") {
            u.push(k.split(']').next().unwrap().to_string());
        }
    }
    for u in out.iter_mut() {
        u[1..].sort();
    }
    // instances of one generic unit are sorted by their numbers
    out.sort();
    out
}

fn erase(t: &str) -> String {
    let b = t.as_bytes();
    let mut o = String::with_capacity(t.len());
    let mut i = 0;
    let mut last = 0;
    while i < b.len() {
        if !b[i].is_ascii_digit() || (i > 0 && b[i - 1].is_ascii_digit()) {
            i += 1;
            continue;
        }
        let s = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        let h = &t[..s];
        // expressions: _e_12, e12, e(12); names: name_n12, name#12; units: name[1234]
        let word = |n: usize| s < n + 1 || !(b[s - n - 1].is_ascii_alphanumeric() || b[s - n - 1] == b'_');
        if h.ends_with("_e_")
            || (h.ends_with('e') && word(1))
            || (h.ends_with("e(") && word(2))
            || h.ends_with("_n")
            || h.ends_with('#')
            || (h.ends_with('[') && i - s >= 3 && b.get(i) == Some(&b']'))
        {
            o.push_str(&t[last..s]);
            o.push('~');
            last = i;
        }
    }
    o.push_str(&t[last..]);
    o
}

/// Threads may only change the numbers of generated names
enum Diff {
    Numbers,
    Other(String),
}

fn first_difference(a: &[(&str, String)], b: &[(&str, String)], numbers: bool) -> Option<Diff> {
    let mut d = None;
    for (x, y) in a.iter().zip(b) {
        if x != y {
            let (cx, cy) = (canonical(&x.1), canonical(&y.1));
            // the recorded finding is about the instances of generic units, whose names end in [number]
            let generic = a
                .iter()
                .filter(|x| x.0 == "MIR")
                .flat_map(|x| x.1.lines())
                .filter(|l| l.starts_with("entity ") && l.split(' ').nth(1).is_some_and(|n| n.ends_with(']')))
                .count()
                > 0;
            if numbers && generic && cx == cy {
                d = Some(Diff::Numbers);
                continue;
            }
            let d = if numbers {
                let (cx, cy) = (cx.concat(), cy.concat());
                cx.iter().zip(&cy).find(|(a, b)| a != b).map(|(a, b)| (a.clone(), b.clone()))
            } else {
                x.1.lines().zip(y.1.lines()).find(|(a, b)| a != b).map(|(a, b)| (a.to_string(), b.to_string()))
            };
            return Some(Diff::Other(format!("the {} differs: {:?}", x.0, d.unwrap_or(("(length)".into(), "(length)".into())))));
        }
    }
    if a.len() != b.len() {
        return Some(Diff::Other("the verdict differs".into()));
    }
    d
}

/// `spade-monitor artifacts`: compile the programs given as JSON on stdin, print what each run shows
pub fn child() {
    use std::io::Read;
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let v: Vec<String> = serde_json::from_str(&s).unwrap();
    let out: Vec<_> = v.iter().map(|t| artifacts(&comp::compile(&[Src::single(t)], &all_outputs()))).collect();
    println!("{}", serde_json::to_string(&out).unwrap());
    comp::cleanup_scratch();
}

fn spawn(texts: &[&String], threads: usize) -> Option<Vec<Vec<(String, String)>>> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut c = Command::new(std::env::current_exe().ok()?)
        .arg("artifacts")
        .env("RAYON_NUM_THREADS", threads.to_string())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let j = serde_json::to_string(texts).unwrap();
    c.stdin.take()?.write_all(j.as_bytes()).ok()?;
    let o = c.wait_with_output().ok()?;
    serde_json::from_slice(&o.stdout).ok()
}

type Simulate = Box<dyn Fn(&Design) -> Vec<Option<String>>>;

struct Job {
    from: String,
    text: String,
    sim: Option<Simulate>,
}

fn wrong_units(t: &Job, art: &[(&str, String)], out: &mut JobOut) -> Option<Vec<bool>> {
    let v = &art.iter().find(|a| a.0 == "Verilog")?.1;
    let d = Design::parse(&[v]).ok()?;
    let w = t.sim.as_ref()?(&d);
    out.stat("units simulated in both", w.len() as u64);
    Some(w.iter().map(|w| w.is_some()).collect())
}

fn batch(texts: Vec<Job>, r: &mut Rng, out: &mut JobOut) {
    let first: Vec<_> = texts
        .iter()
        .map(|t| {
            let t = t.text.clone();
            let dir = comp::scratch();
            artifacts(&in_pool(1, move || comp::compile_in(&[Src::single(&t)], &all_outputs(), &dir)))
        })
        .collect();
    let report = |out: &mut JobOut, k: usize, how: &str, d: Diff| match d {
        Diff::Other(d) => out.violation(format!("{how}: {d}"), json!({"source": texts[k].text, "from": texts[k].from})),
        Diff::Numbers => {
            out.stat("outputs which differ in the numbers of names", 1);
            crate::probes::finding("C10", "schedule-names", "the numbers in the names of generic instances depend on the schedule of the worker threads", out, &texts[k].text);
        }
    };
    // again in this process, in another order and with other numbers of threads
    let mut order: Vec<usize> = (0..texts.len()).collect();
    r.shuffle(&mut order);
    for k in order.iter().copied() {
        let n = *r.pick(&[1, 2, 3, 8, 16]);
        let t = texts[k].text.clone();
        let dir = comp::scratch();
        let again = artifacts(&in_pool(n, move || comp::compile_in(&[Src::single(&t)], &all_outputs(), &dir)));
        out.evals += 1;
        out.stat(&format!("compared with {n} threads"), 1);
        if n > 1 && texts[k].sim.is_some() && wrong_units(&texts[k], &first[k], out) != wrong_units(&texts[k], &again, out) {
            report(out, k, &format!("1 and {n} threads"), Diff::Other("the Verilog computes something else".into()));
        }
        match first_difference(&first[k], &again, n > 1) {
            Some(d) => report(out, k, &format!("1 and {n} threads"), d),
            None => {
                out.key(&texts[k].text);
                out.stat(if first[k][0].1 == "accepted" { "accepted programs" } else { "rejected programs" }, 1);
            }
        }
    }
    // in another process
    r.shuffle(&mut order);
    let n = *r.pick(&[1, 1, 2, 5]);
    let ts: Vec<&String> = order.iter().map(|k| &texts[*k].text).collect();
    match spawn(&ts, n) {
        Some(v) => {
            for (k, a) in order.iter().zip(v) {
                let a: Vec<(&str, String)> = a.iter().map(|(n, s)| (n.as_str(), s.clone())).collect();
                out.evals += 1;
                out.stat(&format!("compared with another process with {n} threads"), 1);
                if let Some(d) = first_difference(&first[*k], &a, n > 1) {
                    report(out, *k, &format!("another process with {n} threads"), d);
                }
            }
        }
        None => out.inconclusive.push("the other process gave no answer".into()),
    }
}

fn ren(n: &str) -> String {
    format!("other_{n}")
}

/// unrelated items to add: text and what they are
fn unrelated(r: &mut Rng) -> String {
    if r.chance(1, 2) {
        let p = super::exprs::mixed_program(r.below(3), r);
        let st = Style { rename: Some(ren), ..Style::plain() };
        source(&p, &st)
    } else {
        use crate::lang::seqgen::SProfile;
        let mut s = SProfile::base();
        s.max_clk = 1;
        let pipes = r.bool();
        let sp = super::seq::program(r.below(5), r, s, 2, pipes);
        crate::lang::seq::source(&sp, &Style { rename: Some(ren), ..Style::plain() }, &sp.tops)
    }
}

fn in_mod(name: &str, text: &str) -> String {
    format!("mod {name} {{\n{text}\n}}\n")
}

fn sources(items: &mut Vec<String>, r: &mut Rng) -> (Vec<Src>, String) {
    let mut what = vec![];
    if r.chance(2, 3) {
        r.shuffle(items);
        what.push("reordered");
    }
    let main: String = items.concat();
    let mut srcs = vec![Src::single(&main)];
    for i in 0..r.below(3) {
        let u = unrelated(r);
        match r.below(4) {
            0 => {
                let at = r.below(items.len() + 1);
                let t: String = items[..at].iter().cloned().chain([u]).chain(items[at..].iter().cloned()).collect();
                // only once: the names must not clash
                if srcs.len() == 1 && !srcs[0].text.contains("other_") {
                    srcs[0].text = t;
                    what.push("unrelated items in the file");
                }
            }
            1 => {
                srcs[0].text.push_str(&in_mod(&format!("unrelated{i}"), &u));
                what.push("unrelated module");
            }
            2 => {
                // the same names, in another module. Methods have no scope, so that a second implementation is related
                let u: String = if items.iter().any(|i| i.starts_with("impl")) { unrelated(r) } else { items.concat() };
                srcs[0].text.push_str(&in_mod(&format!("unrelated{i}"), &u));
                what.push("copy in a module");
            }
            _ => {
                let n = format!("file{i}");
                let s = Src { ns: vec![n.clone()], base: vec![n.clone()], file: format!("{n}.spade"), text: u };
                if r.bool() {
                    srcs.push(s);
                } else {
                    srcs.insert(0, s);
                }
                what.push("unrelated file");
            }
        }
    }
    (srcs, what.join(", "))
}

fn compare(
    base: &Run,
    srcs: &[Src],
    what: &str,
    orig: &str,
    sim: &dyn Fn(&Design) -> Vec<Option<String>>,
    out: &mut JobOut,
) {
    let var = comp::compile(srcs, &Opts::default());
    out.evals += 1;
    for w in what.split(", ") {
        out.stat(w, 1);
    }
    let mut why = None;
    if base.verdict() != var.verdict() {
        let e = if base.ok().is_some() { var.first_error() } else { base.first_error() };
        why = Some(format!("{} becomes {} ({e})", base.verdict(), var.verdict()));
    } else if let (Some(x), Some(y)) = (base.ok(), var.ok()) {
        match (Design::parse(&[&x.verilog]), Design::parse(&[&y.verilog])) {
            (Ok(a), Ok(b)) => {
                for (a, b) in sim(&a).into_iter().zip(sim(&b)) {
                    out.stat("units simulated in both", 1);
                    if a.is_some() != b.is_some() {
                        why = Some(format!("a unit computes another value: {}", a.or(b).unwrap()));
                    }
                }
            }
            (Err(e), Ok(_)) | (Ok(_), Err(e)) => why = Some(format!("the Verilog does not parse: {e}")),
            _ => {}
        }
    }
    let all: String = srcs.iter().map(|s| format!("// file {} in {:?}\n{}", s.file, s.ns, s.text)).collect();
    match why {
        Some(d) => out.violation(format!("{what}: {d}"), json!({"source": all, "original": orig, "rendered": var.rendered})),
        None => out.key(&all),
    }
}

fn prog_sim(p: Prog, r: &mut Rng) -> Simulate {
    let vecs: Vec<_> = p
        .tops
        .iter()
        .map(|t| {
            let ins = inputs(&p, *t, 12, r);
            (*t, vectors(&p, *t, &ins))
        })
        .collect();
    Box::new(move |d: &Design| {
        vecs.iter()
            .map(|(t, v)| {
                run_vectors(d, &p.funcs[*t].name, &names_of(&p, *t, &Style::plain()), v).map(|m| format!("{} {}", m.what, m.detail))
            })
            .collect()
    })
}

fn seq_sim(sp: crate::lang::seq::SeqProg, r: &mut Rng) -> Simulate {
    use super::seq::*;
    let stim: Vec<_> = sp
        .tops
        .iter()
        .map(|t| {
            let s = stimuli(&sp, *t, 10, r);
            let w = expect(&sp, *t, &s).0;
            (*t, s, w)
        })
        .collect();
    Box::new(move |d: &Design| stim.iter().map(|(t, s, w)| drive(&sp, &Style::plain(), d, *t, s, w)).collect())
}

fn prog_job(j: usize, nvar: usize, r: &mut Rng, out: &mut JobOut) {
    let p = super::exprs::mixed_program(j % 3, r);
    let st = Style::plain();
    let text = source(&p, &st);
    let base = comp::compile(&[Src::single(&text)], &Opts::default());
    let sim = prog_sim(p.clone(), r);
    for _ in 0..nvar {
        let mut items = Printer::new(&p, st.clone()).items();
        let (srcs, what) = sources(&mut items, r);
        if what.is_empty() {
            continue;
        }
        compare(&base, &srcs, &what, &text, &sim, out);
    }
}

fn seq_job(j: usize, nvar: usize, r: &mut Rng, out: &mut JobOut) {
    use super::seq::*;
    use crate::lang::seq::*;
    use crate::lang::seqgen::SProfile;
    let mut s = SProfile::base();
    let pipes = j % 2 == 0;
    if pipes {
        s.max_clk = 1;
    }
    let sp = program(j, r, s, 4, pipes);
    let st = Style::plain();
    let text = source(&sp, &st, &sp.tops);
    let base = comp::compile(&[Src::single(&text)], &Opts::default());
    let sim = seq_sim(sp.clone(), r);
    for _ in 0..nvar {
        let pr = Printer::new(&sp.p, st.clone());
        let mut items = pr.items();
        for i in needed(&sp, &sp.tops) {
            items.push(print_ent(&sp, &pr, i));
        }
        let (srcs, what) = sources(&mut items, r);
        if what.is_empty() {
            continue;
        }
        compare(&base, &srcs, &what, &text, &sim, out);
    }
}

pub fn c10() -> CheckDef {
    fn run(c: &Ctx, j: usize, r: &mut Rng, out: &mut JobOut) {
        let all = corpus();
        let nc = all.len().div_ceil(PER_JOB);
        let nvar = if c.thorough { 6 } else { 4 };
        let (turn, k) = (j % 4, j / 4);
        match turn {
            0 | 1 => {
                // in quick runs every fourth program of the corpus
                let k = if c.thorough { k * 2 + turn } else { 4 * (k * 2 + turn) + (c.seed as usize % 4) };
                if k >= nc && !c.thorough {
                    return;
                }
                let k = k % nc;
                let t = all[k * PER_JOB..((k + 1) * PER_JOB).min(all.len())].iter().map(|i| Job { from: i.name.clone(), text: i.src.clone(), sim: None }).collect();
                batch(t, r, out)
            }
            2 => {
                // many generic instances are monomorphised concurrently
                let mut t = vec![];
                for _ in 0..2 {
                    let p = super::exprs::abstraction_program(r.below(4), r);
                    let text = source(&p, &Style::plain());
                    t.push(Job { from: "generated".into(), text, sim: Some(prog_sim(p, r)) });
                    let pipes = r.bool();
                    let mut s = crate::lang::seqgen::SProfile::base();
                    s.max_clk = 1;
                    let sp = super::seq::program(r.below(5), r, s, 4, pipes);
                    let text = crate::lang::seq::source(&sp, &Style::plain(), &sp.tops);
                    t.push(Job { from: "generated".into(), text, sim: Some(seq_sim(sp, r)) });
                }
                batch(t, r, out)
            }
            _ => {
                if k % 2 == 0 {
                    prog_job(k / 2, nvar, r, out)
                } else {
                    seq_job(k / 2, nvar, r, out)
                }
            }
        }
    }
    CheckDef {
        id: "C10",
        jobs: |t| if t { 12000 } else { 90 },
        run,
        rule: "Programs of the repository's tests, examples and libraries and generated programs are compiled repeatedly: in one process after other programs and with 1, 2, 3, 8 and 16 worker threads, and in other processes with other numbers of threads; Verilog, MIR, wrapper, item list, diagnostics and the set of files have to be byte for byte the same. Generated programs are also compiled with their items in another order and together with unrelated items (in the same file, in modules, in other files, with the same names in another module); verdict and simulated behaviour of their units have to stay the same. Non-trivial: every distinct set of sources.",
        assumptions: &["thread schedules are those the operating system produced in this run"],
        crash_is_violation: true,
    }
}
