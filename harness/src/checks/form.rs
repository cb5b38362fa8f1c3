//! C13: other spellings of the same program have the same verdict and the same hardware.
use crate::comp::{self, Opts, Run, Src};
use crate::exec::{inputs, names_of, run_vectors, source, vectors};
use crate::lang::print::Style;
use crate::lang::*;
use crate::rng::Rng;
use crate::runner::{CheckDef, Ctx, JobOut};
use crate::spadelex::*;
use crate::vsim::Design;
use serde_json::json;

const PER_JOB: usize = 3;

pub struct CorpusItem {
    pub name: String,
    pub src: String,
}

pub fn corpus() -> &'static [CorpusItem] {
    static C: std::sync::OnceLock<Vec<CorpusItem>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        include_str!("../../../corpus/corpus.jsonl")
            .lines()
            .map(|l| {
                let v: serde_json::Value = serde_json::from_str(l).unwrap();
                CorpusItem { name: v["name"].as_str().unwrap().into(), src: v["src"].as_str().unwrap().into() }
            })
            .collect()
    })
}

fn compile(t: &str) -> Run {
    comp::compile(&[Src::single(t)], &Opts::default())
}

fn messages(r: &Run) -> Vec<String> {
    let mut m: Vec<String> = r.diags.iter().map(|d| format!("{}{}", if d.error { "error: " } else { "" }, d.message)).collect();
    for m in m.iter_mut() {
        // whether the name of a generic parameter is printed with its path
        *m = m.replace("std::io::", "");
    }
    m.sort();
    m
}

/// which tokens a span touches
fn token_range(toks: &[Tok], s: usize, e: usize) -> Option<(usize, usize)> {
    let a = toks.iter().position(|t| t.at.1 > s && t.at.0 < e)?;
    let b = toks.iter().rposition(|t| t.at.1 > s && t.at.0 < e)?;
    Some((a, b))
}

fn token_spans(r: &Run, toks: &[Tok]) -> Vec<String> {
    let mut o: Vec<String> = r
        .diags
        .iter()
        .map(|d| {
            let s: Vec<_> =
                d.spans.iter().zip(&d.files).filter(|(_, n)| *n == "main.spade").map(|((_, s, e, _), _)| token_range(toks, *s, *e)).collect();
            format!("{}: {s:?}", d.message.replace("std::io::", ""))
        })
        .collect();
    o.sort();
    o
}

/// None: the same
fn differs(a: &Run, b: &Run) -> Option<String> {
    if a.verdict() != b.verdict() {
        return Some(format!("{} becomes {} ({})", a.verdict(), b.verdict(), if a.ok().is_some() { b.first_error() } else { a.first_error() }));
    }
    match (a.ok(), b.ok()) {
        (Some(x), Some(y)) => {
            let (x, y) = (normalise(&x.verilog), normalise(&y.verilog));
            if x != y {
                let d = x.lines().zip(y.lines()).find(|(x, y)| x != y);
                return Some(format!("the emitted Verilog differs: {:?}", d.unwrap_or(("(length)", "(length)"))));
            }
        }
        _ => {
            let (x, y) = (messages(a), messages(b));
            if x != y {
                return Some(format!("the reported errors differ: {x:?} and {y:?}"));
            }
        }
    }
    None
}

fn rewrite(v: usize, r: &mut Rng) -> (Rewrite, String) {
    let mode = [Mode::Comments, Mode::Minify, Mode::White][v % 3];
    let w = Rewrite { mode, ints: r.chance(1, 2), raw: r.chance(1, 3), docs: r.chance(1, 2) };
    let mut n = format!("{mode:?}");
    for (f, s) in [(w.ints, "numbers"), (w.raw, "raw identifiers"), (w.docs, "documentation")] {
        if f {
            n.push_str(&format!(" {s}"));
        }
    }
    (w, n)
}

fn corpus_job(k: usize, nvar: usize, r: &mut Rng, out: &mut JobOut) {
    let all = corpus();
    for i in 0..PER_JOB {
        let Some(it) = all.get(k * PER_JOB + i) else { break };
        let Some(toks) = lex(&it.src) else {
            out.stat("corpus programs without tokens", 1);
            continue;
        };
        let base = compile(&it.src);
        if let comp::Outcome::Panic(_) = base.outcome {
            // decided by C11
            out.stat("corpus programs which crash", 1);
            continue;
        }
        out.stat(if base.ok().is_some() { "corpus programs accepted" } else { "corpus programs rejected" }, 1);
        let nvar = if base.ok().is_some() { nvar } else { nvar / 2 };
        let first = r.below(3);
        for v in 0..nvar {
            let (mut w, mut name) = rewrite(v + first, r);
            if base.ok().is_none() {
                // documentation and raw identifiers may be what a message is about
                w.docs = false;
                w.raw = false;
                w.ints = false;
                name = format!("{:?}", w.mode);
            }
            let Some((text, at)) = render(&respell(&toks, &w, r), w.mode, r) else {
                out.stat("rewrites dropped", 1);
                continue;
            };
            let var = compile(&text);
            out.evals += 1;
            out.stat(&format!("rewrites: {:?}", w.mode), 1);
            for (f, s) in [(w.ints, "numbers"), (w.raw, "raw identifiers"), (w.docs, "documentation")] {
                if f {
                    out.stat(&format!("rewrites with {s}"), 1);
                }
            }
            if let Some(d) = differs(&base, &var) {
                out.violation(
                    format!("formatting ({name}): {d}"),
                    json!({"source": text, "original": it.src, "from": it.name, "rendered": var.rendered, "original rendered": base.rendered}),
                );
                continue;
            }
            if base.ok().is_none() {
                let (x, y) = (token_spans(&base, &toks), token_spans(&var, &at));
                if x != y {
                    out.violation(
                        format!("formatting ({name}): the errors point at other tokens: {x:?} and {y:?}"),
                        json!({"source": text, "original": it.src, "from": it.name, "rendered": var.rendered, "original rendered": base.rendered}),
                    );
                }
            }
            out.key(&format!("{}{name}", it.src));
            if text.len() < 300 && text.contains("/*") {
                out.sample(format!("{name}: {text:?}"));
            }
        }
    }
}

fn ren_long(n: &str) -> String {
    format!("some_rather_long_prefix_to_{n}_that_is_kept")
}
fn ren_caps(n: &str) -> String {
    format!("X{}", n.to_ascii_uppercase())
}
fn ren_raw(n: &str) -> String {
    format!("_{n}_0")
}

fn styles(r: &mut Rng) -> Vec<(&'static str, Style)> {
    let base = Style::plain();
    let mut v = vec![
        ("all parentheses", Style { parens: 1, ..base.clone() }),
        ("random parentheses", Style { parens: 2, seed: r.next(), ..base.clone() }),
        ("literals", Style { lits: 2, seed: r.next(), ..base.clone() }),
        ("suffixes", Style { suffix_always: true, ..base.clone() }),
        ("annotations", Style { annot: 1, ..base.clone() }),
        ("named arguments", Style { named: 2, seed: r.next(), ..base.clone() }),
        ("everything", Style::full(r.next())),
    ];
    for (n, f) in [("renamed", ren_long as fn(&str) -> String), ("renamed to capitals", ren_caps), ("renamed with underscores", ren_raw)] {
        v.push((n, Style { rename: Some(f), ..base.clone() }));
    }
    v
}

fn prog_job(j: usize, nvar: usize, r: &mut Rng, out: &mut JobOut) {
    let p = super::exprs::mixed_program(j, r);
    let base_st = Style::plain();
    let text = source(&p, &base_st);
    let base = compile(&text);
    let vecs: Vec<_> = p
        .tops
        .iter()
        .map(|t| {
            let ins = inputs(&p, *t, 16, r);
            (*t, vectors(&p, *t, &ins))
        })
        .collect();
    let sim = |d: &Design, st: &Style| -> Vec<Option<String>> {
        vecs.iter()
            .map(|(t, v)| {
                let n = p.funcs[*t].name.clone();
                let n = match st.rename {
                    Some(f) => f(&n),
                    None => n,
                };
                run_vectors(d, &n, &names_of(&p, *t, st), v).map(|m| format!("{} {}", m.what, m.detail))
            })
            .collect()
    };
    let mut all = styles(r);
    r.shuffle(&mut all);
    for (k, (name, st)) in all.into_iter().take(nvar).enumerate() {
        let mut t2 = source(&p, &st);
        let mut name = name.to_string();
        if k % 2 == 1 {
            let (w, n) = rewrite(r.below(3), r);
            if let Some((t, _)) = lex(&t2).and_then(|t| render(&respell(&t, &w, r), w.mode, r)) {
                t2 = t;
                name = format!("{name}, {n}");
            }
        }
        if t2 == text {
            out.stat("same text", 1);
            continue;
        }
        let var = compile(&t2);
        out.evals += 1;
        out.stat(&format!("style: {}", name.split(',').next().unwrap()), 1);
        let mut why = None;
        if base.verdict() != var.verdict() {
            why = differs(&base, &var);
        } else if let (Some(x), Some(y)) = (base.ok(), var.ok()) {
            if normalise(&x.verilog) == normalise(&y.verilog) {
                out.stat("same Verilog", 1);
            } else {
                out.stat("compared by simulation", 1);
                match (Design::parse(&[&x.verilog]), Design::parse(&[&y.verilog])) {
                    (Ok(a), Ok(b)) => {
                        let (ra, rb) = (sim(&a, &base_st), sim(&b, &st));
                        for (a, b) in ra.iter().zip(&rb) {
                            if a.is_some() != b.is_some() {
                                why = Some(format!("one spelling computes another value: {}", a.clone().or(b.clone()).unwrap()));
                            }
                        }
                    }
                    (Err(e), Ok(_)) | (Ok(_), Err(e)) => why = Some(format!("the Verilog of one spelling does not parse: {e}")),
                    _ => {}
                }
            }
        }
        if let Some(d) = why {
            out.violation(
                format!("rewriting ({name}): {d}"),
                json!({"source": t2, "original": text, "rendered": var.rendered, "original rendered": base.rendered}),
            );
        } else {
            out.key(&format!("{text}{name}"));
        }
    }
}

fn seq_job(j: usize, nvar: usize, r: &mut Rng, out: &mut JobOut) {
    use super::seq::*;
    use crate::lang::seq::source;
    use crate::lang::seqgen::SProfile;
    let mut s = SProfile::base();
    let pipes = j % 2 == 0;
    if pipes {
        s.max_clk = 1;
        s.delays = true;
    }
    let sp = program(j, r, s, 4, pipes);
    let base_st = Style::plain();
    let text = source(&sp, &base_st, &sp.tops);
    let base = compile(&text);
    let stim: Vec<_> = sp
        .tops
        .iter()
        .map(|t| {
            let s = stimuli(&sp, *t, 12, r);
            let w = expect(&sp, *t, &s).0;
            (*t, s, w)
        })
        .collect();
    let mut all = styles(r);
    r.shuffle(&mut all);
    for (k, (name, st)) in all.into_iter().take(nvar).enumerate() {
        let mut t2 = source(&sp, &st, &sp.tops);
        let mut name = name.to_string();
        if k % 2 == 1 {
            let (w, n) = rewrite(r.below(3), r);
            if let Some((t, _)) = lex(&t2).and_then(|t| render(&respell(&t, &w, r), w.mode, r)) {
                t2 = t;
                name = format!("{name}, {n}");
            }
        }
        if t2 == text {
            out.stat("same text", 1);
            continue;
        }
        let var = compile(&t2);
        out.evals += 1;
        out.stat(&format!("style: {}", name.split(',').next().unwrap()), 1);
        let mut why = None;
        if base.verdict() != var.verdict() {
            why = differs(&base, &var);
        } else if let (Some(x), Some(y)) = (base.ok(), var.ok()) {
            if normalise(&x.verilog) == normalise(&y.verilog) {
                out.stat("same Verilog", 1);
            } else {
                out.stat("compared by simulation", 1);
                if let (Ok(a), Ok(b)) = (Design::parse(&[&x.verilog]), Design::parse(&[&y.verilog])) {
                    for (t, s, w) in &stim {
                        let (a, b) = (drive(&sp, &base_st, &a, *t, s, w), drive(&sp, &st, &b, *t, s, w));
                        if a.is_some() != b.is_some() {
                            why = Some(format!("one spelling computes another value: {}", a.or(b).unwrap()));
                        }
                    }
                } else {
                    why = Some("the Verilog of a spelling does not parse".into());
                }
            }
        }
        if let Some(d) = why {
            out.violation(
                format!("rewriting ({name}): {d}"),
                json!({"source": t2, "original": text, "rendered": var.rendered, "original rendered": base.rendered}),
            );
        } else {
            out.key(&format!("{text}{name}"));
        }
    }
}

pub fn c13() -> CheckDef {
    fn run(c: &Ctx, j: usize, r: &mut Rng, out: &mut JobOut) {
        let nc = corpus().len().div_ceil(PER_JOB);
        let nvar = if c.thorough { 4 } else { 2 };
        // corpus and generated programs in turn
        let (turn, k) = (j % 3, j / 3);
        if turn < 2 {
            corpus_job((k * 2 + turn) % nc, nvar, r, out)
        } else if k % 2 == 0 {
            seq_job(k / 2, nvar + 1, r, out)
        } else {
            prog_job(k / 2, nvar + 1, r, out)
        }
    }
    CheckDef {
        id: "C13",
        jobs: |t| if t { 16000 } else { 300 },
        run,
        rule: "Programs of the repository's tests, examples and libraries and generated programs are respelled: white space, comments with hostile content, documentation, numbers in other bases and with separators, raw identifiers, minimal, random and full parentheses, named arguments, written out annotations and literal suffixes, renamed identifiers, and combinations of these. The verdict has to be the same, the messages of rejected programs have to be the same and point at the same tokens, and the emitted Verilog has to be the same up to source locations or else compute the same outputs. Non-trivial: every distinct pair of a program and a way to rewrite it.",
        assumptions: &["the rewrites keep the tokens, or are the rewrites named by the property"],
        crash_is_violation: true,
    }
}
