//! C09: the emitted Verilog parses and is structurally well formed, whatever the names in the program.
use super::form::corpus;
use super::robust::shrink_text;
use crate::comp::Opts;
use crate::exec::{compile_text, inputs, names_of, run_vectors, source, vectors, Compiled};
use crate::lang::print::Style;
use crate::lang::seqgen::SProfile;
use crate::rng::Rng;
use crate::runner::{CheckDef, Ctx, JobOut};
use crate::spadelex::*;
use crate::vsim::sim::structural_check;
use serde_json::json;
use std::collections::BTreeSet;

const PASSES: &[&str] = &["enum_clock_gating", "split_compound_regs"];

/// what is wrong with the emitted Verilog: kind and description
pub fn faults(c: &Compiled, text: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Some(e) = &c.syntax_error {
        v.push(("syntax".into(), format!("the emitted Verilog does not parse: {e}")));
    }
    if let Some(d) = &c.design {
        for i in structural_check(d) {
            // indices of the program that are out of range are legal and give X
            if i.kind == "select-out-of-range" {
                continue;
            }
            if i.kind == "unknown-module" && external(&i.msg, text) {
                continue;
            }
            v.push((i.kind.to_string(), format!("module {}: {}: {}", i.module, i.kind, i.msg)));
        }
    }
    v
}

/// the instantiated module is declared as external in the program or the libraries
fn external(msg: &str, text: &str) -> bool {
    let Some(m) = msg.split("unknown module '").nth(1) else { return false };
    let m = m.trim_end_matches('\'').trim();
    let last = m.rsplit("::").next().unwrap_or(m);
    let last = last.split('[').next().unwrap_or(last);
    let decl = |t: &str| {
        t.contains("extern")
            && (t.contains(&format!("fn {last}")) || t.contains(&format!("entity {last}")) || t.contains(&format!(") {last}")) || t.contains(last))
    };
    decl(text)
}

/// names which might clash with what the compiler or Verilog uses
const HOSTILE: &[&str] = &[
    "reg_", "logic", "wire", "module", "endmodule", "begin", "end", "always", "always_ff", "always_comb", "assign", "output",
    "input", "inout_", "posedge", "negedge", "case", "endcase", "default", "function", "task", "initial", "integer", "real",
    "generate", "genvar", "parameter", "localparam", "signed", "unsigned", "time", "bit_", "byte", "int_", "void", "string",
    "property", "sequence", "assert_", "assume", "cover", "final", "unique", "priority", "packed", "typedef", "table", "wand",
    "tri0", "supply0", "xor", "nand", "buf", "not", "or", "and", "edge", "event", "force", "release", "fork", "join",
    "output__", "output_", "top", "s1", "s0", "clk_i", "rst_i", "e_0", "e_1", "e_2", "_e_0", "_e_1", "_e_2", "_e_3", "_e_10",
    "_0", "__", "___", "x_i", "x_o", "x_n1", "x_n2", "x_mut", "x_n1_i", "s1_x", "s2_x", "i_i", "n1", "mut_", "_i", "_o",
    "valid", "ready", "memory", "m_", "valid_0", "VCD_output_file_only_for_tests", "SYNTHESIS", "__TOP__", "TOP_",
    "Some_", "automatic", "do", "return_", "while_", "for_", "if_", "let_", "r_mux", "x_mem", "a_e_1", "i0", "p0", "$x",
];
/// a name built from another one in a way the compiler might build names
fn derived(x: &str, r: &mut Rng) -> String {
    match r.below(22) {
        0 => format!("{x}_i"),
        1 => format!("{x}_o"),
        2 => format!("{x}_mut"),
        3 => format!("{x}_n{}", r.below(4)),
        4 => format!("s{}_{x}", r.below(4)),
        5 => format!("{x}_n{}_i", r.below(3)),
        6 => format!("i_{x}"),
        7 => format!("_{x}"),
        8 => format!("{x}_"),
        9 => format!("{x}__"),
        10 if r.bool() => format!("{x}_{}", r.below(3)),
        10 => format!("__{x}"),
        11 => format!("{x}_0"),
        12 => format!("_e_{}", r.below(30)),
        13 => format!("{x}_s{}", r.below(4)),
        14 => format!("n{}_{x}", r.below(3)),
        15 => format!("{x}{}", r.below(3)),
        16 => format!("{x}_mem"),
        17 => format!("{x}_next"),
        18 => format!("{x}_i_n1"),
        19 => format!("s{}_{x}_n1", r.below(3)),
        20 => format!("p_{x}"),
        _ => r.pick(HOSTILE).to_string(),
    }
}

/// names the program itself gives to values
fn bound(t: &[Tok]) -> Vec<String> {
    let mut v = BTreeSet::new();
    for (i, x) in t.iter().enumerate() {
        if x.k != K::Ident || KEYWORDS.contains(&x.t.as_str()) || x.t.starts_with(char::is_uppercase) {
            continue;
        }
        let next = t.get(i + 1).map(|x| x.t.as_str()).unwrap_or("");
        let prev = if i > 0 { t[i - 1].t.as_str() } else { "" };
        if prev == "let" || prev == "decl" || prev == "inst" || (prev == ")" && next == ":") || (matches!(prev, "(" | ",") && next == ":") {
            v.insert(x.t.clone());
        }
        if matches!(prev, "fn" | "entity" | "port" | "mod") {
            v.insert(x.t.clone());
        }
        if prev == ")" && i > 2 && (next == "=" || next == "reset") {
            v.insert(x.t.clone());
        }
        if matches!(prev, "(" | ",") && matches!(next, ")" | ",") {
            v.insert(x.t.clone());
        }
    }
    v.into_iter().filter(|n| n != "self" && n != "_").collect()
}

/// some names of the program replaced consistently
fn rename(t: &[Tok], r: &mut Rng) -> (Vec<Tok>, String) {
    let names = bound(t);
    let mut t = t.to_vec();
    let mut how = vec![];
    if names.is_empty() {
        return (t, String::new());
    }
    for _ in 0..r.range(1, 4) {
        let from = r.pick(&names).clone();
        // ports marked with no_mangle are called what the user wants
        let verbatim = t.iter().any(|x| x.t == "no_mangle");
        let to = if r.chance(1, 4) && !verbatim { r.pick(HOSTILE).to_string() } else { derived(r.pick(&names), r) };
        if verbatim && HOSTILE.contains(&to.as_str()) {
            continue;
        }
        if KEYWORDS.contains(&to.as_str()) || t.iter().any(|x| x.t == to) && r.chance(2, 3) {
            continue;
        }
        for x in t.iter_mut() {
            if x.k == K::Ident && x.t == from {
                x.t = to.clone();
            }
        }
        how.push(format!("{from} -> {to}"));
    }
    (t, how.join(", "))
}

fn text(t: &[Tok]) -> String {
    super::robust::text(t)
}

fn opts(r: &mut Rng) -> Opts {
    let mut o = Opts::default();
    for p in PASSES {
        if r.chance(1, 3) {
            o.passes.push(p.to_string());
        }
    }
    o
}

fn observe(t: &str, o: &Opts, how: &str, out: &mut JobOut) -> Option<Compiled> {
    crate::runner::current(t);
    let c = compile_text(t, o);
    out.evals += 1;
    out.stat(&format!("{} ({})", c.run.verdict(), how.split(':').next().unwrap()), 1);
    if c.run.ok().is_none() {
        return None;
    }
    if let Some(d) = &c.design {
        out.stat("modules checked", d.order.len() as u64);
        for m in &d.order {
            out.key(&format!("{m} {}", d.modules[m].items.len()));
        }
    }
    let f = faults(&c, t);
    let mut seen: Vec<String> = vec![];
    for (k, w) in f {
        if seen.contains(&k) {
            continue;
        }
        seen.push(k.clone());
        let small = if std::env::var("MON_NOSHRINK").is_ok() {
            t.to_string()
        } else {
            shrink_text(t, 50, &|s| faults(&compile_text(s, o), s).iter().any(|x| x.0 == k))
        };
        let w2 = faults(&compile_text(&small, o), &small).into_iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(w);
        out.violation(format!("[{k}] {how}: {w2}"), json!({"source": small, "original": t, "passes": o.passes}));
    }
    Some(c)
}

/// user names of generated programs become names that look generated or are Verilog's
fn hostile_name<const K: usize>(n: &str) -> String {
    // one to one: the number in the name selects
    let h: usize = n.bytes().fold(K * 7 + 3, |h, b| h.wrapping_mul(31).wrapping_add(b as usize));
    let upper = n.starts_with(char::is_uppercase);
    if upper {
        return n.to_string();
    }
    match (h >> 3) % 9 {
        0 => format!("{n}_i"),
        1 => format!("{n}_n1"),
        2 => format!("s1_{n}"),
        3 => format!("{n}_mut"),
        4 => format!("_e_{n}"),
        5 => format!("{n}_o"),
        6 => format!("_{n}"),
        _ => n.to_string(),
    }
}

pub fn c09() -> CheckDef {
    fn run(c: &Ctx, j: usize, r: &mut Rng, out: &mut JobOut) {
        let items = corpus();
        let njobs = (c09().jobs)(c.thorough);
        // every program of the corpus, renamed
        let per = if c.thorough { items.len().div_ceil(njobs) * 12 } else { items.len().div_ceil(njobs) };
        for k in 0..per {
            let it = &items[(j * per + k) % items.len()];
            if c.thorough || r.chance(1, 3) {
                observe(&it.src, &opts(r), "corpus", out);
            }
            let Some(t) = lex(&it.src) else { continue };
            for _ in 0..2 {
                let (u, how) = rename(&t, r);
                observe(&text(&u), &opts(r), &format!("corpus renamed: {how}"), out);
            }
        }
        // generated programs
        for k in 0..2 {
            let f: Option<fn(&str) -> String> = match r.below(4) {
                0 => None,
                1 => Some(hostile_name::<1>),
                2 => Some(hostile_name::<2>),
                _ => Some(hostile_name::<3>),
            };
            let how = if f.is_some() { "generated with hostile names" } else { "generated" };
            if k == 0 {
                let p = super::exprs::mixed_program(j, r);
                let st = Style { rename: f, ..super::exprs::style(j, r) };
                let t = source(&p, &st);
                if let Some(c) = observe(&t, &opts(r), how, out) {
                    let Some(d) = &c.design else { continue };
                    for &top in &p.tops {
                        let ins = inputs(&p, top, 6, r);
                        let vs = vectors(&p, top, &ins);
                        let name = f.map(|f| f(&p.funcs[top].name)).unwrap_or(p.funcs[top].name.clone());
                        out.stat("units simulated", 1);
                        if let Some(m) = run_vectors(d, &name, &names_of(&p, top, &st), &vs) {
                            out.violation(format!("{how}: {}", m.what), json!({"source": t, "mismatch": m.detail}));
                        }
                    }
                }
                if let Some(toks) = lex(&t) {
                    let (u, h) = rename(&toks, r);
                    observe(&text(&u), &opts(r), &format!("generated renamed: {h}"), out);
                }
            } else {
                let pipes = r.bool();
                let sp = super::seq::program(j, r, SProfile::base(), 2, pipes);
                let st = Style { rename: f, ..super::exprs::style(j, r) };
                let t = crate::lang::seq::source(&sp, &st, &sp.tops);
                if let Some(c) = observe(&t, &opts(r), how, out) {
                    let Some(d) = &c.design else { continue };
                    for (i, _) in sp.tops.iter().enumerate() {
                        let steps = super::seq::stimuli(&sp, sp.tops[i], 10, r);
                        let (w, _) = super::seq::expect(&sp, sp.tops[i], &steps);
                        out.stat("units simulated", 1);
                        if let Some(m) = super::seq::drive(&sp, &st, d, sp.tops[i], &steps, &w) {
                            out.violation(format!("{how}: {m}"), json!({"source": t}));
                        }
                    }
                }
                if let Some(toks) = lex(&t) {
                    let (u, h) = rename(&toks, r);
                    observe(&text(&u), &opts(r), &format!("generated renamed: {h}"), out);
                }
            }
        }
    }
    CheckDef {
        id: "C09",
        jobs: |t| if t { 2000 } else { 100 },
        run,
        rule: "the emitted Verilog of every accepted program parses, declares every identifier once and before use, connects every port of every instance once with its width, instantiates only emitted or external modules, and drives no bit twice; programs with hostile names compute the reference values",
        assumptions: &["the parser and elaborator of the harness know the rules of Verilog", "distinct counts the different modules seen"],
        crash_is_violation: false,
    }
}
