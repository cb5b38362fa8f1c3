//! Runs emitted designs and compares them with reference values.
use crate::bits::LV;
use crate::comp::{self, Opts, Run, Src};
use crate::lang::interp::Interp;
use crate::lang::print::{Printer, Style};
use crate::lang::*;
use crate::rng::Rng;
use crate::runner::JobOut;
use crate::vsim::sim::Sim;
use crate::vsim::{Design, Issue};
use serde_json::{json, Value};

/// every defined bit of `want` agrees with `got`
pub fn agrees(want: &LV, got: &LV) -> bool {
    if want.w != got.w {
        return false;
    }
    for i in 0..want.w {
        use crate::bits::B;
        match want.bit(i) {
            B::B0 | B::B1 => {
                if want.bit(i) != got.bit(i) {
                    return false;
                }
            }
            _ => {}
        }
    }
    true
}
pub fn defined_bits(v: &LV) -> usize {
    use crate::bits::B;
    (0..v.w).filter(|i| matches!(v.bit(*i), B::B0 | B::B1)).count()
}

#[derive(Debug, Clone)]
pub struct Vector {
    pub ins: Vec<LV>,
    pub want: LV,
    pub asserts_failed: bool,
}

/// inputs for a function: all of them when few, otherwise random and edge values
pub fn inputs(p: &Prog, f: usize, n: usize, r: &mut Rng) -> Vec<Vec<V>> {
    let fun = &p.funcs[f];
    let tys: Vec<Ty> = fun.params.iter().map(|v| p.vars[*v].ty.clone()).collect();
    let total = p.defs.count(&Ty::Tuple(tys.clone()));
    if total <= n as f64 {
        return p
            .defs
            .all_values(&Ty::Tuple(tys))
            .into_iter()
            .map(|v| match v {
                V::Tup(v) => v,
                _ => unreachable!(),
            })
            .collect();
    }
    (0..n).map(|_| tys.iter().map(|t| p.defs.random_value(t, r)).collect()).collect()
}

pub fn vectors(p: &Prog, f: usize, ins: &[Vec<V>]) -> Vec<Vector> {
    let fun = &p.funcs[f];
    let it = Interp::new(p);
    ins.iter()
        .map(|a| {
            *it.fuel.borrow_mut() = 300_000;
            let v = it.call(f, &[], &[], a.clone());
            let want = if *it.fuel.borrow() == 0 { LV::xs(p.defs.size(&fun.ret)) } else { p.defs.encode(&fun.ret, &v) };
            Vector {
                ins: a.iter().zip(&fun.params).map(|(v, x)| p.defs.encode(&p.vars[*x].ty, v)).collect(),
                want,
                asserts_failed: *it.failed_asserts.borrow() > 0,
            }
        })
        .collect()
}

#[derive(Debug, Clone)]
pub struct Mismatch {
    pub what: String,
    pub detail: Value,
}

pub fn names_of(p: &Prog, f: usize, st: &Style) -> Vec<String> {
    p.funcs[f]
        .params
        .iter()
        .map(|v| {
            let n = &p.vars[*v].name;
            match st.rename {
                Some(f) => f(n),
                None => n.clone(),
            }
        })
        .collect()
}

/// Drive the top with the vectors. None = all agree.
pub fn run_vectors(d: &Design, top: &str, ports: &[String], vs: &[Vector]) -> Option<Mismatch> {
    let mut issues: Vec<Issue> = vec![];
    let mut sim = match Sim::new(d, top, &mut issues) {
        Ok(s) => s,
        Err(e) => {
            return Some(Mismatch { what: format!("module {top} cannot be elaborated: {e}"), detail: json!({}) });
        }
    };
    for (k, v) in vs.iter().enumerate() {
        for (n, x) in ports.iter().zip(&v.ins) {
            let pn = format!("{n}_i");
            if x.w == 0 {
                continue;
            }
            if !sim.has_port(&pn) {
                return Some(Mismatch { what: format!("{top}: no input port {pn}"), detail: json!({}) });
            }
            sim.set(&pn, x);
        }
        if let Err(e) = sim.settle() {
            return Some(Mismatch { what: format!("{top}: simulation does not settle: {e}"), detail: json!({"vector": k}) });
        }
        if v.want.w == 0 {
            continue;
        }
        if !sim.has_port("output__") {
            return Some(Mismatch { what: format!("{top}: no output port"), detail: json!({}) });
        }
        let got = sim.get("output__");
        if !agrees(&v.want, &got) {
            return Some(Mismatch {
                what: format!("{top}: output differs from the reference value"),
                detail: json!({
                    "inputs": ports.iter().zip(&v.ins).map(|(n, x)| format!("{n}={}", x.to_bin())).collect::<Vec<_>>(),
                    "expected": v.want.to_bin(), "got": got.to_bin()}),
            });
        }
    }
    None
}

/// program with only the given top function (helpers stay)
pub fn with_tops(p: &Prog, tops: &[usize]) -> Prog {
    let mut q = p.clone();
    // functions are kept in place: drop bodies of other tops by removing them from printing
    q.tops = tops.to_vec();
    q
}

pub fn source(p: &Prog, st: &Style) -> String {
    let pr = Printer::new(p, st.clone());
    let mut o = pr.adts();
    o.push_str(&pr.traits());
    for i in pr.impls() {
        o.push_str(&i);
    }
    for (i, f) in p.funcs.iter().enumerate() {
        if f.in_impl {
            continue;
        }
        if f.name.starts_with("top") && !p.tops.contains(&i) {
            continue;
        }
        o.push_str(&pr.func(i));
    }
    o
}

pub struct Compiled {
    pub run: Run,
    pub design: Option<Design>,
    pub syntax_error: Option<String>,
}

pub fn compile_text(text: &str, o: &Opts) -> Compiled {
    let run = comp::compile(&[Src::single(text)], o);
    let (mut design, mut syntax_error) = (None, None);
    if let Some(s) = run.ok() {
        match Design::parse(&[&s.verilog]) {
            Ok(d) => design = Some(d),
            Err(e) => syntax_error = Some(e),
        }
    }
    Compiled { run, design, syntax_error }
}

/// Compile and test the tops of a program; calls `bad` for each failing top.
/// Returns number of (unit, vector) comparisons.
pub fn test_prog(
    p: &Prog,
    st: &Style,
    opts: &Opts,
    nvec: usize,
    r: &mut Rng,
    out: &mut JobOut,
    shrink: bool,
    label: &str,
) {
    let text = source(p, st);
    if let Ok(d) = std::env::var("MON_DUMP") {
        let _ = std::fs::write(d, &text);
    }
    let vecs: Vec<(usize, Vec<Vector>)> = p
        .tops
        .iter()
        .map(|t| {
            let ins = inputs(p, *t, nvec, r);
            (*t, vectors(p, *t, &ins))
        })
        .collect();
    out.stat("programs", 1);
    let c = compile_text(&text, opts);
    if c.design.is_none() {
        // isolate
        let mut any = false;
        if p.tops.len() > 1 {
            for (t, v) in &vecs {
                let q = with_tops(p, &[*t]);
                let c = compile_text(&source(&q, st), opts);
                if let Some(d) = &c.design {
                    check_unit(p, st, opts, *t, v, d, out, shrink, label);
                } else {
                    any = true;
                    fail_unit(p, st, opts, *t, v, out, shrink, label, None);
                }
            }
        }
        if !any {
            let what = match &c.syntax_error {
                Some(e) => format!("{label}: emitted Verilog does not parse: {e}"),
                None => format!("{label}: valid program {}: {}", c.run.verdict(), c.run.first_error()),
            };
            out.violation(what, json!({"source": text, "passes": opts.passes, "rendered": c.run.rendered}));
        }
        return;
    }
    let d = c.design.unwrap();
    for (t, v) in &vecs {
        check_unit(p, st, opts, *t, v, &d, out, shrink, label);
    }
}

fn check_unit(
    p: &Prog,
    st: &Style,
    opts: &Opts,
    t: usize,
    v: &[Vector],
    d: &Design,
    out: &mut JobOut,
    shrink: bool,
    label: &str,
) {
    let name = p.funcs[t].name.clone();
    let name = match st.rename {
        Some(f) => f(&name),
        None => name,
    };
    let m = run_vectors(d, &name, &names_of(p, t, st), v);
    out.evals += v.len() as u64;
    out.stat("units", 1);
    out.stat("bits compared", v.iter().map(|v| defined_bits(&v.want) as u64).sum());
    match m {
        None => {
            let mut outs: Vec<String> = v.iter().map(|v| v.want.to_bin()).collect();
            outs.sort();
            outs.dedup();
            if outs.len() >= 2 || v.len() <= 1 {
                let pr = Printer::new(p, Style::plain());
                let s = pr.func(t);
                out.key(&s);
                if s.len() < 600 {
                    out.sample(format!("{s}// {} input vectors, e.g. {:?} -> {}", v.len(), v.first().map(|v| v.ins.iter().map(|i| i.to_bin()).collect::<Vec<_>>()), v.first().map(|v| v.want.to_bin()).unwrap_or_default()));
                }
            }
        }
        Some(m) => fail_unit(p, st, opts, t, v, out, shrink, label, Some(m)),
    }
}

fn unit_fails(p: &Prog, st: &Style, opts: &Opts, t: usize, ins: &[Vec<V>]) -> Option<String> {
    let q = with_tops(p, &[t]);
    let c = compile_text(&source(&q, st), opts);
    if let Some(e) = c.syntax_error {
        return Some(format!("does not parse: {e}"));
    }
    let Some(d) = c.design else {
        return Some(format!("{}: {}", c.run.verdict(), c.run.first_error()));
    };
    let name = p.funcs[t].name.clone();
    let name = match st.rename {
        Some(f) => f(&name),
        None => name,
    };
    let vs = vectors(&q, t, ins);
    run_vectors(&d, &name, &names_of(&q, t, st), &vs).map(|m| format!("{} {}", m.what, m.detail))
}

fn fail_unit(
    p: &Prog,
    st: &Style,
    opts: &Opts,
    t: usize,
    v: &[Vector],
    out: &mut JobOut,
    shrink: bool,
    label: &str,
    m: Option<Mismatch>,
) {
    let ins: Vec<Vec<V>> = v
        .iter()
        .map(|v| v.ins.iter().zip(&p.funcs[t].params).map(|(b, x)| p.defs.decode(&p.vars[*x].ty, b)).collect())
        .collect();
    let mut q = with_tops(p, &[t]);
    let Some(mut why) = unit_fails(&q, st, opts, t, &ins) else {
        if let Some(m) = m {
            out.violation(
                format!("{label}: {} (only together with other units)", m.what),
                json!({"source": source(p, st), "detail": m.detail}),
            );
        }
        return;
    };
    let class = |s: &str| -> String { s.split_whitespace().next().unwrap_or("").to_string() };
    if shrink && std::env::var("MON_NOSHRINK").is_err() {
        let c0 = class(&why);
        let mut budget = 150;
        let mut progress = true;
        while progress && budget > 0 {
            progress = false;
            let body = q.funcs[t].body.clone().unwrap();
            for cand in crate::lang::shrink::candidates(&q, &body) {
                if budget == 0 {
                    break;
                }
                budget -= 1;
                let mut q2 = q.clone();
                q2.funcs[t].body = Some(cand);
                if let Some(w) = unit_fails(&q2, st, opts, t, &ins) {
                    if class(&w) == c0 {
                        why = w;
                        q = q2;
                        progress = true;
                        break;
                    }
                }
            }
        }
    }
    let text = source(&q, st);
    let c = compile_text(&text, opts);
    out.violation(
        format!("{label}: {why}"),
        json!({"source": text, "passes": opts.passes, "rendered": c.run.rendered, "original": source(&with_tops(p, &[t]), st)}),
    );
}
