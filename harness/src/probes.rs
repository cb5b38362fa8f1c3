//! Programs which show a genuine defect of the compiler that was recorded rather than repaired.
//! While the defect exists it is reported as a KNOWN-FINDING if known_findings.txt lists it, and
//! as a violation otherwise.
use crate::comp::Opts;
use crate::exec::compile_text;
use crate::runner::JobOut;
use crate::vsim::sim::{structural_check, Sim};
use serde_json::json;

pub enum Want {
    /// the program has to be rejected with an ordinary error
    Rejected,
    /// the program has to be accepted and its Verilog has to elaborate without complaint
    Accepted,
    /// accepted or rejected with an ordinary error, but no panic and no internal error
    NoCrash,
}

pub struct Probe {
    pub prop: &'static str,
    pub id: &'static str,
    pub what: &'static str,
    pub want: Want,
    pub src: &'static str,
    pub passes: &'static [&'static str],
}

/// Some(what happened) if the program is not treated as it has to be
pub fn observe(p: &Probe) -> Option<String> {
    let o = Opts { passes: p.passes.iter().map(|s| s.to_string()).collect(), ..Default::default() };
    let c = compile_text(p.src, &o);
    let v = c.run.verdict();
    let bug = c.run.diags.iter().any(|d| d.bug);
    match p.want {
        Want::Rejected => (v != "rejected" || bug).then(|| format!("{v}{}", if bug { " with an internal error" } else { "" })),
        Want::NoCrash => {
            (v == "panicked" || bug).then(|| format!("{v}: {}", c.run.first_error().lines().next().unwrap_or("").to_string()))
        }
        Want::Accepted => {
            if v != "accepted" {
                return Some(format!("{v}: {}", c.run.first_error().lines().next().unwrap_or("")));
            }
            if let Some(e) = c.syntax_error {
                return Some(format!("the Verilog does not parse: {e}"));
            }
            let d = c.design.unwrap();
            let mut issues = vec![];
            if let Err(e) = Sim::new(&d, "top", &mut issues) {
                return Some(format!("the Verilog does not elaborate: {e}"));
            }
            issues.extend(structural_check(&d));
            issues.first().map(|i| format!("{}: {}", i.kind, i.msg))
        }
    }
}

pub fn listed_edit(prop: &str, id: &str) -> bool {
    listed(prop, id)
}

fn listed(prop: &str, id: &str) -> bool {
    let f = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../known_findings.txt");
    let t = std::fs::read_to_string(f).unwrap_or_default();
    t.lines().any(|l| l.starts_with(&format!("finding: property={prop} id={id} ")))
}

/// something a check observed which is a recorded finding, or else a violation
pub fn finding(prop: &str, id: &str, what: &str, out: &mut JobOut, src: &str) {
    if listed(prop, id) {
        let k = format!("id={id} {what}");
        if !out.known.contains(&k) {
            out.known.push(k);
        }
    } else {
        out.violation(format!("{id}: {what}"), json!({"source": src}));
    }
}

pub fn run(prop: &str, out: &mut JobOut) {
    for p in PROBES.iter().filter(|p| p.prop == prop) {
        out.stat("probes of recorded findings", 1);
        if let Some(w) = observe(p) {
            if listed(p.prop, p.id) {
                out.known.push(format!("id={} {} ({w})", p.id, p.what));
            } else {
                out.violation(format!("{}: {} ({w})", p.id, p.what), json!({"source": p.src, "passes": p.passes}));
            }
        }
    }
}

pub const PROBES: &[Probe] = &[
    Probe {
        prop: "C05",
        id: "nested-block-latency",
        what: "a delayed value bound in a nested block is treated as available at once",
        want: Want::Rejected,
        passes: &[],
        src: "pipeline(1) q(clk: clock, x: uint<8>) -> uint<8> { reg; x }
pipeline(1) top(clk: clock, x: uint<8>, y: uint<8>) -> (bool, uint<8>) {
    let r = { let z = inst(1) q(clk, x); z == y };
    reg;
    (r, y)
}",
    },
];
