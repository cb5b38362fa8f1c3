//! Families of programs: a correct text and edits each of which makes it wrong.
//!
//! `== name` starts a template, `!! old ==> new` is an edit of its first occurrence of old. $W and $V
//! are different numbers, $W1 is W + 1, $2W is two to the power W; `@( e @)` is an expression which may
//! be put into contexts that do not change it.
use crate::comp::{self, Opts, Src};
use crate::rng::Rng;
use crate::runner::JobOut;
use num::{BigInt, One};
use serde_json::json;

pub struct Template {
    pub name: String,
    pub good: String,
    pub edits: Vec<(String, String)>,
}

pub fn parse(text: &str) -> Vec<Template> {
    let mut v: Vec<Template> = vec![];
    for l in text.lines() {
        if let Some(n) = l.strip_prefix("== ") {
            v.push(Template { name: n.to_string(), good: String::new(), edits: vec![] });
        } else if let Some(e) = l.strip_prefix("!! ") {
            let (a, b) = e.split_once(" ==>").unwrap_or_else(|| panic!("{l}"));
            v.last_mut().unwrap().edits.push((a.to_string(), b.strip_prefix(' ').unwrap_or(b).replace("\\n", "\n")));
        } else if let Some(t) = v.last_mut() {
            t.good.push_str(l);
            t.good.push('\n');
        }
    }
    for t in &v {
        for e in &t.edits {
            assert!(t.good.contains(&e.0), "template {}: {} does not occur", t.name, e.0);
        }
    }
    v
}

pub struct Fill {
    w: usize,
    v: usize,
}

impl Fill {
    pub fn random(r: &mut Rng) -> Fill {
        let w = if r.chance(1, 6) { r.range(33, 90) } else { r.range(5, 24) };
        let mut v = w;
        while v == w || v == w + 1 {
            v = match r.below(3) {
                0 => w - 1,
                1 => w + 2,
                _ => r.range(5, 40),
            };
        }
        Fill { w, v }
    }
    pub fn text(&self, t: &str) -> String {
        t.replace("$2W", &(BigInt::one() << self.w).to_string())
            .replace("$W1", &(self.w + 1).to_string())
            .replace("$W", &self.w.to_string())
            .replace("$V", &self.v.to_string())
    }
}

fn wrap(e: &str, r: &mut Rng) -> String {
    let e = e.to_string();
    match r.below(9) {
        0 => format!("({e})"),
        1 => format!("{{ let q_ = {e}; q_ }}"),
        2 => format!("(true, {e}).1"),
        3 => format!("if true {{ {e} }} else {{ {e} }}"),
        4 => format!("match (false, true) {{ (true, _) => {e}, _ => {e} }}"),
        5 => format!("{{ let [q_, _] = [{e}; 2]; q_ }}"),
        6 => format!("{{ let (_, q_) = (false, {e}); {{ q_ }} }}"),
        _ => e,
    }
}

/// resolve @( @), innermost first
pub fn contexts(t: &str, r: &mut Rng) -> String {
    let mut s = t.to_string();
    while let Some(close) = s.find("@)") {
        let open = s[..close].rfind("@(").expect("@(");
        let w = wrap(&s[open + 2..close], r);
        s = format!("{}{w}{}", &s[..open], &s[close + 2..]);
    }
    s
}

fn one(t: &str, o: &Opts) -> comp::Run {
    comp::compile(&[Src::single(t)], o)
}

/// Some(why) if the program is not rejected properly
fn check_bad(text: &str, out: &mut JobOut) -> Option<(String, String)> {
    let run = one(text, &Opts::default());
    out.evals += 1;
    if run.verdict() != "rejected" {
        return Some((format!("is {}", run.verdict()), run.rendered));
    }
    if run.diags.iter().all(|d| !d.error || d.bug) {
        out.stat("rejected with an internal error only", 1);
    }
    None
}

/// The template with all its edits. `part` of `parts` edits are tried.
pub fn test(prop: &str, t: &Template, part: usize, parts: usize, r: &mut Rng, out: &mut JobOut) {
    let f = Fill::random(r);
    let good = contexts(&f.text(&t.good), r);
    let run = one(&good, &Opts::default());
    out.evals += 1;
    if run.verdict() != "accepted" {
        out.violation(
            format!("{}: correct program {}: {}", t.name, run.verdict(), run.first_error()),
            json!({"source": good, "rendered": run.rendered}),
        );
        return;
    }
    out.key(&good);
    out.stat("correct programs", 1);
    for (k, (a, b)) in t.edits.iter().enumerate() {
        if k % parts != part {
            continue;
        }
        let bad = contexts(&f.text(&t.good.replacen(a.as_str(), b, 1)), r);
        let id = format!("{}/{}", t.name.replace(' ', "-"), k);
        match check_bad(&bad, out) {
            None => {
                out.key(&bad);
                out.stat(&format!("rejected: {}", t.name), 1);
            }
            Some((w, rendered)) => {
                let what = format!("{}: program with {a:?} as {b:?} {w}", t.name);
                if crate::probes::listed_edit(prop, &id) {
                    let k = format!("id={id} {what}");
                    if !out.known.contains(&k) {
                        out.known.push(k);
                    }
                } else {
                    out.violation(format!("[{id}] {what}"), json!({"source": bad, "rendered": rendered}));
                }
            }
        }
    }
}
