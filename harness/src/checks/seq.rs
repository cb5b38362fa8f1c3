//! C04, C05, C08: cycle accurate comparison of stateful units with the reference model.
use crate::bits::LV;
use crate::comp::{self, Opts};
use crate::exec::{agrees, compile_text, defined_bits};
use crate::lang::gen::Profile;
use crate::lang::interp::Interp;
use crate::lang::print::{Printer, Style};
use crate::lang::seq::*;
use crate::lang::seqgen::*;
use crate::lang::*;
use crate::rng::Rng;
use crate::runner::{CheckDef, Ctx, JobOut};
use crate::vsim::sim::Sim;
use crate::vsim::{Design, Issue};
use serde_json::json;

/// what happens in one step: new inputs, then the clocks which rise together
#[derive(Clone, Debug)]
pub struct Step {
    pub ins: Vec<V>,
    pub rise: Vec<bool>,
}

/// expected output after new inputs and after the edge
pub struct Want {
    pub before: LV,
    pub after: LV,
}

pub fn stimuli(sp: &SeqProg, top: usize, n: usize, r: &mut Rng) -> Vec<Step> {
    let ent = &sp.ents[top];
    let tys: Vec<Ty> = ent.ins.iter().map(|v| sp.p.vars[*v].ty.clone()).collect();
    let mut cur: Vec<V> = tys.iter().map(|t| sp.p.defs.random_value(t, r)).collect();
    let mut out = vec![];
    for _ in 0..n {
        for (c, t) in cur.iter_mut().zip(&tys) {
            if r.chance(3, 4) {
                *c = sp.p.defs.random_value(t, r);
            }
        }
        let mut rise: Vec<bool> = (0..ent.nclk).map(|_| r.chance(2, 3)).collect();
        if ent.nclk == 1 {
            rise[0] = true;
        }
        out.push(Step { ins: cur.clone(), rise });
    }
    out
}

pub fn expect(sp: &SeqProg, top: usize, steps: &[Step]) -> (Vec<Want>, u64) {
    let it = Interp::new(&sp.p);
    let mut s = sp.new_inst(top);
    let t = &sp.ents[top].out.ty;
    let mut out = vec![];
    for st in steps {
        *it.fuel.borrow_mut() = 3_000_000;
        let a = sp.eval(&it, &mut s, &st.ins);
        sp.edge(&it, &mut s, &st.rise);
        let b = sp.eval(&it, &mut s, &st.ins);
        let dead = *it.fuel.borrow() == 0;
        let enc = |v: &V| if dead { LV::xs(sp.p.defs.size(t)) } else { sp.p.defs.encode(t, v) };
        out.push(Want { before: enc(&a), after: enc(&b) });
    }
    let f = *it.failed_asserts.borrow();
    (out, f)
}

pub fn drive(sp: &SeqProg, st: &Style, d: &Design, top: usize, steps: &[Step], wants: &[Want]) -> Option<String> {
    let ent = &sp.ents[top];
    let id = |n: &str| match st.rename {
        Some(f) => f(n),
        None => n.to_string(),
    };
    let name = id(&ent.name);
    let mut issues: Vec<Issue> = vec![];
    let mut sim = match Sim::new(d, &name, &mut issues) {
        Ok(s) => s,
        Err(e) => return Some(format!("elaborate: module {name}: {e}")),
    };
    let clks: Vec<String> = (0..ent.nclk).map(|i| format!("{}_i", id(&clk_name(i)))).collect();
    for c in &clks {
        if !sim.has_port(c) {
            return Some(format!("port: {name}: no input port {c}"));
        }
        sim.set(c, &LV::from_bool(false));
    }
    let ports: Vec<String> = ent.ins.iter().map(|v| format!("{}_i", id(&sp.p.vars[*v].name))).collect();
    for (k, (s, w)) in steps.iter().zip(wants).enumerate() {
        for ((p, v), x) in ports.iter().zip(&s.ins).zip(&ent.ins) {
            let b = sp.p.defs.encode(&sp.p.vars[*x].ty, v);
            if b.w == 0 {
                continue;
            }
            if !sim.has_port(p) {
                return Some(format!("port: {name}: no input port {p}"));
            }
            sim.set(p, &b);
        }
        let mut look = |sim: &mut Sim, want: &LV, when: &str| -> Option<String> {
            if let Err(e) = sim.settle() {
                return Some(format!("settle: {name}: simulation does not settle: {e}"));
            }
            let got = sim.get("output__");
            if !agrees(want, &got) {
                return Some(format!(
                    "output: {name}: {when} {k}: expected {} got {}; inputs {:?} rising {:?}",
                    want.to_bin(),
                    got.to_bin(),
                    ports.iter().zip(&s.ins).zip(&ent.ins).map(|((p, v), x)| format!("{p}={}", sp.p.defs.encode(&sp.p.vars[*x].ty, v).to_bin())).collect::<Vec<_>>(),
                    s.rise
                ));
            }
            None
        };
        if !sim.has_port("output__") {
            return Some(format!("port: {name}: no output port"));
        }
        if let Some(m) = look(&mut sim, &w.before, "before edge") {
            return Some(m);
        }
        for (c, r) in clks.iter().zip(&s.rise) {
            if *r {
                sim.set(c, &LV::from_bool(true));
            }
        }
        if let Some(m) = look(&mut sim, &w.after, "after edge") {
            return Some(m);
        }
        for c in &clks {
            sim.set(c, &LV::from_bool(false));
        }
        if let Some(m) = look(&mut sim, &w.after, "after falling edge") {
            return Some(m);
        }
    }
    None
}

fn fails(sp: &SeqProg, st: &Style, o: &Opts, top: usize, steps: &[Step]) -> Option<String> {
    let c = compile_text(&source(sp, st, &[top]), o);
    if let Some(e) = c.syntax_error {
        return Some(format!("parse: emitted Verilog does not parse: {e}"));
    }
    let Some(d) = c.design else {
        return Some(format!("{}: valid program {}: {}", c.run.verdict(), c.run.verdict(), c.run.first_error()));
    };
    let (w, _) = expect(sp, top, steps);
    drive(sp, st, &d, top, steps, &w)
}

fn zero(p: &Prog, t: &Ty) -> Option<V> {
    let mut r = Rng::new(1);
    let _ = (p, &mut r);
    Some(match t {
        Ty::Bool => V::Bool(false),
        Ty::Int(_) | Ty::UInt(_) => V::Int(0.into()),
        Ty::Tuple(ts) => V::Tup(ts.iter().map(|t| zero(p, t)).collect::<Option<_>>()?),
        Ty::Array(t, n) => V::Tup((0..n.c()).map(|_| zero(p, t)).collect::<Option<_>>()?),
        Ty::Adt(..) => V::En(0, p.defs.fields(t, 0).iter().map(|f| zero(p, &f.1)).collect::<Option<_>>()?),
        _ => return None,
    })
}

fn uses(sp: &SeqProg, e: usize) -> Vec<VarId> {
    let ent = &sp.ents[e];
    let mut u = vec![];
    fn walk(e: &E, u: &mut Vec<VarId>) {
        if let K::Ext(_, k) = &e.k {
            if (1_000_000..900_000_000).contains(k) {
                u.push(k % 1_000_000);
            }
        }
        for c in crate::lang::shrink::children(e) {
            walk(c, u);
        }
    }
    for it in &ent.items {
        for e in it.k.exprs() {
            crate::lang::shrink::used_in(e, &mut u);
            walk(e, &mut u);
        }
    }
    crate::lang::shrink::used_in(&ent.out, &mut u);
    walk(&ent.out, &mut u);
    u
}

/// smaller programs, most drastic first
fn smaller(sp: &SeqProg, top: usize) -> Vec<SeqProg> {
    let mut out = vec![];
    // drop output components
    if let K::Tup(es) = &sp.ents[top].out.k {
        if es.len() > 1 {
            for i in 0..es.len() {
                let mut q = sp.clone();
                let mut es = es.clone();
                es.remove(i);
                if es.iter().map(|e| sp.p.defs.size(&e.ty)).sum::<usize>() == 0 {
                    continue;
                }
                q.ents[top].out = E { ty: Ty::Tuple(es.iter().map(|e| e.ty.clone()).collect()), k: K::Tup(es) };
                out.push(q);
            }
        }
    }
    for e in needed(sp, &[top]) {
        let u = uses(sp, e);
        for (i, it) in sp.ents[e].items.iter().enumerate().rev() {
            let mut vs = it.k.pat_vars();
            if let Item::Decl(v) = &it.k {
                vs.push(*v);
            }
            if matches!(it.k, Item::Stage(_)) {
                continue;
            }
            let own: Vec<VarId> = {
                let mut w = vec![];
                for e in it.k.exprs() {
                    crate::lang::shrink::used_in(e, &mut w);
                }
                w
            };
            let outside = |v: &VarId| u.iter().filter(|x| *x == v).count() > own.iter().filter(|x| *x == v).count();
            if vs.iter().any(outside) {
                continue;
            }
            if let Item::Mem { .. } = &it.k {
                if sp.ents[e].items.iter().any(|x| matches!(&x.k, Item::MemRead{mem,..} if *mem == i)) {
                    continue;
                }
            }
            if matches!(it.k, Item::Label(_)) {
                continue;
            }
            // a declared register keeps its declaration
            if matches!(&it.k, Item::Reg{..}) && sp.ents[e].items.iter().any(|x| matches!(&x.k, Item::Decl(v) if vs.contains(v))) {
                continue;
            }
            let mut q = sp.clone();
            q.ents[e].items.remove(i);
            for x in q.ents[e].items.iter_mut() {
                if let Item::MemRead { mem, .. } = &mut x.k {
                    if *mem > i {
                        *mem -= 1;
                    }
                }
            }
            out.push(q);
        }
        for a in 0..sp.ents[e].attrs.len() {
            let mut q = sp.clone();
            q.ents[e].attrs.remove(a);
            out.push(q);
        }
        for (i, it) in sp.ents[e].items.iter().enumerate() {
            if let Item::Reg { reset: Some(_), .. } = &it.k {
                let mut q = sp.clone();
                if let Item::Reg { reset, .. } = &mut q.ents[e].items[i].k {
                    *reset = None;
                }
                out.push(q);
            }
            if let Item::Reg { initial: Some(_), .. } = &it.k {
                let mut q = sp.clone();
                if let Item::Reg { initial, .. } = &mut q.ents[e].items[i].k {
                    *initial = None;
                }
                out.push(q);
            }
            if let Item::Stage(Some(_)) = &it.k {
                let mut q = sp.clone();
                q.ents[e].items[i].k = Item::Stage(None);
                out.push(q);
            }
            let n = it.k.exprs().len();
            for k in 0..n {
                let ex = it.k.exprs()[k].clone();
                if matches!(ex.k, K::Lit(_)) {
                    continue;
                }
                if let Some(z) = zero(&sp.p, &ex.ty) {
                    let mut q = sp.clone();
                    *q.ents[e].items[i].k.exprs_mut()[k] = E { ty: ex.ty.clone(), k: K::Lit(z) };
                    out.push(q);
                }
                for c in crate::lang::shrink::candidates(&sp.p, &ex).into_iter().take(4) {
                    let mut q = sp.clone();
                    *q.ents[e].items[i].k.exprs_mut()[k] = c;
                    out.push(q);
                }
            }
        }
        for c in crate::lang::shrink::candidates(&sp.p, &sp.ents[e].out).into_iter().take(6) {
            let mut q = sp.clone();
            if e == top || c.ty == sp.ents[e].out.ty {
                q.ents[e].out = c;
                out.push(q);
            }
        }
    }
    out
}

fn report(sp: &SeqProg, st: &Style, o: &Opts, top: usize, steps: &[Step], out: &mut JobOut, label: &str, first: String) {
    let Some(mut why) = fails(sp, st, o, top, steps) else {
        out.violation(format!("{label}: {first} (only together with other units)"), json!({"source": source(sp, st, &sp.tops), "passes": o.passes}));
        return;
    };
    let orig = source(sp, st, &[top]);
    let class = |s: &str| {
        let n = if s.starts_with("rejected") { 4 } else { 1 };
        s.split(':').take(n).collect::<Vec<_>>().join(":").chars().filter(|c| !c.is_ascii_digit()).collect::<String>()
    };
    let c0 = class(&why);
    let mut q = sp.clone();
    let start = std::time::Instant::now();
    if std::env::var("MON_NOSHRINK").is_err() {
        loop {
            let mut progress = false;
            for c in smaller(&q, top) {
                if start.elapsed().as_secs() > 12 {
                    break;
                }
                if let Some(w) = fails(&c, st, o, top, steps) {
                    if class(&w) == c0 {
                        why = w;
                        q = c;
                        progress = true;
                        break;
                    }
                }
            }
            if !progress {
                break;
            }
        }
    }
    out.violation(
        format!("{label}: {why}"),
        json!({"source": source(&q, st, &[top]), "passes": o.passes, "original": orig}),
    );
}

pub fn test_seq(sp: &SeqProg, st: &Style, o: &Opts, nsteps: usize, r: &mut Rng, out: &mut JobOut, label: &str) {
    let text = source(sp, st, &sp.tops);
    if let Ok(d) = std::env::var("MON_DUMP") {
        let _ = std::fs::write(d, &text);
    }
    out.stat("programs", 1);
    let stim: Vec<(usize, Vec<Step>)> = sp.tops.iter().map(|t| (*t, stimuli(sp, *t, nsteps, r))).collect();
    let c = compile_text(&text, o);
    if c.design.is_none() {
        let mut any = false;
        for (t, s) in &stim {
            if let Some(w) = fails(sp, st, o, *t, s) {
                any = true;
                report(sp, st, o, *t, s, out, label, w);
            }
        }
        if !any {
            let what = match &c.syntax_error {
                Some(e) => format!("emitted Verilog does not parse: {e}"),
                None => format!("valid program {}: {}", c.run.verdict(), c.run.first_error()),
            };
            out.violation(format!("{label}: {what}"), json!({"source": text, "passes": o.passes, "rendered": c.run.rendered}));
        }
        return;
    }
    let d = c.design.unwrap();
    for (t, s) in &stim {
        let (w, _) = expect(sp, *t, s);
        out.evals += 2 * s.len() as u64;
        out.stat("units", 1);
        out.stat("clock edges", s.iter().map(|s| s.rise.iter().filter(|x| **x).count() as u64).sum());
        out.stat("output bits compared", w.iter().map(|w| (defined_bits(&w.before) + 2 * defined_bits(&w.after)) as u64).sum());
        let (mut ndef, mut ntot) = (0, 0);
        for x in &w {
            ndef += defined_bits(&x.after) as u64;
            ntot += x.after.w as u64;
        }
        out.stat("output bits", ntot);
        out.stat("output bits defined", ndef);
        match drive(sp, st, &d, *t, s, &w) {
            Some(m) => report(sp, st, o, *t, s, out, label, m),
            None => {
                let mut states: Vec<String> = w.iter().map(|w| w.after.to_bin()).collect();
                states.sort();
                states.dedup();
                if states.len() >= 3 {
                    let pr = Printer::new(&sp.p, Style::plain());
                    let txt = print_ent(sp, &pr, *t);
                    out.key(&txt);
                    if txt.len() < 900 {
                        out.sample(format!("{txt}// {} steps, {} distinct outputs", s.len(), states.len()));
                    }
                }
            }
        }
    }
}

fn profile(j: usize) -> Profile {
    let mut f = Profile::base();
    f.matches = 3;
    f.iflet = 1;
    f.aggs = 4;
    f.arrays = 1;
    f.dynidx = 2;
    f.tys = [4, 6, 6, 3, 2, 4, 2];
    f.wide_pct = 3;
    f.max_w = 70;
    f.max_bits = 60;
    f.depth = 3;
    if j % 5 == 4 {
        f.zero_pct = 15;
    }
    f
}

pub fn program(j: usize, r: &mut Rng, s: SProfile, ntop: usize, pipes: bool) -> SeqProg {
    let mut sg = SeqGen::new(r, profile(j), s);
    sg.g.gen_adts(3);
    if j % 3 == 0 {
        for i in 0..2 {
            let k = sg.g.gen_func(&format!("h{i}"));
            sg.g.callable.push(k);
        }
        sg.g.f.calls = 4;
    }
    let mut tops = vec![];
    let mut subs = vec![];
    let nsub = sg.g.r.range(0, 2);
    let big = sg.s.items;
    for i in 0..nsub {
        sg.s.items = (2, 5);
        let p = pipes && sg.g.r.chance(2, 3);
        let dep = sg.s.depth;
        sg.s.depth = (0, 3);
        let e = if p { sg.pipeline(&format!("sub{i}"), &subs) } else { sg.entity(&format!("sub{i}"), &subs) };
        sg.s.depth = dep;
        subs.push(e);
    }
    sg.s.items = big;
    for i in 0..ntop {
        let e = if pipes { sg.pipeline(&format!("top{i}"), &subs) } else { sg.entity(&format!("top{i}"), &subs) };
        // the module under test keeps its ports
        sg.ents[e].attrs.retain(|a| a != "inline");
        tops.push(e);
    }
    sg.finish(tops)
}

pub fn c04() -> CheckDef {
    fn run(_c: &Ctx, j: usize, r: &mut Rng, out: &mut JobOut) {
        let st = super::exprs::style(j, r);
        let mut s = SProfile::base();
        if j % 4 == 1 {
            s.max_clk = 1;
            s.w = [3, 6, 6, 1, 1];
        }
        let sp = program(j, r, s, 5, false);
        test_seq(&sp, &st, &Opts::default(), 24, r, out, "state");
    }
    CheckDef {
        id: "C04",
        jobs: |t| if t { 12000 } else { 500 },
        run,
        rule: "Random entities with registers (with and without reset and initial value, destructured, declared before use, in up to three clock domains with simultaneous edges), memories with several write ports and initial contents, and nested and inlined instances; simulated step by step and compared, before and after every edge, with a cycle accurate reference model in which undefined state propagates. Non-trivial: the reference output takes at least three values over the steps.",
        assumptions: &[
            "the harness's Verilog simulator implements IEEE 1800 for the constructs that are emitted",
            "the reference model states the documented meaning of registers and memories",
        ],
        crash_is_violation: true,
    }
}

/// Mis-staged variants of a correct pipeline: all of them have to be rejected
fn misstage(sp: &SeqProg, top: usize, r: &mut Rng, out: &mut JobOut) {
    let st = Style::plain();
    let src = |q: &SeqProg| source(q, &st, &[top]);
    let ent = &sp.ents[top];
    let d = ent.depth.unwrap();
    let homes = sp.homes(top);
    let mut muts: Vec<(String, String)> = vec![];
    let good = src(sp);
    // the declared depth
    for nd in [d + 1, d.wrapping_sub(1), d + 7] {
        if nd < 1000 {
            let mut q = sp.clone();
            q.ents[top].depth = Some(nd);
            muts.push((format!("depth {nd} declared with {d} stages"), src(&q)));
        }
    }
    // a stage less, a stage more
    let marks: Vec<usize> = (0..ent.items.len()).filter(|i| matches!(ent.items[*i].k, Item::Stage(_))).collect();
    if !marks.is_empty() {
        let m = *r.pick(&marks);
        let mut q = sp.clone();
        q.ents[top].items.remove(m);
        fix_mem(&mut q, top, m, -1);
        muts.push(("a stage removed".into(), src(&q)));
        let mut q = sp.clone();
        q.ents[top].items.insert(m, It { stage: 0, k: Item::Stage(None) });
        fix_mem(&mut q, top, m, 1);
        muts.push(("a stage added".into(), src(&q)));
    }
    // where a statement of each stage can be inserted
    let slot = |st: usize| if st == 0 { 0 } else { marks[st - 1] + 1 };
    let mut insert = |at: usize, stage: usize, e: E, what: String| {
        let mut q = sp.clone();
        let t = e.ty.clone();
        q.p.vars.push(VarInfo { name: "mis_staged".into(), ty: t.clone() });
        let v = q.p.vars.len() - 1;
        q.ents[top].items.insert(at, It { stage, k: Item::Let(Pat::Bind(v), t, true, e) });
        fix_mem(&mut q, top, at, 1);
        muts.push((what, src(&q)));
    };
    let ve = |v: VarId| E { ty: sp.p.vars[v].ty.clone(), k: K::Var(v) };
    let re = |s: String, v: VarId| E { ty: sp.p.vars[v].ty.clone(), k: K::Ext(s, key_ref(0, v)) };
    let sized = |v: &VarId| sp.p.defs.size(&sp.p.vars[*v].ty) > 0;
    for (i, it) in ent.items.iter().enumerate() {
        // the stage where the item is written
        let here = marks.iter().filter(|m| **m < i).count();
        for v in it.k.pat_vars() {
            let h = homes[&v];
            if h > here && sized(&v) {
                insert(i + 1, here, ve(v), format!("value used {} stages before it is available", h - here));
                let k = r.range(here, h - 1);
                insert(slot(k).max(i + 1), k, ve(v), format!("value used {} stages before it is available", h - k));
                insert(i + 1, here, re(format!("stage(+{}).", k - here), v), "reference to a stage where the value is not available".into());
            }
            if here > 0 && sized(&v) && r.bool() {
                let k = r.range(1, here + 1);
                insert(i + 1, here, re(format!("stage(-{k})."), v), "reference to a stage before the definition".into());
            }
        }
    }
    let ins: Vec<VarId> = ent.ins.iter().cloned().filter(sized).collect();
    if !ins.is_empty() {
        let v = *r.pick(&ins);
        let k = r.range(0, d);
        let over = *r.pick(&[1usize, 2, 5, 1000]);
        insert(slot(k), k, re(format!("stage(+{}).", d - k + over), v), format!("reference {over} stages after the last"));
        let k = r.range(0, d);
        insert(slot(k), k, re(format!("stage(-{}).", k + over), v), format!("reference {over} stages before the first"));
        insert(slot(k), k, re("stage(no_such_label).".into(), v), "reference to an unknown label".into());
        // operands with different latency
        let v = *r.pick(&ent.ins);
        if sized(&v) {
            let k = r.range(0, d);
            let dl = |n: usize| re(format!("inst({n}) dly{n}(\u{2}, \u{1})"), v);
            let n = r.range(1, 3);
            let t = ve(v).ty;
            let b = ent.ins[0];
            let db = re(format!("inst({n}) dly{n}(\u{2}, \u{1})"), b);
            let two = Ty::Tuple(vec![t.clone(), t.clone()]);
            let forms: Vec<(&str, E)> = vec![
                ("tuple", E { ty: two.clone(), k: K::Tup(vec![dl(n), ve(v)]) }),
                ("tuple", E { ty: two.clone(), k: K::Tup(vec![dl(n), dl(n + 1)]) }),
                ("array", E { ty: arr(t.clone(), 2), k: K::Arr(vec![ve(v), dl(n)]) }),
                ("branch", E { ty: t.clone(), k: K::If(Box::new(ve(b)), Box::new(ve(v)), Box::new(dl(n))) }),
                ("condition", E { ty: t.clone(), k: K::If(Box::new(db.clone()), Box::new(ve(v)), Box::new(ve(v))) }),
                ("condition", E { ty: t.clone(), k: K::If(Box::new(ve(b)), Box::new(dl(n)), Box::new(dl(n))) }),
                ("operator", E { ty: Ty::Bool, k: K::Bin(BinOp::LAnd, Box::new(db.clone()), Box::new(ve(b))) }),
                (
                    "match",
                    E {
                        ty: t.clone(),
                        k: K::Match(
                            Box::new(db.clone()),
                            vec![
                                Arm { pat: Pat::Lit(V::Bool(true), Ty::Bool), guard: None, body: ve(v) },
                                Arm { pat: Pat::Wild, guard: None, body: ve(v) },
                            ],
                        ),
                    },
                ),
                (
                    "guard",
                    E {
                        ty: t.clone(),
                        k: K::Match(
                            Box::new(ve(b)),
                            vec![
                                Arm { pat: Pat::Lit(V::Bool(true), Ty::Bool), guard: Some(db), body: ve(v) },
                                Arm { pat: Pat::Wild, guard: None, body: ve(v) },
                            ],
                        ),
                    },
                ),
            ];
            for _ in 0..3 {
                let (what, e) = r.pick(&forms).clone();
                insert(slot(k), k, e, format!("operands of one {what} with different latency"));
            }
        }
    }
    // the depth written at an instantiation
    for it in &ent.items {
        if let Item::Inst { ent: s, .. } = &it.k {
            let (n, l) = (&sp.ents[*s].name, sp.latency(*s));
            if sp.ents[*s].depth.is_some() {
                for k in [l + 1, l.wrapping_sub(1), l + 13] {
                    let a = format!("inst({l}) {n}");
                    if k < 1000 && good.contains(&a) {
                        muts.push((format!("instance of a pipeline of depth {l} with inst({k})"), good.replacen(&a, &format!("inst({k}) {n}"), 1)));
                    }
                }
            }
        }
    }
    let c = comp::compile(&[comp::Src::single(&good)], &Opts::default());
    if c.ok().is_none() {
        // reported by the comparison with the model
        return;
    }
    r.shuffle(&mut muts);
    muts.truncate(8);
    for (what, m) in muts {
        let c = comp::compile(&[comp::Src::single(&m)], &Opts::default());
        out.evals += 1;
        out.stat(&format!("rejection: {}", what.chars().map(|c| if c.is_ascii_digit() { 'N' } else { c }).collect::<String>()), 1);
        if c.ok().is_some() {
            out.violation(format!("accepted: {what}"), json!({"source": m, "original": good}));
        } else {
            if std::env::var("MON_WHY").is_ok() {
                eprintln!("{what}: {}", c.first_error());
            }
            out.key(&format!("{what}{}", c.first_error()));
        }
    }
}

/// memory reads name their memory by its index
fn fix_mem(q: &mut SeqProg, e: usize, at: usize, by: i64) {
    for x in q.ents[e].items.iter_mut() {
        if let Item::MemRead { mem, .. } = &mut x.k {
            if *mem >= at {
                *mem = (*mem as i64 + by) as usize;
            }
        }
    }
}

pub fn c05() -> CheckDef {
    fn run(_c: &Ctx, j: usize, r: &mut Rng, out: &mut JobOut) {
        let st = super::exprs::style(j, r);
        let mut s = SProfile::base();
        s.max_clk = 1;
        s.cond_pct = if j % 2 == 0 { 0 } else { 70 };
        s.w = [6, 2, 1, 4, 0];
        s.delays = true;
        let sp = program(j, r, s, 5, true);
        if j % 4 == 3 {
            let t = *r.pick(&sp.tops);
            misstage(&sp, t, r, out);
            return;
        }
        test_seq(&sp, &st, &Opts::default(), 26, r, out, "pipeline");
    }
    CheckDef {
        id: "C05",
        jobs: |t| if t { 8000 } else { 220 },
        run,
        rule: "Random pipelines with registers, labels, relative and absolute stage references, sub-pipelines and their result patterns, whole expressions over delayed operands, enable conditions and the handshake signals, nested and inlined; simulated step by step and compared before and after every edge with a reference model that keeps one copy of every value per stage. A quarter of the jobs instead derive mis-staged programs (depth, number of stages, early use, references out of range or before the definition, unknown labels, operands of different latency, wrong instance depth) which have to be rejected. Non-trivial: the reference output takes at least three values over the steps, or a rejection for a distinct reason.",
        assumptions: &[
            "the harness's Verilog simulator implements IEEE 1800 for the constructs that are emitted",
            "the reference model states the documented meaning of pipelines",
        ],
        crash_is_violation: true,
    }
}

pub fn c08() -> CheckDef {
    fn run(_c: &Ctx, j: usize, r: &mut Rng, out: &mut JobOut) {
        let all = ["enum_clock_gating", "split_compound_regs"];
        let st = super::exprs::style(j, r);
        let mut s = SProfile::base();
        let mut o = Opts::default();
        if j % 3 == 0 {
            s.passes = all.iter().map(|s| s.to_string()).collect();
        } else {
            for p in all {
                if r.bool() {
                    o.passes.push(p.into());
                }
            }
            if o.passes.is_empty() {
                o.passes.push(all[j % 2].into());
            }
            r.shuffle(&mut o.passes);
        }
        let pipes = r.chance(1, 4);
        let sp = program(j, r, s, 5, pipes);
        for p in &o.passes {
            out.stat(p, 1);
        }
        test_seq(&sp, &st, &o, 24, r, out, "optimised");
    }
    CheckDef {
        id: "C08",
        jobs: |t| if t { 12000 } else { 500 },
        run,
        rule: "Random entities and pipelines with registers of every shape, compiled with a random set of the optimisation passes in random order, or with the passes selected by attributes on units; simulated step by step against the reference model, with which the unoptimised design has to agree as well (C04, C05). Undefined reference bits may become anything. Non-trivial: the reference output takes at least three values over the steps.",
        assumptions: &[
            "the harness's Verilog simulator implements IEEE 1800 for the constructs that are emitted",
            "the reference model states the documented meaning of registers and memories",
        ],
        crash_is_violation: true,
    }
}
