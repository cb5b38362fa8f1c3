//! Model of stateful units: registers, memories, instances and pipelines, with a cycle accurate
//! reference evaluator and a printer.
use super::interp::{Env, Frame, Interp};
use super::print::{Printer, Style};
use super::*;
use num::ToPrimitive;
use std::collections::HashMap;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum Item {
    Let(Pat, Ty, bool, E),
    Reg { pat: Pat, ty: Ty, clk: usize, reset: Option<(E, E)>, initial: Option<V>, next: E },
    Decl(VarId),
    Mem { name: String, elem: Ty, n: usize, aw: usize, clk: usize, writes: Vec<(E, E, E)>, initial: Option<Vec<V>> },
    MemRead { var: VarId, mem: usize, addr: E },
    /// instance: result pattern, entity, clocks, arguments
    Inst { pat: Pat, ent: usize, clks: Vec<usize>, args: Vec<E> },
    /// end of a stage, with its enable condition
    Stage(Option<E>),
    Label(String),
    Assert(E),
}

#[derive(Clone, Debug)]
pub struct It {
    pub stage: usize,
    pub k: Item,
}

#[derive(Clone, Debug)]
pub struct Ent {
    pub name: String,
    pub nclk: usize,
    pub ins: Vec<VarId>,
    pub items: Vec<It>,
    pub out: E,
    pub depth: Option<usize>,
    pub attrs: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct SeqProg {
    pub p: Prog,
    pub ents: Vec<Ent>,
    pub tops: Vec<usize>,
}

/// keys of K::Ext
pub fn key_ref(stage: usize, v: VarId) -> usize {
    (stage + 1) * 1_000_000 + v
}
pub fn key_valid(stage: usize) -> usize {
    900_000_000 + stage
}
pub fn key_ready(stage: usize) -> usize {
    910_000_000 + stage
}

impl Item {
    pub fn pat_vars(&self) -> Vec<VarId> {
        let mut v = vec![];
        match self {
            Item::Let(p, ..) | Item::Reg { pat: p, .. } | Item::Inst { pat: p, .. } => {
                super::shrink::pat_vars(p, &mut v)
            }
            Item::MemRead { var, .. } => v.push(*var),
            _ => {}
        }
        v
    }
    pub fn exprs(&self) -> Vec<&E> {
        match self {
            Item::Let(_, _, _, e) | Item::Assert(e) => vec![e],
            Item::Reg { reset, next, .. } => {
                let mut v = vec![next];
                if let Some((a, b)) = reset {
                    v.push(a);
                    v.push(b);
                }
                v
            }
            Item::Mem { writes, .. } => writes.iter().flat_map(|w| [&w.0, &w.1, &w.2]).collect(),
            Item::MemRead { addr, .. } => vec![addr],
            Item::Inst { args, .. } => args.iter().collect(),
            Item::Stage(Some(e)) => vec![e],
            _ => vec![],
        }
    }
    pub fn exprs_mut(&mut self) -> Vec<&mut E> {
        match self {
            Item::Let(_, _, _, e) | Item::Assert(e) => vec![e],
            Item::Reg { reset, next, .. } => {
                let mut v = vec![next];
                if let Some((a, b)) = reset {
                    v.push(a);
                    v.push(b);
                }
                v
            }
            Item::Mem { writes, .. } => writes.iter_mut().flat_map(|w| [&mut w.0, &mut w.1, &mut w.2]).collect(),
            Item::MemRead { addr, .. } => vec![addr],
            Item::Inst { args, .. } => args.iter_mut().collect(),
            Item::Stage(Some(e)) => vec![e],
            _ => vec![],
        }
    }
}

pub fn clk_name(i: usize) -> String {
    ["clk", "clk2", "fast_clk"][i].to_string()
}

/// State of one instance
#[derive(Clone, Debug)]
pub struct Inst {
    pub ent: usize,
    pub regs: HashMap<usize, V>,
    pub mems: HashMap<usize, Vec<V>>,
    pub subs: HashMap<usize, Inst>,
    pub stage_regs: HashMap<(usize, VarId), V>,
    pub valid: Vec<V>,
    /// values of the variables in each stage
    pub envs: Vec<Env>,
    pub ready: Vec<V>,
    pub ext: HashMap<usize, V>,
}

fn and3(a: &V, b: &V) -> V {
    match (a, b) {
        (V::Bool(false), _) | (_, V::Bool(false)) => V::Bool(false),
        (V::Bool(true), V::Bool(true)) => V::Bool(true),
        _ => V::X,
    }
}
fn not3(a: &V) -> V {
    match a {
        V::Bool(b) => V::Bool(!b),
        _ => V::X,
    }
}
pub fn sel(c: &V, a: &V, b: &V) -> V {
    match c {
        V::Bool(true) => a.clone(),
        V::Bool(false) => b.clone(),
        _ => V::X,
    }
}

/// the condition of a stage names values in the stage which defines them
/// (swim_tests/src/pipeline_ready_valid.spade relies on it)
fn home_env(envs: &[Env], homes: &HashMap<VarId, usize>) -> Env {
    homes.iter().map(|(v, h)| (*v, envs[(*h).min(envs.len() - 1)][v].clone())).collect()
}

impl SeqProg {
    pub fn latency(&self, e: usize) -> usize {
        self.ents[e].depth.unwrap_or(0)
    }
    /// the stage where each variable becomes available
    pub fn homes(&self, e: usize) -> HashMap<VarId, usize> {
        let ent = &self.ents[e];
        let mut h = HashMap::new();
        for v in &ent.ins {
            h.insert(*v, 0);
        }
        for it in &ent.items {
            let l = match &it.k {
                Item::Inst { ent: sub, .. } if ent.depth.is_some() => self.latency(*sub),
                _ => 0,
            };
            for v in it.k.pat_vars() {
                h.insert(v, it.stage + l);
            }
        }
        h
    }

    pub fn new_inst(&self, e: usize) -> Inst {
        let ent = &self.ents[e];
        let mut r = Inst {
            ent: e,
            regs: HashMap::new(),
            mems: HashMap::new(),
            subs: HashMap::new(),
            stage_regs: HashMap::new(),
            valid: vec![],
            envs: vec![],
            ready: vec![],
            ext: HashMap::new(),
        };
        for (i, it) in ent.items.iter().enumerate() {
            match &it.k {
                Item::Reg { initial, .. } => {
                    r.regs.insert(i, initial.clone().unwrap_or(V::X));
                }
                Item::Mem { n, initial, .. } => {
                    r.mems.insert(i, initial.clone().unwrap_or_else(|| vec![V::X; *n]));
                }
                Item::Inst { ent, .. } => {
                    r.subs.insert(i, self.new_inst(*ent));
                }
                _ => {}
            }
        }
        if let Some(d) = ent.depth {
            let c = self.const_valid(e);
            r.valid = (0..=d).map(|i| if c[i] { V::Bool(true) } else { V::X }).collect();
        }
        r
    }

    /// combinational evaluation for the given inputs; remembers all values in the instance
    pub fn eval(&self, it: &Interp, s: &mut Inst, args: &[V]) -> V {
        let ent = &self.ents[s.ent];
        let homes = self.homes(s.ent);
        let nst = ent.depth.unwrap_or(0) + 1;
        let mut envs: Vec<Env> = vec![Env::new(); nst];
        let fr = Frame { tys: vec![], nums: vec![] };
        for e in envs.iter_mut() {
            for v in homes.keys() {
                e.insert(*v, V::X);
            }
        }
        for (v, a) in ent.ins.iter().zip(args) {
            envs[0].insert(*v, a.clone());
        }
        for ((st, v), x) in &s.stage_regs {
            envs[*st].insert(*v, x.clone());
        }
        let mut conds: Vec<V> = vec![V::Bool(true); nst - 1];
        let mut has_cond = vec![false; nst - 1];
        let mut ext: HashMap<usize, V> = HashMap::new();
        for pass in 0..8 {
            let before = envs.clone();
            let ext_before = ext.clone();
            ext.clear();
            for (st, e) in envs.iter().enumerate() {
                for (v, x) in e {
                    ext.insert(key_ref(st, *v), x.clone());
                }
            }
            // enables and validity
            let mut en = V::Bool(true);
            let mut ready = vec![V::Bool(true); nst];
            for i in (0..nst - 1).rev() {
                en = and3(&conds[i], &en);
                ready[i] = en.clone();
            }
            for i in 0..nst {
                ext.insert(key_ready(i), ready[i].clone());
                let v = if i == 0 { V::Bool(true) } else { s.valid[i].clone() };
                ext.insert(key_valid(i), v);
            }
            s.ready = ready;
            *it.ext.borrow_mut() = ext.clone();
            let mut marker = 0;
            for (i, item) in ent.items.iter().enumerate() {
                let st = item.stage;
                match &item.k {
                    Item::Reg { pat, .. } => {
                        let v = s.regs[&i].clone();
                        it.matches(pat, &v, &mut envs[st]);
                    }
                    Item::Let(p, _, _, e) => {
                        let v = it.eval(e, &mut envs[st], &fr);
                        it.matches(p, &v, &mut envs[st]);
                    }
                    Item::MemRead { var, mem, addr } => {
                        let a = it.eval(addr, &mut envs[st], &fr);
                        let m = &s.mems[mem];
                        let v = match a {
                            V::Int(a) => a.to_usize().and_then(|a| m.get(a).cloned()).unwrap_or(V::X),
                            _ => V::X,
                        };
                        envs[st].insert(*var, v);
                    }
                    Item::Inst { pat, ent: sub, args, .. } => {
                        let a: Vec<V> = args.iter().map(|e| it.eval(e, &mut envs[st], &fr)).collect();
                        let keep = it.ext.borrow().clone();
                        let v = self.eval(it, s.subs.get_mut(&i).unwrap(), &a);
                        *it.ext.borrow_mut() = keep;
                        let l = if ent.depth.is_some() { self.latency(*sub) } else { 0 };
                        it.matches(pat, &v, &mut envs[st + l]);
                    }
                    Item::Stage(c) => {
                        if let Some(c) = c {
                            conds[marker] = it.eval(c, &mut home_env(&envs, &homes), &fr);
                            has_cond[marker] = true;
                        }
                        marker += 1;
                    }
                    Item::Assert(e) => {
                        if pass == 0 {
                            it.eval(e, &mut envs[st], &fr);
                        }
                    }
                    _ => {}
                }
            }
            if pass > 0 && before.iter().zip(&envs).all(|(a, b)| a == b) && ext == ext_before {
                break;
            }
        }
        // stages which no enable condition can invalidate are valid without a register
        s.ext = ext.clone();
        let v = it.eval(&ent.out, &mut envs[nst - 1], &fr);
        s.envs = envs;
        v
    }

    /// rising edges of some clocks, after eval
    pub fn edge(&self, it: &Interp, s: &mut Inst, rising: &[bool]) {
        let ent = &self.ents[s.ent];
        let fr = Frame { tys: vec![], nums: vec![] };
        let homes = self.homes(s.ent);
        *it.ext.borrow_mut() = s.ext.clone();
        let mut envs = s.envs.clone();
        let mut new_regs = vec![];
        for (i, item) in ent.items.iter().enumerate() {
            let st = item.stage;
            match &item.k {
                Item::Reg { clk, reset, next, .. } if rising[*clk] => {
                    let n = it.eval(next, &mut envs[st], &fr);
                    let n = match reset {
                        Some((c, r)) => {
                            let c = it.eval(c, &mut envs[st], &fr);
                            let r = it.eval(r, &mut envs[st], &fr);
                            sel(&c, &r, &n)
                        }
                        None => n,
                    };
                    new_regs.push((i, n));
                }
                Item::Mem { clk, writes, n, .. } if rising[*clk] => {
                    for (we, a, d) in writes {
                        let we = it.eval(we, &mut envs[st], &fr);
                        let a = it.eval(a, &mut envs[st], &fr);
                        let d = it.eval(d, &mut envs[st], &fr);
                        let m = s.mems.get_mut(&i).unwrap();
                        match (&we, &a) {
                            (V::Bool(false), _) => {}
                            (_, V::Int(a)) => {
                                let a = a.to_usize().unwrap();
                                if a < *n {
                                    m[a] = if we == V::Bool(true) { d } else { V::X };
                                }
                            }
                            _ => m.iter_mut().for_each(|x| *x = V::X),
                        }
                    }
                }
                _ => {}
            }
        }
        if let Some(d) = ent.depth {
            if rising[0] {
                let conds: Vec<V> = ent
                    .items
                    .iter()
                    .filter_map(|i| match &i.k {
                        Item::Stage(c) => Some(match c {
                            Some(c) => it.eval(c, &mut home_env(&envs, &homes), &fr),
                            None => V::Bool(true),
                        }),
                        _ => None,
                    })
                    .collect();
                let mut sr = HashMap::new();
                let mut valid = s.valid.clone();
                for st in 0..d {
                    for (v, h) in &homes {
                        if *h <= st {
                            let prev = envs[st][v].clone();
                            let cur = envs[st + 1][v].clone();
                            sr.insert((st + 1, *v), sel(&s.ready[st], &prev, &cur));
                        }
                    }
                    let pv = if st == 0 { V::Bool(true) } else { s.valid[st].clone() };
                    let mux = sel(&s.ready[st], &pv, &s.valid[st + 1]);
                    let stall = and3(&s.ready[st + 1], &not3(&conds[st]));
                    valid[st + 1] = and3(&mux, &not3(&stall));
                }
                s.stage_regs = sr;
                s.valid = valid;
            }
        }
        for (i, v) in new_regs {
            s.regs.insert(i, v);
        }
        for (i, item) in ent.items.iter().enumerate() {
            if let Item::Inst { clks, .. } = &item.k {
                let r: Vec<bool> = clks.iter().map(|c| rising[*c]).collect();
                self.edge(it, s.subs.get_mut(&i).unwrap(), &r);
            }
        }
    }

    /// pipelines without conditions have no valid registers: mark those stages valid
    pub fn const_valid(&self, e: usize) -> Vec<bool> {
        let ent = &self.ents[e];
        let Some(d) = ent.depth else { return vec![] };
        let conds: Vec<bool> = ent
            .items
            .iter()
            .filter_map(|i| match &i.k {
                Item::Stage(c) => Some(c.is_some()),
                _ => None,
            })
            .collect();
        // valid[i+1] is constant unless the stage is enabled conditionally or follows one that is
        let mut out = vec![true; d + 1];
        for i in 0..d {
            out[i + 1] = out[i] && !conds[i..].iter().any(|c| *c);
        }
        out
    }

    pub fn ports(&self, e: usize) -> (Vec<String>, Vec<Ty>) {
        let ent = &self.ents[e];
        let n = ent.ins.iter().map(|v| self.p.vars[*v].name.clone()).collect();
        let t = ent.ins.iter().map(|v| self.p.vars[*v].ty.clone()).collect();
        (n, t)
    }
}

pub fn print_ent(sp: &SeqProg, pr: &Printer, e: usize) -> String {
    let ent = &sp.ents[e];
    let mut o = String::new();
    for a in &ent.attrs {
        let _ = writeln!(o, "#[{a}]");
    }
    let mut ps: Vec<String> = (0..ent.nclk).map(|i| format!("{}: clock", pr.id(&clk_name(i)))).collect();
    for v in &ent.ins {
        let vi = &sp.p.vars[*v];
        ps.push(format!("{}: {}", pr.id(&vi.name), pr.ty(&vi.ty)));
    }
    let kw = match ent.depth {
        Some(d) => format!("pipeline({d})"),
        None => "entity".into(),
    };
    let _ = writeln!(o, "{kw} {}({}) -> {} {{", pr.id(&ent.name), ps.join(", "), pr.ty(&ent.out.ty));
    let mut i = 0;
    while i < ent.items.len() {
        match &ent.items[i].k {
            Item::Let(p, t, ann, v) => {
                if *ann || pr.st.annot == 1 || !pr.self_det(v) {
                    let _ = writeln!(o, "let {}: {} = {};", pr.pat(p), pr.ty(t), pr.top(v, true));
                } else {
                    let _ = writeln!(o, "let {} = {};", pr.pat(p), pr.top(v, false));
                }
            }
            Item::Reg { pat, ty, clk, reset, initial, next } => {
                let _ = write!(o, "reg({}) {}: {}", pr.id(&clk_name(*clk)), pr.pat(pat), pr.ty(ty));
                if let Some((c, v)) = reset {
                    let _ = write!(o, " reset({}: {})", pr.top(c, true), pr.top(v, true));
                }
                if let Some(v) = initial {
                    let _ = write!(o, " initial({})", pr.lit(v, ty, true).0);
                }
                let _ = writeln!(o, " = {};", pr.top(next, true));
            }
            Item::Decl(v) => {
                let vi = &sp.p.vars[*v];
                let _ = writeln!(o, "decl {};", pr.id(&vi.name));
            }
            Item::Mem { name, elem, n, aw, clk, writes, initial } => {
                let w: Vec<String> = writes
                    .iter()
                    .map(|(a, b, c)| format!("({}, {}, {})", pr.top(a, true), pr.top(b, true), pr.top(c, true)))
                    .collect();
                let _ = writeln!(
                    o,
                    "let {name}w: [(bool, uint<{aw}>, {}); {}] = [{}];",
                    pr.ty(elem),
                    writes.len(),
                    w.join(", ")
                );
                let _ = match initial {
                    None => writeln!(
                        o,
                        "let {name}: Memory<{}, {n}> = inst std::mem::clocked_memory({}, {name}w);",
                        pr.ty(elem),
                        pr.id(&clk_name(*clk))
                    ),
                    Some(vs) => writeln!(
                        o,
                        "let {name}: Memory<{}, {n}> = inst std::mem::clocked_memory_init({}, {name}w, {});",
                        pr.ty(elem),
                        pr.id(&clk_name(*clk)),
                        pr.lit(&V::Tup(vs.clone()), &arr(elem.clone(), *n), true).0
                    ),
                };
            }
            Item::MemRead { var, mem, addr } => {
                let vi = &sp.p.vars[*var];
                let Item::Mem { name, .. } = &ent.items[*mem].k else { panic!() };
                let _ = writeln!(
                    o,
                    "let {}: {} = inst std::mem::read_memory({name}, {});",
                    pr.id(&vi.name),
                    pr.ty(&vi.ty),
                    pr.top(addr, false)
                );
            }
            Item::Inst { pat, ent: sub, clks, args } => {
                let se = &sp.ents[*sub];
                let inst = match se.depth {
                    Some(d) => format!("inst({d})"),
                    None => "inst".into(),
                };
                let mut names: Vec<String> = (0..se.nclk).map(|i| pr.id(&clk_name(i))).collect();
                names.extend(se.ins.iter().map(|v| pr.id(&sp.p.vars[*v].name)));
                let mut vals: Vec<String> = clks.iter().map(|c| pr.id(&clk_name(*c))).collect();
                vals.extend(args.iter().map(|a| pr.top(a, true)));
                let _ = writeln!(
                    o,
                    "let {}: {} = {inst} {}{};",
                    pr.pat(pat),
                    pr.ty(&se.out.ty),
                    pr.id(&se.name),
                    pr.args(Some(names), vals)
                );
            }
            Item::Stage(Some(c)) => {
                let _ = writeln!(o, "reg[{}];", pr.top(c, true));
            }
            Item::Stage(None) => {
                let mut n = 1;
                if pr.chance(1, 2) {
                    while matches!(ent.items.get(i + 1).map(|x| &x.k), Some(Item::Stage(None))) {
                        n += 1;
                        i += 1;
                    }
                }
                if n == 1 {
                    let _ = writeln!(o, "reg;");
                } else {
                    let _ = writeln!(o, "reg * {n};");
                }
            }
            Item::Label(l) => {
                let _ = writeln!(o, "'{l}");
            }
            Item::Assert(c) => {
                let _ = writeln!(o, "assert {};", pr.top(c, true));
            }
        }
        i += 1;
    }
    let _ = writeln!(o, "{}\n}}", pr.top(&ent.out, true));
    o
}

pub fn needed(sp: &SeqProg, tops: &[usize]) -> Vec<usize> {
    let mut need = tops.to_vec();
    let mut k = 0;
    while k < need.len() {
        for it in &sp.ents[need[k]].items {
            if let Item::Inst { ent, .. } = &it.k {
                if !need.contains(ent) {
                    need.push(*ent);
                }
            }
        }
        k += 1;
    }
    need.sort();
    need
}

pub fn source(sp: &SeqProg, st: &Style, tops: &[usize]) -> String {
    let pr = Printer::new(&sp.p, st.clone());
    let mut o = pr.program();
    let clk = pr.id("clk");
    let mut body = String::new();
    for i in needed(sp, tops) {
        body.push_str(&print_ent(sp, &pr, i));
    }
    for n in 1..=5 {
        if body.contains(&format!("dly{n}(")) {
            let _ = writeln!(o, "pipeline({n}) dly{n}<T>({clk}: clock, x: T) -> T {{ reg * {n}; x }}");
        }
    }
    o.push_str(&body);
    o
}
