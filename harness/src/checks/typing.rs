//! C12: programs with exactly one violation are rejected, and their correct twins accepted.
use crate::comp::{self, Opts, Run, Src};
use crate::lang::print::{Printer, Style};
use crate::lang::seq::{needed, print_ent, Ent, Item, SeqProg};
use crate::lang::*;
use crate::rng::Rng;
use crate::runner::{CheckDef, Ctx, JobOut};
use num::BigInt;
use num::One;
use serde_json::json;
use std::collections::HashSet;

// ---- where the context demands a type ----

/// One walk over a unit. `f` is called with every expression and whether its context demands
/// exactly its type, however the expression itself looks.
struct Walk<'a> {
    p: &'a Prog,
    /// variables whose type is declared
    rigid: HashSet<VarId>,
    /// variables some use of which demands their type
    demanded: HashSet<VarId>,
    n: usize,
    f: &'a mut dyn FnMut(usize, &mut E, bool),
}

fn declares(p: &Prog, pat: &Pat, known: bool, out: &mut HashSet<VarId>) {
    match pat {
        Pat::Bind(v) => {
            if known {
                out.insert(*v);
            }
        }
        Pat::Tup(ps) | Pat::Arr(ps) => ps.iter().for_each(|q| declares(p, q, known, out)),
        Pat::Cons(t, k, ps) => {
            let Ty::Adt(i, a) = t else { return };
            for (q, f) in ps.iter().zip(p.defs.fields(&Ty::Adt(*i, vec![]), *k)) {
                declares(p, q, known || a.is_empty() || closed(&f.1), out);
            }
        }
        Pat::At(v, q) => {
            if known || pat_rigid(p, q) {
                out.insert(*v);
            }
            declares(p, q, known, out);
        }
        _ => {}
    }
}

/// the pattern alone fixes the type
fn pat_rigid(_p: &Prog, q: &Pat) -> bool {
    match q {
        Pat::Cons(Ty::Adt(_, a), ..) => a.is_empty(),
        Pat::Lit(_, t) => *t == Ty::Bool,
        Pat::At(_, q) => pat_rigid(_p, q),
        _ => false,
    }
}

/// no parameters
pub fn closed(t: &Ty) -> bool {
    match t {
        Ty::Bool | Ty::Clock => true,
        Ty::Int(n) | Ty::UInt(n) => matches!(n, Nx::K(_)),
        Ty::Tuple(ts) => ts.iter().all(closed),
        Ty::Array(t, n) => matches!(n, Nx::K(_)) && closed(t),
        Ty::Adt(_, a) => a.iter().all(closed),
        Ty::Param(_) | Ty::Fn(..) => false,
    }
}

fn first_order(t: &Ty) -> bool {
    match t {
        Ty::Fn(..) | Ty::Clock => false,
        Ty::Tuple(ts) => ts.iter().all(first_order),
        Ty::Array(t, _) => first_order(t),
        Ty::Adt(_, a) => a.iter().all(first_order),
        _ => true,
    }
}

fn collect_rigid(p: &Prog, e: &E, out: &mut HashSet<VarId>) {
    match &e.k {
        K::Block(sts, _) => {
            for s in sts {
                if let St::Let(pat, _, ann, _) = s {
                    declares(p, pat, *ann, out);
                }
            }
        }
        K::Match(_, arms) => arms.iter().for_each(|a| declares(p, &a.pat, false, out)),
        K::IfLet(q, ..) => declares(p, q, false, out),
        _ => {}
    }
    crate::lang::shrink::children(e).into_iter().for_each(|c| collect_rigid(p, c, out));
}

impl Walk<'_> {
    /// the type of e follows from e alone
    fn fixed(&self, e: &E) -> bool {
        use BinOp::*;
        match &e.k {
            K::Lit(V::Bool(_)) => true,
            K::Var(v) => self.rigid.contains(v),
            K::Bin(op, a, b) => match op {
                Eq | Ne | Lt | Le | Gt | Ge | LAnd | LOr | LXor => true,
                Mul => self.fixed(a) && self.fixed(b),
                _ => self.fixed(a) || self.fixed(b),
            },
            K::Un(UnOp::Not, _) => true,
            K::Un(UnOp::BitNot, a) => self.fixed(a),
            K::If(_, a, b) | K::IfLet(_, _, a, b) => self.fixed(a) || self.fixed(b),
            K::Match(_, arms) => arms.iter().any(|a| self.fixed(&a.body)),
            K::Block(_, r) => self.fixed(r),
            K::Tup(es) => es.iter().all(|e| self.fixed(e)),
            K::Arr(es) => es.iter().any(|e| self.fixed(e)),
            K::Cons(_, _) => matches!(&e.ty, Ty::Adt(_, a) if a.is_empty()),
            K::Field(b, _) | K::Idx(b, _) | K::Slice(b, ..) => self.fixed(b),
            K::TupIdx(b, _) => self.fixed(b),
            K::Call(f, ..) => closed(&self.p.funcs[*f].ret),
            K::Copy(_) => true,
            _ => false,
        }
    }

    fn go(&mut self, e: &mut E, want: bool) {
        use BinOp::*;
        let n = self.n;
        self.n += 1;
        if let (K::Var(v), true) = (&e.k, want) {
            self.demanded.insert(*v);
        }
        // children first, so that f may replace the node
        let ety = e.ty.clone();
        match &mut e.k {
            K::Lit(_) | K::Var(_) | K::Ext(..) => {}
            K::Bin(op, a, b) => {
                let (fa, fb) = (self.fixed(a), self.fixed(b));
                let (wa, wb) = match op {
                    LAnd | LOr | LXor => (true, true),
                    Eq | Ne | Lt | Le | Gt | Ge => (fb, fa),
                    // the exponent is a constant
                    Div | Mod => (want, false),
                    Mul => (want && fb, want && fa),
                    _ => (want || fb, want || fa),
                };
                self.go(a, wa);
                self.go(b, wb);
            }
            K::Un(op, a) => {
                let w = match op {
                    UnOp::Not => true,
                    UnOp::Neg => false,
                    _ => want,
                };
                self.go(a, w)
            }
            K::If(c, a, b) => {
                let (fa, fb) = (self.fixed(a), self.fixed(b));
                self.go(c, true);
                self.go(a, want || fb);
                self.go(b, want || fa);
            }
            K::IfLet(q, s, a, b) => {
                let (fa, fb) = (self.fixed(a), self.fixed(b));
                let w = pat_rigid(self.p, q);
                self.go(s, w);
                self.go(a, want || fb);
                self.go(b, want || fa);
            }
            K::Match(s, arms) => {
                let fx: Vec<bool> = arms.iter().map(|a| self.fixed(&a.body)).collect();
                let w = arms.iter().any(|a| pat_rigid(self.p, &a.pat));
                self.go(s, w);
                for (i, a) in arms.iter_mut().enumerate() {
                    if let Some(g) = &mut a.guard {
                        self.go(g, true);
                    }
                    let other = fx.iter().enumerate().any(|(j, f)| j != i && *f);
                    self.go(&mut a.body, want || other);
                }
            }
            K::Block(sts, r) => {
                self.go(r, want);
                for s in sts.iter_mut().rev() {
                    match s {
                        St::Assert(c) => self.go(c, true),
                        St::Let(p, _, ann, v) => {
                            let w = *ann || matches!(p, Pat::Bind(x) if self.demanded.contains(x)) || pat_rigid(self.p, p);
                            self.go(v, w)
                        }
                    }
                }
            }
            K::Tup(es) => es.iter_mut().for_each(|x| self.go(x, want)),
            K::Arr(es) => {
                let fx: Vec<bool> = es.iter().map(|a| self.fixed(a)).collect();
                for (i, x) in es.iter_mut().enumerate() {
                    let other = fx.iter().enumerate().any(|(j, f)| j != i && *f);
                    self.go(x, want || other);
                }
            }
            K::ArrRep(x) => self.go(x, want),
            K::Idx(b, i) => {
                let w = self.fixed(b);
                self.go(b, false);
                self.go(i, w);
            }
            K::Slice(b, ..) => self.go(b, false),
            K::Cons(k, es) => {
                let Ty::Adt(i, a) = &ety else { return };
                let fs = self.p.defs.fields(&Ty::Adt(*i, vec![]), *k);
                let plain = a.is_empty();
                for (x, (_, t)) in es.iter_mut().zip(fs) {
                    self.go(x, plain || want || closed(&t));
                }
            }
            K::Field(b, _) | K::TupIdx(b, _) => self.go(b, false),
            K::Call(f, _, _, args) => {
                for (i, x) in args.iter_mut().enumerate() {
                    let t = &self.p.vars[self.p.funcs[*f].params[i]].ty;
                    self.go(x, closed(t));
                }
            }
            K::Method(_, rcv, args) => {
                self.go(rcv, false);
                args.iter_mut().for_each(|x| self.go(x, false));
            }
            K::Std(_, args) => args.iter_mut().for_each(|x| self.go(x, false)),
            K::Lambda(_, b) => self.go(b, false),
            K::CallFn(g, args) => {
                self.go(g, false);
                args.iter_mut().for_each(|x| self.go(x, false));
            }
            K::Copy(a) => self.go(a, true),
        }
        (self.f)(n, e, want);
    }
}

fn walk_func(p: &Prog, params: &[VarId], body: &mut E, f: &mut dyn FnMut(usize, &mut E, bool)) {
    let mut rigid: HashSet<VarId> = params.iter().copied().collect();
    collect_rigid(p, body, &mut rigid);
    Walk { p, rigid, demanded: HashSet::new(), n: 0, f }.go(body, true);
}

fn walk_ent(sp: &SeqProg, ent: &mut Ent, f: &mut dyn FnMut(usize, &mut E, bool)) {
    let p = &sp.p;
    let mut rigid: HashSet<VarId> = ent.ins.iter().copied().collect();
    for i in &ent.items {
        match &i.k {
            Item::Let(q, _, ann, _) => declares(p, q, *ann, &mut rigid),
            Item::Reg { pat, .. } | Item::Inst { pat, .. } => declares(p, pat, true, &mut rigid),
            Item::MemRead { var, .. } => {
                rigid.insert(*var);
            }
            _ => {}
        }
        i.k.exprs().into_iter().for_each(|e| collect_rigid(p, e, &mut rigid));
    }
    collect_rigid(p, &ent.out, &mut rigid);
    let mut w = Walk { p, rigid, demanded: HashSet::new(), n: 0, f };
    w.go(&mut ent.out, true);
    for i in ent.items.iter_mut().rev() {
        match &mut i.k {
            Item::Let(q, _, ann, v) => {
                let x = *ann || matches!(q, Pat::Bind(x) if w.demanded.contains(x)) || pat_rigid(p, q);
                w.go(v, x)
            }
            k => k.exprs_mut().into_iter().for_each(|e| w.go(e, true)),
        }
    }
}

// ---- another type ----

fn near(n: usize, r: &mut Rng) -> usize {
    match r.below(4) {
        0 => n * 2 + 1,
        1 | 2 if n > 1 => n - 1,
        _ => n + 1,
    }
}

/// a type which differs from t, usually in one place
pub fn other_type(p: &Prog, t: &Ty, r: &mut Rng) -> Ty {
    if r.chance(1, 10) {
        // wrap it
        return match r.below(4) {
            0 => Ty::Tuple(vec![t.clone()]),
            1 => arr(t.clone(), 1),
            2 => Ty::Adt(OPTION, vec![t.clone()]),
            _ => Ty::Tuple(vec![t.clone(), Ty::Bool]),
        };
    }
    match t {
        Ty::Bool => r.pick(&[uint(1), int(1), arr(Ty::Bool, 1), Ty::Tuple(vec![Ty::Bool, Ty::Bool])]).clone(),
        Ty::Int(n) | Ty::UInt(n) => {
            let Nx::K(k) = n else {
                // a number parameter
                return if r.bool() { uint(8) } else { Ty::Bool };
            };
            let same = |k: usize| if matches!(t, Ty::Int(_)) { int(k) } else { uint(k) };
            match r.below(6) {
                0 => arr(Ty::Bool, *k),
                1 | 2 => {
                    if matches!(t, Ty::Int(_)) {
                        uint(*k)
                    } else {
                        int(*k)
                    }
                }
                3 if *k == 1 => Ty::Bool,
                _ => same(near(*k, r)),
            }
        }
        Ty::Tuple(ts) if ts.is_empty() => Ty::Bool,
        Ty::Tuple(ts) => {
            let mut v = ts.clone();
            match r.below(5) {
                0 => {
                    v.pop();
                }
                1 => v.push(Ty::Bool),
                2 if ts[0] != ts[ts.len() - 1] => v.swap(0, ts.len() - 1),
                _ => {
                    let i = r.below(v.len());
                    v[i] = other_type(p, &v[i], r);
                }
            }
            Ty::Tuple(v)
        }
        Ty::Array(e, n) => {
            let Nx::K(k) = n else { return arr(Ty::Bool, 3) };
            if r.bool() {
                arr((**e).clone(), near(*k, r))
            } else {
                arr(other_type(p, e, r), *k)
            }
        }
        Ty::Adt(i, a) => {
            if !a.is_empty() && r.chance(2, 3) {
                let mut a = a.clone();
                let k = r.below(a.len());
                a[k] = other_type(p, &a[k], r);
                return Ty::Adt(*i, a);
            }
            let others: Vec<usize> = (0..p.defs.adts.len()).filter(|j| j != i && p.defs.adts[*j].nparams == 0).collect();
            match r.below(3) {
                0 if p.defs.nvariants(*i) > 0 && a.is_empty() && closed(t) => {
                    // what it is made of
                    Ty::Tuple(p.defs.fields(t, 0).into_iter().map(|f| f.1).collect())
                }
                _ if !others.is_empty() => Ty::Adt(*r.pick(&others), vec![]),
                _ => Ty::Bool,
            }
        }
        Ty::Param(i) => r.pick(&[uint(8), Ty::Bool, Ty::Tuple(vec![Ty::Param(*i)]), Ty::Adt(OPTION, vec![Ty::Bool])]).clone(),
        Ty::Fn(..) | Ty::Clock => Ty::Bool,
    }
}

// ---- mutants ----

#[derive(Clone)]
struct Mutant {
    /// which unit: function index, or entity index + 1000
    unit: usize,
    node: usize,
    how: How,
}

#[derive(Clone)]
enum How {
    /// the value of an unknown unit of this type
    Type(Ty),
    /// a literal that does not fit
    Literal(BigInt),
    /// (tuples, arrays, constructors, calls) one part more or less
    Arity(bool),
}

impl How {
    fn name(&self) -> &'static str {
        match self {
            How::Type(_) => "a value of another type",
            How::Literal(_) => "a literal which does not fit",
            How::Arity(_) => "one part more or less",
        }
    }
}

/// print the program, and say where each unit is
fn text(sp: &SeqProg, st: &Style) -> (String, Vec<(usize, usize, usize)>) {
    let pr = Printer::new(&sp.p, st.clone());
    let mut o = pr.adts();
    o.push_str(&pr.traits());
    let mut at = vec![];
    let impls = pr.impls();
    for (i, t) in impls.iter().enumerate() {
        for m in &sp.p.impls[i].methods {
            at.push((m.1, o.len(), o.len() + t.len()));
        }
        o.push_str(t);
    }
    for (i, f) in sp.p.funcs.iter().enumerate() {
        if !f.in_impl {
            let t = pr.func(i);
            at.push((i, o.len(), o.len() + t.len()));
            o.push_str(&t);
        }
    }
    let start = o.len();
    for i in needed(sp, &sp.tops) {
        let t = print_ent(sp, &pr, i);
        at.push((1000 + i, o.len(), o.len() + t.len()));
        o.push_str(&t);
    }
    for n in 1..=5 {
        if o[start..].contains(&format!("dly{n}(")) {
            o.push_str(&format!("pipeline({n}) dly{n}<T>(clk: clock, x: T) -> T {{ reg * {n}; x }}\n"));
        }
    }
    (o, at)
}

fn apply(sp: &SeqProg, ms: &[&Mutant], control: bool) -> SeqProg {
    let mut q = sp.clone();
    for (k, m) in ms.iter().enumerate() {
        let name = format!("given{k}");
        let helper = q.p.funcs.len();
        let mut ret = None;
        let mut hit = |n: usize, e: &mut E, _w: bool| {
            if n != m.node {
                return;
            }
            match &m.how {
                How::Type(t) => {
                    let t = if control { e.ty.clone() } else { t.clone() };
                    if control && !closed(&t) {
                        return;
                    }
                    ret = Some(t.clone());
                    *e = E { ty: t, k: K::Call(helper, vec![], vec![], vec![]) };
                }
                _ if control => {}
                How::Literal(v) => e.k = K::Lit(V::Int(v.clone())),
                How::Arity(more) => match &mut e.k {
                    K::Tup(es) | K::Cons(_, es) | K::Arr(es) | K::Call(_, _, _, es) => {
                        if *more {
                            let x = es[0].clone();
                            es.push(x)
                        } else {
                            es.pop();
                        }
                    }
                    _ => {}
                },
            }
        };
        if m.unit >= 1000 {
            let mut ent = q.ents[m.unit - 1000].clone();
            walk_ent(&q, &mut ent, &mut hit);
            q.ents[m.unit - 1000] = ent;
        } else {
            let mut b = q.p.funcs[m.unit].body.clone().unwrap();
            walk_func(&q.p, &q.p.funcs[m.unit].params.clone(), &mut b, &mut hit);
            q.p.funcs[m.unit].body = Some(b);
        }
        // the unit stays in the list, so that indices are the same
        q.p.funcs.push(Func {
            name,
            params: vec![],
            ret: ret.unwrap_or(Ty::Bool),
            body: None,
            ntys: 0,
            nnums: 0,
            bounds: vec![],
            attrs: vec![],
            entity: false,
            in_impl: false,
        });
    }
    q
}

fn candidates(sp: &SeqProg, unit: usize, positional: bool, r: &mut Rng) -> Vec<Mutant> {
    let mut v = vec![];
    let mut see = |n: usize, e: &mut E, want: bool| {
        // generic units are checked per instance: a parameter may be used as a type it has in all of
        // them. The type of the result expression of an entity is the one which is printed.
        if !want || !first_order(&e.ty) || !closed(&e.ty) || (unit >= 1000 && n == 0) {
            return;
        }
        let t = other_type(&sp.p, &e.ty, r);
        if t != e.ty && closed(&t) {
            v.push(Mutant { unit, node: n, how: How::Type(t) });
        }
        match (&e.k, &e.ty) {
            (K::Lit(V::Int(_)), Ty::Int(Nx::K(w)) | Ty::UInt(Nx::K(w))) => {
                let signed = matches!(e.ty, Ty::Int(_));
                let (lo, hi) = range_of(*w, signed);
                let one = BigInt::one();
                let big = BigInt::from(r.next());
                let k = match r.below(4) {
                    0 if signed => lo - &one,
                    1 if signed => lo - &big,
                    2 => hi + &one + &big,
                    _ => hi + &one,
                };
                // twice, there are few literals
                v.push(Mutant { unit, node: n, how: How::Literal(k.clone()) });
                v.push(Mutant { unit, node: n, how: How::Literal(k) });
            }
            (K::Tup(es) | K::Arr(es), _) if es.len() > 1 => v.push(Mutant { unit, node: n, how: How::Arity(r.bool()) }),
            (K::Cons(_, es) | K::Call(_, _, _, es), _) if !es.is_empty() && positional => {
                v.push(Mutant { unit, node: n, how: How::Arity(r.bool()) })
            }
            _ => {}
        }
    };
    if unit >= 1000 {
        let mut ent = sp.ents[unit - 1000].clone();
        walk_ent(sp, &mut ent, &mut see);
    } else {
        let f = &sp.p.funcs[unit];
        walk_func(&sp.p, &f.params, &mut f.body.clone().unwrap(), &mut see);
    }
    v
}

fn errors_in(run: &Run, from: usize, to: usize) -> usize {
    run.diags.iter().filter(|d| d.error && d.files.first().is_some_and(|f| f == "main.spade") && d.spans.first().is_some_and(|s| s.1 >= from && s.1 < to)).count()
}

/// mutate several units at a time; only when the errors do not tell which were noticed, one at a time
fn round(sp: &SeqProg, st: &Style, units: &[usize], r: &mut Rng, out: &mut JobOut) {
    let mut ms = vec![];
    for u in units {
        let c = candidates(sp, *u, st.named == 0, r);
        if !c.is_empty() {
            ms.push(r.pick(&c).clone());
        }
    }
    if ms.is_empty() {
        return;
    }
    let all: Vec<&Mutant> = ms.iter().collect();
    // the correct twin: the same helpers, with the types that are wanted
    let (ctext, _) = text(&apply(sp, &all, true), st);
    let c = comp::compile(&[Src::single(&ctext)], &Opts::default());
    out.evals += 1;
    if c.verdict() == "rejected" && c.diags.iter().any(|d| d.error && d.message.contains("must be known")) {
        // some types have to be known when an expression is met (of a name declared ahead, for one)
        out.stat("programs which need more annotations", 1);
        return;
    }
    if c.verdict() != "accepted" {
        out.violation(
            format!("well typed program {}: {}", c.verdict(), c.first_error()),
            json!({"source": ctext, "rendered": c.rendered}),
        );
        return;
    }
    out.stat("well typed programs accepted", 1);
    let (mtext, at) = text(&apply(sp, &all, false), st);
    let run = comp::compile(&[Src::single(&mtext)], &Opts::default());
    for m in &ms {
        out.evals += 1;
        let (_, from, to) = at.iter().find(|a| a.0 == m.unit).unwrap();
        let seen = run.verdict() == "rejected" && errors_in(&run, *from, *to) > 0;
        if !seen {
            let (one, _) = text(&apply(sp, &[m], false), st);
            let run = comp::compile(&[Src::single(&one)], &Opts::default());
            out.stat("mutants compiled alone", 1);
            if run.verdict() != "rejected" {
                out.violation(
                    format!("a program with {} is {}", m.how.name(), run.verdict()),
                    json!({"source": one, "control": ctext, "rendered": run.rendered}),
                );
                continue;
            }
            if run.diags.iter().any(|d| d.bug) {
                out.stat("rejected with an internal error", 1);
            }
        }
        out.key(&mtext[*from..*to].to_string());
        out.stat(&format!("rejected: {}", m.how.name()), 1);
    }
}

fn unannotated(sp: &mut SeqProg) {
    fn strip(e: &mut E) {
        if let K::Block(sts, _) = &mut e.k {
            for s in sts {
                if let St::Let(_, _, ann, _) = s {
                    *ann = false;
                }
            }
        }
        crate::lang::shrink::children_mut(e).into_iter().for_each(strip);
    }
    for f in sp.p.funcs.iter_mut() {
        if let Some(b) = &mut f.body {
            strip(b);
        }
    }
    for e in sp.ents.iter_mut() {
        for i in e.items.iter_mut() {
            if let Item::Let(_, _, ann, _) = &mut i.k {
                *ann = false;
            }
            i.k.exprs_mut().into_iter().for_each(strip);
        }
        strip(&mut e.out);
    }
}

fn mutants(j: usize, nround: usize, r: &mut Rng, out: &mut JobOut) {
    let mut sp = if j % 3 == 2 {
        let mut s = crate::lang::seqgen::SProfile::base();
        let pipes = r.bool();
        if pipes {
            s.max_clk = 1;
        }
        super::seq::program(j / 3, r, s, 6, pipes)
    } else {
        SeqProg { p: super::exprs::mixed_program(j, r), ..Default::default() }
    };
    if r.chance(2, 3) {
        unannotated(&mut sp);
    }
    let st = super::exprs::style(j, r);
    let base: Vec<usize> = needed(&sp, &sp.tops).into_iter().map(|i| i + 1000).collect();
    let funcs = (0..sp.p.funcs.len()).filter(|i| sp.p.funcs[*i].body.is_some());
    let units: Vec<usize> = base.into_iter().chain(funcs).collect();
    for _ in 0..nround {
        round(&sp, &st, &units, r, out);
    }
}

pub fn c12() -> CheckDef {
    fn run(c: &Ctx, j: usize, r: &mut Rng, out: &mut JobOut) {
        let ts = crate::templates::parse(include_str!("../../templates/typing.txt"));
        let parts = 4;
        if j < ts.len() * parts || (c.thorough && j % 3 == 0) {
            let k = j % (ts.len() * parts);
            return crate::templates::test("C12", &ts[k / parts], k % parts, parts, r, out);
        }
        let n = if c.thorough { 6 } else { 3 };
        mutants(j, n, r, out);
    }
    CheckDef {
        id: "C12",
        jobs: |t| if t { 9000 } else { 180 },
        run,
        rule: "every program with exactly one type violation (a wrong type at a position whose context alone demands the type, an out of range literal, a wrong arity, or an edit of a family of texts) is rejected, and its correct twin is accepted",
        assumptions: &["the reference rules say for which positions the context alone demands the type"],
        crash_is_violation: true,
    }
}
