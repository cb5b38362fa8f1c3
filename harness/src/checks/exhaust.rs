//! C02: the verdict on a set of arms, against enumeration of the values of the matched type.
use crate::comp::{Opts, Outcome};
use crate::exec::{compile_text, run_vectors, source, Vector};
use crate::lang::gen::{match_cost, Gen, Profile};
use crate::lang::interp::{Env, Interp};
use crate::lang::print::Style;
use crate::lang::*;
use crate::rng::Rng;
use crate::runner::JobOut;
use num::bigint::BigInt;
use num::{One, Zero};
use serde_json::json;

fn lits(p: &Pat, out: &mut Vec<BigInt>) {
    match p {
        Pat::Lit(V::Int(v), _) => out.push(v.clone()),
        Pat::At(_, p) => lits(p, out),
        Pat::Tup(v) | Pat::Arr(v) | Pat::Cons(_, _, v) => v.iter().for_each(|p| lits(p, out)),
        _ => {}
    }
}

fn range(t: &Ty) -> (BigInt, BigInt) {
    match t {
        Ty::Int(n) if n.c() == 0 => (BigInt::zero(), BigInt::zero()),
        Ty::Int(n) => (-(BigInt::one() << (n.c() - 1)), (BigInt::one() << (n.c() - 1)) - 1),
        Ty::UInt(n) => (BigInt::zero(), (BigInt::one() << n.c()) - 1),
        _ => panic!(),
    }
}

/// values which tell the given patterns apart: all of a small type, or the literals and their neighbours
fn domain(ls: &[BigInt], t: &Ty) -> Vec<BigInt> {
    let (lo, hi) = range(t);
    if &hi - &lo < BigInt::from(16) {
        let mut v = vec![];
        let mut x = lo;
        while x <= hi {
            v.push(x.clone());
            x += 1;
        }
        return v;
    }
    let mut v = vec![lo.clone(), hi.clone(), BigInt::zero()];
    for l in ls {
        v.extend([l - 1, l.clone(), l + 1]);
    }
    v.retain(|x| x >= &lo && x <= &hi);
    v.sort();
    v.dedup();
    v
}

struct Cover<'a, 'r> {
    g: &'a mut Gen<'r>,
}
impl Cover<'_, '_> {
    fn wild(&mut self, t: &Ty) -> Pat {
        if self.g.r.bool() {
            Pat::Wild
        } else {
            // no value is needed later: a fresh name
            self.named(t)
        }
    }
    /// patterns which together match every value
    fn cover(&mut self, t: &Ty, d: usize) -> Vec<Pat> {
        let mut v = self.cover0(t, d);
        for p in &mut v {
            if self.g.r.chance(1, 15) {
                let Pat::Bind(x) = self.named(t) else { panic!() };
                *p = Pat::At(x, Box::new(p.clone()));
            }
        }
        v
    }
    fn named(&mut self, t: &Ty) -> Pat {
        let v = self.g.fresh(t.clone());
        let n = self.g.counter;
        self.g.counter += 1;
        self.g.p.vars[v].name = format!("w{n}");
        Pat::Bind(v)
    }
    fn cover0(&mut self, t: &Ty, d: usize) -> Vec<Pat> {
        if d == 0 || self.g.r.chance(1, 5) {
            return vec![self.wild(t)];
        }
        match t {
            Ty::Bool => {
                let b = self.g.r.bool();
                vec![Pat::Lit(V::Bool(b), Ty::Bool), Pat::Lit(V::Bool(!b), Ty::Bool)]
            }
            Ty::Int(_) | Ty::UInt(_) => {
                let (lo, hi) = range(t);
                if &hi - &lo < BigInt::from(8) {
                    let mut v = domain(&[], t);
                    self.g.r.shuffle(&mut v);
                    v.into_iter().map(|x| Pat::Lit(V::Int(x), t.clone())).collect()
                } else {
                    let mut v = vec![];
                    for _ in 0..self.g.r.range(1, 3) {
                        let x = match self.g.r.below(4) {
                            0 => lo.clone(),
                            1 => hi.clone(),
                            _ => match self.g.p.defs.random_value(t, self.g.r) {
                                V::Int(x) => x,
                                _ => panic!(),
                            },
                        };
                        v.push(Pat::Lit(V::Int(x), t.clone()));
                    }
                    v.push(self.wild(t));
                    v
                }
            }
            Ty::Tuple(ts) => self.rows(&ts.clone(), d).into_iter().map(Pat::Tup).collect(),
            Ty::Array(e, n) if n.c() > 0 => {
                self.rows(&vec![(**e).clone(); n.c()], d).into_iter().map(Pat::Arr).collect()
            }
            Ty::Adt(i, _) => {
                let mut out = vec![];
                for k in 0..self.g.p.defs.nvariants(*i) {
                    let ts: Vec<Ty> = self.g.p.defs.fields(t, k).into_iter().map(|f| f.1).collect();
                    for r in self.rows(&ts, d - 1) {
                        out.push(Pat::Cons(t.clone(), k, r));
                    }
                }
                out
            }
            _ => vec![self.wild(t)],
        }
    }
    fn rows(&mut self, ts: &[Ty], d: usize) -> Vec<Vec<Pat>> {
        if ts.is_empty() {
            return vec![vec![]];
        }
        // split one column; the others below each of its patterns
        let dd = if self.g.r.bool() { d } else { 0 };
        let first = self.cover(&ts[0], dd.saturating_sub(1));
        let mut out = vec![];
        for p in first {
            for mut r in self.rows(&ts[1..], d.saturating_sub(1)) {
                r.insert(0, p.clone());
                out.push(r);
            }
        }
        out
    }
}

fn count(d: &Defs, t: &Ty, dom: &dyn Fn(&Ty) -> Vec<BigInt>) -> f64 {
    match t {
        Ty::Bool => 2.0,
        Ty::Int(_) | Ty::UInt(_) => dom(t).len() as f64,
        Ty::Tuple(ts) => ts.iter().map(|t| count(d, t, dom)).product(),
        Ty::Array(t, n) => count(d, t, dom).powi(n.c() as i32),
        Ty::Adt(i, _) => (0..d.nvariants(*i))
            .map(|k| d.fields(t, k).iter().map(|f| count(d, &f.1, dom)).product::<f64>())
            .sum(),
        _ => f64::INFINITY,
    }
}

pub fn job(r: &mut Rng, out: &mut JobOut) {
    for _ in 0..10 {
        one(r, out);
    }
}

fn one(r: &mut Rng, out: &mut JobOut) {
    let mut f = Profile::base();
    f.tys = [6, 3, 4, 6, 2, 8, 4];
    f.wide_pct = 6;
    f.max_bits = 60;
    f.zero_pct = if r.chance(1, 6) { 8 } else { 0 };
    let seed = r.next();
    let mut gr = Rng::new(seed);
    let mut g = Gen::new(&mut gr, f);
    // narrow integers so that values can be enumerated
    g.gen_adts(3);
    let mut t = Ty::Bool;
    for _ in 0..20 {
        t = g.rand_ty(2);
        if match_cost(&g.p.defs, &t, &[]) < 300.0 && !matches!(t, Ty::Bool) {
            break;
        }
    }
    let depth = g.r.range(1, 3);
    let mut pats = Cover { g: &mut g }.cover(&t, depth);
    if g.r.chance(1, 3) {
        let more = Cover { g: &mut g }.cover(&t, 2);
        let k = more.len().min(3);
        pats.extend(more.into_iter().take(k));
    }
    g.r.shuffle(&mut pats);
    pats.truncate(20);
    // damage
    for _ in 0..g.r.below(3) {
        if pats.len() > 1 {
            let k = g.r.below(pats.len());
            pats.remove(k);
        }
    }
    let mut guards = vec![false; pats.len()];
    if g.r.chance(1, 4) {
        let k = g.r.below(pats.len());
        guards[k] = true;
    }
    if match_cost(&g.p.defs, &t, &pats.iter().collect::<Vec<_>>()) > 20000.0 {
        return;
    }
    let mut ls = vec![];
    pats.iter().for_each(|p| lits(p, &mut ls));
    let dom = |t: &Ty| domain(&ls, t);
    if count(&g.p.defs, &t, &dom) > 6000.0 {
        return;
    }
    let values = g.p.defs.values_over(&t, &dom);
    // program: the selected arm's number
    g.p.vars.push(VarInfo { name: "scrut".into(), ty: t.clone() });
    let x = g.p.vars.len() - 1;
    g.p.vars.push(VarInfo { name: "gd".into(), ty: Ty::Bool });
    let gd = g.p.vars.len() - 1;
    let shape = g.r.below(5);
    let ret = uint(5);
    let var = |v: VarId, t: &Ty| E { ty: t.clone(), k: K::Var(v) };
    let lit = |n: usize| E { ty: uint(5), k: K::Lit(V::Int(n.into())) };
    let (body, message, single) = if shape == 0 {
        pats.truncate(1);
        guards = vec![false];
        let b = E {
            ty: ret.clone(),
            k: K::Block(vec![St::Let(pats[0].clone(), t.clone(), false, var(x, &t))], Box::new(lit(0))),
        };
        (b, "Refutable pattern", true)
    } else {
        let arms = pats
            .iter()
            .zip(&guards)
            .enumerate()
            .map(|(i, (p, gu))| Arm {
                pat: p.clone(),
                guard: if *gu { Some(var(gd, &Ty::Bool)) } else { None },
                body: lit(i),
            })
            .collect();
        (E { ty: ret.clone(), k: K::Match(Box::new(var(x, &t)), arms) }, "Non-exhaustive match", false)
    };
    g.p.funcs.push(Func {
        name: "top0".into(),
        params: vec![x, gd],
        ret: ret.clone(),
        body: Some(body),
        ntys: 0,
        nnums: 0,
        bounds: vec![],
        attrs: vec![],
        entity: false,
        in_impl: false,
    });
    g.p.tops.push(g.p.funcs.len() - 1);
    let p = g.p.clone();
    let it = Interp::new(&p);
    let hit = |v: &V, guard: bool| -> Option<usize> {
        pats.iter()
            .zip(&guards)
            .position(|(q, gu)| (!*gu || guard) && it.matches(q, v, &mut Env::new()) == Some(true))
    };
    let missing = values.iter().find(|v| hit(v, false).is_none());
    let st = if r.bool() { Style::plain() } else { Style::varied(r.next()) };
    let text = source(&p, &st);
    let c = compile_text(&text, &Opts::default());
    out.evals += 1;
    let detail = |extra: serde_json::Value| json!({"source": text, "rendered": c.run.rendered, "info": extra});
    out.stat(if single { "let patterns judged" } else { "arm sets judged" }, 1);
    match (missing, &c.run.outcome) {
        (_, Outcome::Panic(e)) => out.violation(format!("arms: the compiler panics: {e}"), detail(json!({}))),
        (None, Outcome::Rejected) => {
            out.violation(format!("arms: every value is matched but: {}", c.run.first_error()), detail(json!({})))
        }
        (Some(v), Outcome::Ok(_)) => out.violation(
            format!("arms: accepted although a value is not matched ({})", p.defs.encode(&t, v).to_bin()),
            detail(json!(format!("{v:?}"))),
        ),
        (Some(_), Outcome::Rejected) => {
            if !c.run.first_error().contains(message) {
                out.violation(format!("arms: rejected for another reason: {}", c.run.first_error()), detail(json!({})));
            }
            out.stat("rejections observed", 1);
            out.key(&text);
        }
        (None, Outcome::Ok(_)) => {
            let Some(d) = &c.design else {
                out.violation(format!("arms: emitted Verilog does not parse: {:?}", c.syntax_error), detail(json!({})));
                return;
            };
            let mut vs = vec![];
            for v in &values {
                for b in [false, true] {
                    let k = if single { 0 } else { hit(v, b).unwrap() };
                    vs.push(Vector {
                        ins: vec![p.defs.encode(&t, v), p.defs.encode(&Ty::Bool, &V::Bool(b))],
                        want: p.defs.encode(&ret, &V::Int(k.into())),
                        asserts_failed: false,
                    });
                }
            }
            out.stat("arm selections compared", vs.len() as u64);
            if let Some(m) = run_vectors(d, "top0", &["scrut".into(), "gd".into()], &vs) {
                out.violation(format!("arms: {}", m.what), detail(m.detail));
            }
            if pats.len() > 1 {
                out.key(&text);
            }
        }
    }
}
