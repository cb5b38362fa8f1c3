//! Smaller variants of an expression, for readable counterexamples.
use super::*;

pub fn children(e: &E) -> Vec<&E> {
    match &e.k {
        K::Lit(_) | K::Var(_) | K::Ext(..) => vec![],
        K::Bin(_, a, b) | K::Idx(a, b) => vec![a, b],
        K::Un(_, a) | K::TupIdx(a, _) | K::Field(a, _) | K::Slice(a, _, _) | K::ArrRep(a) | K::Copy(a) => vec![a],
        K::If(a, b, c) => vec![a, b, c],
        K::IfLet(_, a, b, c) => vec![a, b, c],
        K::Match(s, arms) => {
            let mut v: Vec<&E> = vec![s];
            for a in arms {
                if let Some(g) = &a.guard {
                    v.push(g);
                }
                v.push(&a.body);
            }
            v
        }
        K::Block(sts, r) => {
            let mut v: Vec<&E> = sts
                .iter()
                .map(|s| match s {
                    St::Let(_, _, _, e) => e,
                    St::Assert(e) => e,
                })
                .collect();
            v.push(r);
            v
        }
        K::Tup(es) | K::Arr(es) | K::Cons(_, es) | K::Call(_, _, _, es) | K::Std(_, es) => es.iter().collect(),
        K::Method(_, r, es) | K::CallFn(r, es) => {
            let mut v: Vec<&E> = vec![r];
            v.extend(es);
            v
        }
        K::Lambda(_, b) => vec![b],
    }
}
pub fn children_mut(e: &mut E) -> Vec<&mut E> {
    match &mut e.k {
        K::Lit(_) | K::Var(_) | K::Ext(..) => vec![],
        K::Bin(_, a, b) | K::Idx(a, b) => vec![a, b],
        K::Un(_, a) | K::TupIdx(a, _) | K::Field(a, _) | K::Slice(a, _, _) | K::ArrRep(a) | K::Copy(a) => vec![a],
        K::If(a, b, c) => vec![a, b, c],
        K::IfLet(_, a, b, c) => vec![a, b, c],
        K::Match(s, arms) => {
            let mut v: Vec<&mut E> = vec![s];
            for a in arms {
                if let Some(g) = &mut a.guard {
                    v.push(g);
                }
                v.push(&mut a.body);
            }
            v
        }
        K::Block(sts, r) => {
            let mut v: Vec<&mut E> = sts
                .iter_mut()
                .map(|s| match s {
                    St::Let(_, _, _, e) => e,
                    St::Assert(e) => e,
                })
                .collect();
            v.push(r);
            v
        }
        K::Tup(es) | K::Arr(es) | K::Cons(_, es) | K::Call(_, _, _, es) | K::Std(_, es) => es.iter_mut().collect(),
        K::Method(_, r, es) | K::CallFn(r, es) => {
            let mut v: Vec<&mut E> = vec![r];
            v.extend(es);
            v
        }
        K::Lambda(_, b) => vec![b],
    }
}

pub fn size(e: &E) -> usize {
    1 + children(e).into_iter().map(size).sum::<usize>()
}

pub fn pat_vars(p: &Pat, out: &mut Vec<VarId>) {
    match p {
        Pat::Bind(v) => out.push(*v),
        Pat::At(v, p) => {
            out.push(*v);
            pat_vars(p, out)
        }
        Pat::Tup(ps) | Pat::Arr(ps) | Pat::Cons(_, _, ps) => ps.iter().for_each(|p| pat_vars(p, out)),
        _ => {}
    }
}

/// every variable bound anywhere inside
fn bound_in(e: &E, out: &mut Vec<VarId>) {
    match &e.k {
        K::IfLet(p, ..) => pat_vars(p, out),
        K::Match(_, arms) => arms.iter().for_each(|a| pat_vars(&a.pat, out)),
        K::Block(sts, _) => {
            for s in sts {
                if let St::Let(p, ..) = s {
                    pat_vars(p, out)
                }
            }
        }
        K::Lambda(ps, _) => ps.iter().for_each(|p| pat_vars(&p.0, out)),
        _ => {}
    }
    for c in children(e) {
        bound_in(c, out);
    }
}
pub fn used_in(e: &E, out: &mut Vec<VarId>) {
    if let K::Var(v) = &e.k {
        out.push(*v);
    }
    for c in children(e) {
        used_in(c, out);
    }
}

fn zero(p: &Prog, t: &Ty) -> Option<V> {
    Some(match t {
        Ty::Bool => V::Bool(false),
        Ty::Int(Nx::K(_)) | Ty::UInt(Nx::K(_)) => V::Int(BigInt::zero()),
        Ty::Tuple(ts) => V::Tup(ts.iter().map(|t| zero(p, t)).collect::<Option<_>>()?),
        Ty::Array(t, Nx::K(n)) => V::Tup((0..*n).map(|_| zero(p, t)).collect::<Option<_>>()?),
        Ty::Adt(..) => V::En(0, p.defs.fields(t, 0).iter().map(|f| zero(p, &f.1)).collect::<Option<_>>()?),
        _ => return None,
    })
}

/// paths in pre-order
fn paths(e: &E, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(cur.clone());
    for (i, c) in children(e).into_iter().enumerate() {
        cur.push(i);
        paths(c, cur, out);
        cur.pop();
    }
}
fn at<'a>(e: &'a E, p: &[usize]) -> &'a E {
    match p.first() {
        None => e,
        Some(i) => at(children(e)[*i], &p[1..]),
    }
}
fn replace(e: &E, p: &[usize], new: E) -> E {
    let mut r = e.clone();
    {
        let mut cur = &mut r;
        for i in p {
            let mut ch = children_mut(cur);
            cur = ch.swap_remove(*i);
        }
        *cur = new;
    }
    r
}

pub fn candidates(p: &Prog, e: &E) -> Vec<E> {
    let mut ps = vec![];
    paths(e, &mut vec![], &mut ps);
    let mut out: Vec<(usize, E)> = vec![];
    let total = size(e);
    for path in &ps {
        let n = at(e, path);
        let mut bound = vec![];
        bound_in(n, &mut bound);
        // hoist descendants of the same type
        let mut sub = vec![];
        paths(n, &mut vec![], &mut sub);
        for sp in sub.iter().skip(1) {
            let c = at(n, sp);
            if c.ty == n.ty && !matches!(c.k, K::Lambda(..)) {
                let mut used = vec![];
                used_in(c, &mut used);
                if used.iter().any(|u| bound.contains(u)) {
                    continue;
                }
                let r = replace(e, path, c.clone());
                out.push((size(&r), r));
            }
        }
        if !matches!(n.k, K::Lit(_) | K::Lambda(..)) {
            if let Some(z) = zero(p, &n.ty) {
                let r = replace(e, path, E { ty: n.ty.clone(), k: K::Lit(z) });
                let s = size(&r);
                if s < total || matches!(n.k, K::Var(_)) {
                    out.push((s, r));
                }
            }
        }
        // drop block statements and match arms
        if let K::Block(sts, r) = &n.k {
            for i in 0..sts.len() {
                let mut b = vec![];
                if let St::Let(p, ..) = &sts[i] {
                    pat_vars(p, &mut b);
                }
                let mut used = vec![];
                for s in &sts[i + 1..] {
                    match s {
                        St::Let(_, _, _, e) => used_in(e, &mut used),
                        St::Assert(e) => used_in(e, &mut used),
                    }
                }
                used_in(r, &mut used);
                if used.iter().any(|u| b.contains(u)) {
                    continue;
                }
                let mut s2 = sts.clone();
                s2.remove(i);
                let nn = E { ty: n.ty.clone(), k: K::Block(s2, r.clone()) };
                let r = replace(e, path, nn);
                out.push((size(&r), r));
            }
        }
        if let K::Match(s, arms) = &n.k {
            for i in 0..arms.len().saturating_sub(1) {
                let mut a2 = arms.clone();
                a2.remove(i);
                let nn = E { ty: n.ty.clone(), k: K::Match(s.clone(), a2) };
                let r = replace(e, path, nn);
                out.push((size(&r), r));
            }
        }
    }
    out.retain(|x| x.0 <= total);
    out.sort_by_key(|x| x.0);
    out.into_iter().map(|x| x.1).collect()
}
