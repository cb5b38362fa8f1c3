use super::ast::*;
use super::{Design, Issue};
use crate::bits::{B, LV};
use num::bigint::{BigInt, BigUint};
use num::{Integer, Signed as _, ToPrimitive, Zero};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type SigId = usize;

#[derive(Clone, Debug)]
pub enum C {
    Const(LV),
    Sig(SigId),
    SigSlice(SigId, usize, usize),
    /// sig, lsb index expression, offset to subtract from the index, width
    DynSlice(SigId, Box<C>, usize, usize),
    MemRead(usize, Box<C>),
    Ext(Box<C>, usize, bool),
    Concat(Vec<C>),
    Repl(usize, Box<C>),
    Un(&'static str, Box<C>),
    /// operands already extended to the operation width
    Bin(&'static str, Box<C>, Box<C>, bool),
    Shift(&'static str, Box<C>, Box<C>, bool),
    Tern(Box<C>, Box<C>, Box<C>),
}

#[derive(Clone, Debug)]
enum L {
    Sig(SigId, usize, usize),
    Dyn(SigId, C, usize, usize),
    Mem(usize, C),
    Concat(Vec<(L, usize)>),
}

#[derive(Clone, Debug)]
enum S {
    Block(Vec<S>),
    If(C, Box<S>, Option<Box<S>>),
    Assign(L, C, bool),
    Case { wild: bool, sel: C, items: Vec<(Vec<C>, S)>, default: Option<Box<S>> },
    Null,
}

#[derive(Clone, Debug)]
enum PK {
    Comb(S),
    Seq(Vec<(bool, SigId, usize)>, S),
}

struct Proc {
    k: PK,
}

pub struct Sig {
    pub name: String,
    pub w: usize,
}

struct Mem {
    w: usize,
    data: Vec<LV>,
}

#[derive(Clone, Debug)]
enum Sym {
    Net { id: SigId, w: usize, scalar: bool },
    Mem { id: usize, w: usize, #[allow(dead_code)] n: usize },
    Param { val: LV, signed: bool },
}

pub struct InstInfo {
    pub path: Vec<String>,
    pub module: String,
    /// signal name -> (id, width); memories and params are excluded
    pub nets: Vec<(String, SigId, usize)>,
}

struct AssertP {
    cond: C,
    watch: SigId,
    last: LV,
    name: String,
}

pub struct Sim {
    pub sigs: Vec<Sig>,
    vals: Vec<LV>,
    mems: Vec<Mem>,
    procs: Vec<Proc>,
    fan: Vec<Vec<usize>>,
    mfan: Vec<Vec<usize>>,
    order: Vec<usize>, // rank -> proc
    rank: Vec<usize>,  // proc -> rank
    dirty: Vec<bool>,  // by rank
    lo_dirty: usize,
    trig_last: Vec<LV>, // by signal of clocks
    clocks: Vec<SigId>,
    tri: HashMap<SigId, Vec<(usize, LV)>>,
    asserts: Vec<AssertP>,
    pub failed_asserts: Vec<String>,
    pub instances: Vec<InstInfo>,
    pub top_ports: BTreeMap<String, (Dir, SigId, usize)>,
    pub events: u64,
    pub edges: u64,
    drivers: Vec<(SigId, usize, usize, String)>,
    inouts: BTreeSet<SigId>,
    inits: Vec<S>,
    oscillated: bool,
}

struct Scope<'a> {
    syms: HashMap<String, Sym>,
    module: &'a Module,
}

type R<T> = Result<T, String>;

const MAXDEPTH: usize = 200;

pub fn structural_check(d: &Design) -> Vec<Issue> {
    let mut issues = d.issues.clone();
    for name in &d.order {
        let mut s = Sim::empty();
        let mut el = Elab { d, issues: &mut issues, lint: true };
        if let Err(e) = el.module(&mut s, name, &[], &HashMap::new(), vec![], 0) {
            issues.push(Issue { kind: "elaboration", module: name.clone(), msg: e });
        } else {
            s.check_drivers(name, &mut issues);
        }
    }
    issues.sort();
    issues.dedup();
    issues
}

struct Elab<'a> {
    d: &'a Design,
    issues: &'a mut Vec<Issue>,
    /// check one module only: do not descend into instances
    lint: bool,
}

struct Ty {
    w: usize,
    signed: bool,
    exact: bool,
}

impl<'a> Elab<'a> {
    fn issue(&mut self, kind: &'static str, m: &str, msg: String) {
        self.issues.push(Issue { kind, module: m.to_string(), msg });
    }

    fn cint(&mut self, sc: &Scope, e: &Expr) -> R<i64> {
        let c = self.comp_self(sc, e)?;
        match c {
            C::Const(v) => {
                let ty = self.ty(sc, e)?;
                let r = if ty.signed { v.to_bigint_signed() } else { v.to_biguint().map(BigInt::from) };
                r.and_then(|x| x.to_i64()).ok_or_else(|| format!("constant {e:?} is undefined or too large"))
            }
            _ => Err(format!("expression is not constant: {e:?}")),
        }
    }
    fn width(&mut self, sc: &Scope, r: &Option<(Expr, Expr)>) -> R<usize> {
        match r {
            None => Ok(1),
            Some((a, b)) => {
                let a = self.cint(sc, a)?;
                let b = self.cint(sc, b)?;
                if b != 0 || a < 0 {
                    return Err(format!("unsupported or empty range [{a}:{b}]"));
                }
                Ok(a as usize + 1)
            }
        }
    }

    fn sym<'s>(&mut self, sc: &'s Scope, n: &str) -> R<&'s Sym> {
        sc.syms.get(n).ok_or_else(|| format!("identifier '{n}' is not declared before use in module '{}'", sc.module.name))
    }

    fn ty(&mut self, sc: &Scope, e: &Expr) -> R<Ty> {
        let t = |w, signed, exact| Ok(Ty { w, signed, exact });
        match e {
            Expr::Num { val, signed, sized, .. } => t(val.w, *signed, *sized),
            Expr::Str(s) => t(s.len() * 8, false, false),
            Expr::Id(n) => match self.sym(sc, n)? {
                Sym::Net { w, .. } => t(*w, false, true),
                Sym::Param { val, signed } => t(val.w, *signed, true),
                Sym::Mem { .. } => Err(format!("memory '{n}' used as a value")),
            },
            Expr::Index(b, _) => match &**b {
                Expr::Id(n) => match self.sym(sc, n)? {
                    Sym::Mem { w, .. } => t(*w, false, true),
                    _ => t(1, false, true),
                },
                _ => t(1, false, true),
            },
            Expr::Range(_, a, b) => {
                let a = self.cint(sc, a)?;
                let b = self.cint(sc, b)?;
                if a < b {
                    return Err(format!("reversed part select [{a}:{b}]"));
                }
                t((a - b + 1) as usize, false, true)
            }
            Expr::PartUp(_, _, w) | Expr::PartDown(_, _, w) => {
                let w = self.cint(sc, w)?;
                if w <= 0 {
                    return Err(format!("part select of width {w}"));
                }
                t(w as usize, false, true)
            }
            Expr::Concat(v) => {
                if v.is_empty() {
                    return Err("empty concatenation".into());
                }
                let mut s = 0;
                let mut ex = true;
                for x in v {
                    if let Expr::Num { sized: false, .. } = x {
                        return Err("unsized constant in concatenation".into());
                    }
                    let ty = self.ty(sc, x)?;
                    s += ty.w;
                    ex &= ty.exact;
                }
                t(s, false, ex)
            }
            Expr::Repl(n, v) => {
                let n = self.cint(sc, n)?;
                if n <= 0 {
                    return Err(format!("replication count {n}"));
                }
                let i = self.ty(sc, &Expr::Concat(v.clone()))?;
                t(i.w * n as usize, false, i.exact)
            }
            Expr::Un(op, a) => {
                let a = self.ty(sc, a)?;
                match *op {
                    "~" | "-" | "+" => t(a.w, a.signed, a.exact && *op == "~"),
                    _ => t(1, false, true),
                }
            }
            Expr::Bin(op, a, b) => {
                let a = self.ty(sc, a)?;
                let b = self.ty(sc, b)?;
                match *op {
                    "<<" | ">>" | ">>>" | "<<<" => t(a.w, a.signed, false),
                    "==" | "!=" | "===" | "!==" | "<" | ">" | "<=" | ">=" | "&&" | "||" => t(1, false, true),
                    "&" | "|" | "^" | "~^" | "^~" => {
                        t(a.w.max(b.w), a.signed && b.signed, a.exact && b.exact && a.w == b.w)
                    }
                    _ => t(a.w.max(b.w), a.signed && b.signed, false),
                }
            }
            Expr::Tern(_, a, b) => {
                let a = self.ty(sc, a)?;
                let b = self.ty(sc, b)?;
                t(a.w.max(b.w), a.signed && b.signed, a.exact && b.exact && a.w == b.w)
            }
            Expr::Signed(a) => {
                let a = self.ty(sc, a)?;
                t(a.w, true, a.exact)
            }
            Expr::Unsigned(a) => {
                let a = self.ty(sc, a)?;
                t(a.w, false, a.exact)
            }
        }
    }

    fn comp_self(&mut self, sc: &Scope, e: &Expr) -> R<C> {
        let t = self.ty(sc, e)?;
        self.comp(sc, e, t.w, t.signed)
    }

    /// Compile with the context width and signedness of IEEE 1364 section 5.4/5.5
    fn comp(&mut self, sc: &Scope, e: &Expr, w: usize, signed: bool) -> R<C> {
        let r = match e {
            Expr::Num { val, fill, .. } => C::Const(val.resize(w, signed || (*fill && w > val.w))),
            Expr::Str(s) => {
                let parts: Vec<LV> = s.bytes().map(|b| LV::from_u64(b as u64, 8)).collect();
                C::Const(LV::concat(&parts).resize(w, false))
            }
            Expr::Id(n) => match self.sym(sc, n)? {
                Sym::Net { id, w: nw, .. } => ext(C::Sig(*id), *nw, w, signed),
                Sym::Param { val, .. } => C::Const(val.resize(w, signed)),
                Sym::Mem { .. } => return Err(format!("memory '{n}' used as a value")),
            },
            Expr::Index(..) | Expr::Range(..) | Expr::PartUp(..) | Expr::PartDown(..) => {
                let (c, cw) = self.select(sc, e)?;
                ext(c, cw, w, signed)
            }
            Expr::Concat(v) => {
                let t = self.ty(sc, e)?;
                let mut cs = vec![];
                for x in v {
                    cs.push(self.comp_self(sc, x)?);
                }
                ext(if cs.len() == 1 { cs.pop().unwrap() } else { C::Concat(cs) }, t.w, w, signed)
            }
            Expr::Repl(n, v) => {
                let t = self.ty(sc, e)?;
                let n = self.cint(sc, n)? as usize;
                let c = self.comp_self(sc, &Expr::Concat(v.clone()))?;
                ext(C::Repl(n, Box::new(c)), t.w, w, signed)
            }
            Expr::Un(op, a) => match *op {
                "~" | "-" | "+" => C::Un(op, Box::new(self.comp(sc, a, w, signed)?)),
                _ => ext(C::Un(op, Box::new(self.comp_self(sc, a)?)), 1, w, signed),
            },
            Expr::Bin(op, a, b) => match *op {
                "<<" | ">>" | ">>>" | "<<<" => {
                    let l = self.comp(sc, a, w, signed)?;
                    let r = self.comp_self(sc, b)?;
                    C::Shift(op, Box::new(l), Box::new(r), signed)
                }
                "==" | "!=" | "===" | "!==" | "<" | ">" | "<=" | ">=" => {
                    let (ta, tb) = (self.ty(sc, a)?, self.ty(sc, b)?);
                    let (ow, os) = (ta.w.max(tb.w), ta.signed && tb.signed);
                    let l = self.comp(sc, a, ow, os)?;
                    let r = self.comp(sc, b, ow, os)?;
                    ext(C::Bin(op, Box::new(l), Box::new(r), os), 1, w, signed)
                }
                "&&" | "||" => {
                    let l = self.comp_self(sc, a)?;
                    let r = self.comp_self(sc, b)?;
                    ext(C::Bin(op, Box::new(l), Box::new(r), false), 1, w, signed)
                }
                _ => {
                    let l = self.comp(sc, a, w, signed)?;
                    let r = self.comp(sc, b, w, signed)?;
                    C::Bin(op, Box::new(l), Box::new(r), signed)
                }
            },
            Expr::Tern(c, a, b) => {
                let c = self.comp_self(sc, c)?;
                let l = self.comp(sc, a, w, signed)?;
                let r = self.comp(sc, b, w, signed)?;
                C::Tern(Box::new(c), Box::new(l), Box::new(r))
            }
            Expr::Signed(a) | Expr::Unsigned(a) => {
                let t = self.ty(sc, a)?;
                let c = self.comp_self(sc, a)?;
                ext(c, t.w, w, signed)
            }
        };
        Ok(fold(r))
    }

    fn select(&mut self, sc: &Scope, e: &Expr) -> R<(C, usize)> {
        let base = match e {
            Expr::Index(b, _) | Expr::Range(b, _, _) | Expr::PartUp(b, _, _) | Expr::PartDown(b, _, _) => b,
            _ => unreachable!(),
        };
        let Expr::Id(n) = &**base else {
            return Err("select on a non-identifier".into());
        };
        let sym = self.sym(sc, n)?.clone();
        match sym {
            Sym::Mem { id, w, .. } => {
                let Expr::Index(_, i) = e else {
                    return Err(format!("part select on memory '{n}'"));
                };
                let i = self.comp_self(sc, i)?;
                Ok((C::MemRead(id, Box::new(i)), w))
            }
            Sym::Param { val, .. } => {
                let (lo, w) = self.static_or_dyn(sc, e, n, val.w, false)?;
                match lo {
                    Ok(lo) => Ok((C::Const(val.slice(lo, w)), w)),
                    Err((i, off)) => {
                        // dynamic select on a constant: rewrite as a shift
                        let shifted = C::Shift(
                            ">>",
                            Box::new(C::Const(val.clone())),
                            Box::new(match off {
                                0 => i,
                                _ => return Err("unsupported dynamic -: select on parameter".into()),
                            }),
                            false,
                        );
                        Ok((C::Ext(Box::new(shifted), w, false), w))
                    }
                }
            }
            Sym::Net { id, w: nw, scalar } => {
                let (lo, w) = self.static_or_dyn(sc, e, n, nw, scalar)?;
                match lo {
                    Ok(lo) => Ok((C::SigSlice(id, lo, w), w)),
                    Err((i, off)) => Ok((C::DynSlice(id, Box::new(i), off, w), w)),
                }
            }
        }
    }

    fn static_or_dyn(&mut self, sc: &Scope, e: &Expr, n: &str, nw: usize, scalar: bool) -> R<(Result<usize, (C, usize)>, usize)> {
        let mname = sc.module.name.clone();
        if scalar {
            self.issue("select-on-scalar", &mname, format!("select on scalar '{n}'"));
        }
        let (lo, w, dynamic) = match e {
            Expr::Index(_, i) => {
                let c = self.comp_self(sc, i)?;
                match &c {
                    C::Const(v) => (v.to_u64().map(|x| x as i64), 1, None),
                    _ => (None, 1, Some((c, 0))),
                }
            }
            Expr::Range(_, a, b) => {
                let a = self.cint(sc, a)?;
                let b = self.cint(sc, b)?;
                if a < b {
                    return Err(format!("reversed part select {n}[{a}:{b}]"));
                }
                (Some(b), (a - b + 1) as usize, None)
            }
            Expr::PartUp(_, a, w) => {
                let w = self.cint(sc, w)?;
                if w <= 0 {
                    return Err(format!("part select of width {w}"));
                }
                let c = self.comp_self(sc, a)?;
                match &c {
                    C::Const(v) => (v.to_u64().map(|x| x as i64), w as usize, None),
                    _ => (None, w as usize, Some((c, 0))),
                }
            }
            Expr::PartDown(_, a, w) => {
                let w = self.cint(sc, w)?;
                if w <= 0 {
                    return Err(format!("part select of width {w}"));
                }
                let c = self.comp_self(sc, a)?;
                match &c {
                    C::Const(v) => (v.to_u64().map(|x| x as i64 - (w - 1)), w as usize, None),
                    _ => (None, w as usize, Some((c, w as usize - 1))),
                }
            }
            _ => unreachable!(),
        };
        match dynamic {
            Some((c, off)) => Ok((Err((c, off)), w)),
            None => match lo {
                Some(lo) if lo >= 0 && lo as usize + w <= nw => Ok((Ok(lo as usize), w)),
                Some(lo) => {
                    self.issue("select-out-of-range", &mname, format!("'{n}' has {nw} bits, selected [{lo}+:{w}]"));
                    // reads as X
                    Ok((Ok(if lo < 0 { nw } else { lo as usize }), w))
                }
                None => {
                    self.issue("select-out-of-range", &mname, format!("'{n}': index undefined or huge"));
                    Ok((Ok(nw), w))
                }
            },
        }
    }

    fn lval(&mut self, sc: &Scope, e: &Expr, cont: bool) -> R<(L, usize)> {
        match e {
            Expr::Id(n) => match self.sym(sc, n)?.clone() {
                Sym::Net { id, w, .. } => Ok((L::Sig(id, 0, w), w)),
                Sym::Mem { .. } => Err(format!("assignment to whole memory '{n}'")),
                Sym::Param { .. } => Err(format!("assignment to parameter '{n}'")),
            },
            Expr::Concat(v) => {
                if v.is_empty() {
                    return Err("empty concatenation as assignment target".into());
                }
                let mut out = vec![];
                let mut w = 0;
                for x in v {
                    let (l, lw) = self.lval(sc, x, cont)?;
                    w += lw;
                    out.push((l, lw));
                }
                Ok((L::Concat(out), w))
            }
            _ => {
                if let Expr::Index(b, i) = e {
                    if let Expr::Id(n) = &**b {
                        if let Sym::Mem { id, w, .. } = self.sym(sc, n)?.clone() {
                            let c = self.comp_self(sc, i)?;
                            return Ok((L::Mem(id, c), w));
                        }
                    }
                }
                let base = match e {
                    Expr::Index(b, _) | Expr::Range(b, _, _) | Expr::PartUp(b, _, _) | Expr::PartDown(b, _, _) => b,
                    _ => return Err("bad assignment target".into()),
                };
                let Expr::Id(n) = &**base else { return Err("bad assignment target".into()) };
                let n = n.clone();
                match self.sym(sc, &n)?.clone() {
                    Sym::Net { id, w: nw, scalar } => {
                        let (lo, w) = self.static_or_dyn(sc, e, &n, nw, scalar)?;
                        match lo {
                            Ok(lo) => Ok((L::Sig(id, lo, w), w)),
                            Err((c, off)) => {
                                if cont {
                                    let m = sc.module.name.clone();
                                    self.issue("dynamic-lvalue", &m, format!("continuous assignment to non-constant index of '{n}'"));
                                }
                                Ok((L::Dyn(id, c, off, w), w))
                            }
                        }
                    }
                    _ => Err(format!("select assignment to non-net '{n}'")),
                }
            }
        }
    }

    fn check_width(&mut self, sc: &Scope, lw: usize, rhs: &Expr, what: &str) -> R<()> {
        let t = self.ty(sc, rhs)?;
        if t.exact && t.w != lw {
            let m = sc.module.name.clone();
            self.issue("width-mismatch", &m, format!("{what}: {} bits assigned to {lw} bits", t.w));
        }
        Ok(())
    }

    fn assign_c(&mut self, sc: &Scope, lw: usize, rhs: &Expr) -> R<C> {
        let t = self.ty(sc, rhs)?;
        let w = t.w.max(lw);
        let c = self.comp(sc, rhs, w, t.signed)?;
        Ok(fold(if w > lw { C::Ext(Box::new(c), lw, false) } else { c }))
    }

    fn stmt(&mut self, sc: &Scope, s: &Stmt, asserts: &mut Vec<C>) -> R<S> {
        Ok(match s {
            Stmt::Block(v) => {
                let mut o = vec![];
                for x in v {
                    o.push(self.stmt(sc, x, asserts)?);
                }
                S::Block(o)
            }
            Stmt::If(c, t, e) => {
                let c = self.comp_self(sc, c)?;
                let t = self.stmt(sc, t, asserts)?;
                let e = match e {
                    Some(e) => Some(Box::new(self.stmt(sc, e, asserts)?)),
                    None => None,
                };
                S::If(c, Box::new(t), e)
            }
            Stmt::Assign { lhs, rhs, nb } => {
                let (l, lw) = self.lval(sc, lhs, false)?;
                self.check_width(sc, lw, rhs, &format!("{lhs:?}"))?;
                let c = self.assign_c(sc, lw, rhs)?;
                S::Assign(l, c, *nb)
            }
            Stmt::Case { kind, sel, items, default } => {
                let mut w = self.ty(sc, sel)?.w;
                for (ls, _) in items {
                    for l in ls {
                        w = w.max(self.ty(sc, l)?.w);
                    }
                }
                let sel = self.comp(sc, sel, w, false)?;
                let mut its = vec![];
                for (ls, st) in items {
                    let mut cs = vec![];
                    for l in ls {
                        cs.push(self.comp_case_label(sc, l, w)?);
                    }
                    its.push((cs, self.stmt(sc, st, asserts)?));
                }
                let default = match default {
                    Some(d) => Some(Box::new(self.stmt(sc, d, asserts)?)),
                    None => None,
                };
                S::Case { wild: kind != "case", sel, items: its, default }
            }
            Stmt::Assert(e) => {
                let c = self.comp_self(sc, e)?;
                asserts.push(c);
                S::Null
            }
            Stmt::Sys(_) | Stmt::Null => S::Null,
        })
    }

    fn comp_case_label(&mut self, sc: &Scope, l: &Expr, w: usize) -> R<C> {
        self.comp(sc, l, w, false)
    }

    fn module(
        &mut self,
        s: &mut Sim,
        name: &str,
        params: &[(String, LV)],
        conns: &HashMap<String, SigId>,
        path: Vec<String>,
        depth: usize,
    ) -> R<HashMap<String, SigId>> {
        if depth > MAXDEPTH {
            return Err("instance nesting too deep (recursive instantiation?)".into());
        }
        let d = self.d;
        let m = d.modules.get(name).ok_or_else(|| format!("module '{name}' does not exist"))?;
        let mut sc = Scope { syms: HashMap::new(), module: m };
        let mut nets: Vec<(String, SigId, usize)> = vec![];
        let pre = if path.is_empty() { String::new() } else { format!("{}.", path.join(".")) };
        for (n, r, def) in &m.params {
            let v = match params.iter().find(|p| &p.0 == n) {
                Some(p) => p.1.clone(),
                None => match self.comp_self(&sc, def)? {
                    C::Const(v) => v,
                    _ => return Err("parameter default is not constant".into()),
                },
            };
            let v = match r {
                Some(_) => {
                    let w = self.width(&sc, r)?;
                    v.resize(w, true)
                }
                None => v,
            };
            let signed = r.is_none();
            sc.syms.insert(n.clone(), Sym::Param { val: v, signed });
        }
        for (n, _) in params {
            if !m.params.iter().any(|p| &p.0 == n) {
                self.issue("bad-parameter", name, format!("no parameter '{n}'"));
            }
        }
        let mut portmap = HashMap::new();
        for p in &m.ports {
            let w = self.width(&sc, &p.range)?;
            if sc.syms.contains_key(&p.name) {
                self.issue("duplicate-declaration", name, format!("port '{}' declared twice", p.name));
                continue;
            }
            let id = match conns.get(&p.name) {
                Some(id) => *id,
                None => s.new_sig(format!("{pre}{}", p.name), w),
            };
            if p.dir == Dir::InOut {
                s.inouts.insert(id);
            }
            portmap.insert(p.name.clone(), id);
            nets.push((p.name.clone(), id, w));
            sc.syms.insert(p.name.clone(), Sym::Net { id, w, scalar: p.range.is_none() });
            if depth == 0 {
                if p.dir == Dir::In {
                    s.drivers.push((id, 0, w, format!("input port {}", p.name)));
                }
                s.top_ports.insert(p.name.clone(), (p.dir, id, w));
            }
        }
        let mut instnames = BTreeSet::new();
        for (item, line) in &m.items {
            match item {
                Item::Decl { name: n, range, unpacked, .. } => {
                    let w = self.width(&sc, range)?;
                    if sc.syms.contains_key(n) {
                        self.issue("duplicate-declaration", name, format!("'{n}' declared twice"));
                        continue;
                    }
                    match unpacked {
                        None => {
                            let id = s.new_sig(format!("{pre}{n}"), w);
                            nets.push((n.clone(), id, w));
                            sc.syms.insert(n.clone(), Sym::Net { id, w, scalar: range.is_none() });
                        }
                        Some((a, b)) => {
                            let a = self.cint(&sc, a)?;
                            let b = self.cint(&sc, b)?;
                            let len = (a - b).unsigned_abs() as usize + 1;
                            if a.min(b) != 0 {
                                return Err(format!("unsupported memory range of '{n}'"));
                            }
                            let id = s.mems.len();
                            s.mems.push(Mem { w, data: vec![LV::xs(w); len] });
                            sc.syms.insert(n.clone(), Sym::Mem { id, w, n: len });
                        }
                    }
                }
                Item::Localparam { name: n, range, val } => {
                    if sc.syms.contains_key(n) {
                        self.issue("duplicate-declaration", name, format!("'{n}' declared twice"));
                        continue;
                    }
                    let t = self.ty(&sc, val)?;
                    let (w, signed) = match range {
                        Some(_) => (self.width(&sc, range)?, false),
                        None => (t.w, t.signed),
                    };
                    if t.exact && t.w != w {
                        self.issue("width-mismatch", name, format!("localparam {n}: {} bits in {w}", t.w));
                    }
                    let c = self.assign_c(&sc, w, val)?;
                    let C::Const(v) = c else {
                        return Err(format!("localparam '{n}' is not constant"));
                    };
                    // value must be preserved
                    sc.syms.insert(n.clone(), Sym::Param { val: v, signed });
                }
                Item::Assign(l, r) => {
                    let (lv, lw) = self.lval(&sc, l, true)?;
                    self.check_width(&sc, lw, r, &format!("assign at line {line} to {l:?}"))?;
                    let c = self.assign_c(&sc, lw, r)?;
                    s.add_drivers(&lv, &format!("assign at line {line}"));
                    s.procs.push(Proc { k: PK::Comb(S::Assign(lv, c, false)) });
                }
                Item::Always(trig, st) => {
                    let mut asserts = vec![];
                    let stc = self.stmt(&sc, st, &mut asserts)?;
                    match trig {
                        Trigger::Comb => {
                            s.add_stmt_drivers(&stc, &format!("always_comb at line {line}"));
                            s.procs.push(Proc { k: PK::Comb(stc) })
                        }
                        Trigger::Posedge(v) => {
                            let mut t = vec![];
                            for (pos, e) in v {
                                match e {
                                    Expr::Id(n) => match self.sym(&sc, n)?.clone() {
                                        Sym::Net { id, w, .. } => {
                                            if w != 1 {
                                                self.issue("wide-clock", name, format!("clock '{n}' is {w} bits wide"));
                                            }
                                            t.push((*pos, id, 0))
                                        }
                                        // clock tied to a constant never has an edge
                                        Sym::Param { .. } => {}
                                        _ => return Err("bad clock".into()),
                                    },
                                    Expr::Index(..) => match self.select(&sc, e)?.0 {
                                        C::SigSlice(id, lo, _) => t.push((*pos, id, lo)),
                                        _ => return Err("bad clock".into()),
                                    },
                                    _ => return Err("bad clock expression".into()),
                                }
                            }
                            s.add_stmt_drivers(&stc, &format!("always at line {line}"));
                            for x in &t {
                                if !s.clocks.contains(&x.1) {
                                    s.clocks.push(x.1);
                                }
                            }
                            s.procs.push(Proc { k: PK::Seq(t, stc) });
                        }
                        Trigger::Change(es) => {
                            for (e, c) in es.iter().zip(asserts) {
                                if let Expr::Id(n) = e {
                                    if let Sym::Net { id, w, .. } = self.sym(&sc, n)?.clone() {
                                        s.asserts.push(AssertP {
                                            cond: c,
                                            watch: id,
                                            last: LV::xs(w),
                                            name: format!("{}:{line}", pre.clone() + name),
                                        });
                                    } else {
                                        self.sym(&sc, n)?;
                                    }
                                }
                            }
                        }
                    }
                }
                Item::Initial(st) => {
                    let mut a = vec![];
                    let st = self.stmt(&sc, st, &mut a)?;
                    s.inits.push(st);
                }
                Item::Instance { module, params, name: iname, conns } => {
                    if !instnames.insert(iname.clone()) {
                        self.issue("duplicate-instance", name, format!("instance name '{iname}' used twice"));
                    }
                    let Some(child) = d.modules.get(module) else {
                        self.issue("unknown-module", name, format!("instance '{iname}' of unknown module '{module}'"));
                        continue;
                    };
                    let mut pv = vec![];
                    for (n, e) in params {
                        match self.comp_self(&sc, e)? {
                            C::Const(v) => pv.push((n.clone(), v)),
                            _ => return Err("non-constant parameter".into()),
                        }
                    }
                    // child port widths
                    let mut csc = Scope { syms: HashMap::new(), module: child };
                    for (n, r, def) in &child.params {
                        let v = match pv.iter().find(|p| &p.0 == n) {
                            Some(p) => p.1.clone(),
                            None => match self.comp_self(&csc, def)? {
                                C::Const(v) => v,
                                _ => return Err("parameter default".into()),
                            },
                        };
                        csc.syms.insert(n.clone(), Sym::Param { val: v, signed: r.is_none() });
                    }
                    let mut map = HashMap::new();
                    let mut seen = BTreeSet::new();
                    for (pn, e) in conns {
                        if !seen.insert(pn.clone()) {
                            self.issue("port-connected-twice", name, format!("port '{pn}' of instance '{iname}'"));
                            continue;
                        }
                        let Some(port) = child.ports.iter().find(|p| &p.name == pn) else {
                            self.issue("unknown-port", name, format!("module '{module}' has no port '{pn}' (instance '{iname}')"));
                            continue;
                        };
                        let Some(e) = e else { continue };
                        let pw = self.width(&csc, &port.range)?;
                        let t = self.ty(&sc, e)?;
                        if t.w != pw {
                            self.issue(
                                "port-width",
                                name,
                                format!("port '{pn}' of instance '{iname}' is {pw} bits, connected to {} bits", t.w),
                            );
                        }
                        if let Expr::Id(n) = e {
                            if let Sym::Net { id, w, .. } = self.sym(&sc, n)?.clone() {
                                if w == pw {
                                    if self.lint {
                                        if port.dir == Dir::Out {
                                            s.drivers.push((id, 0, w, format!("output {pn} of instance {iname}")));
                                        } else if port.dir == Dir::InOut {
                                            s.inouts.insert(id);
                                        }
                                    }
                                    map.insert(pn.clone(), id);
                                    continue;
                                }
                            }
                        }
                        match port.dir {
                            Dir::In => {
                                let c = self.assign_c(&sc, pw, e)?;
                                let id = s.new_sig(format!("{pre}{iname}.{pn}"), pw);
                                let lv = L::Sig(id, 0, pw);
                                s.add_drivers(&lv, "port expression");
                                s.procs.push(Proc { k: PK::Comb(S::Assign(lv, c, false)) });
                                map.insert(pn.clone(), id);
                            }
                            Dir::Out => {
                                let (lv, lw) = self.lval(&sc, e, true)?;
                                let id = s.new_sig(format!("{pre}{iname}.{pn}"), pw);
                                s.add_drivers(&lv, &format!("output {pn} of instance {iname}"));
                                let c = ext(C::Sig(id), pw, lw.max(pw), false);
                                let c = if lw < pw { C::Ext(Box::new(c), lw, false) } else { c };
                                s.procs.push(Proc { k: PK::Comb(S::Assign(lv, c, false)) });
                                map.insert(pn.clone(), id);
                            }
                            Dir::InOut => {
                                self.issue("inout-connection", name, format!("inout port '{pn}' needs a net"));
                            }
                        }
                    }
                    for p in &child.ports {
                        if !seen.contains(&p.name) {
                            self.issue("unconnected-port", name, format!("port '{}' of instance '{iname}' ({module})", p.name));
                        }
                    }
                    if !self.lint {
                        let mut cp = path.clone();
                        cp.push(iname.clone());
                        self.module(s, module, &pv, &map, cp, depth + 1)?;
                    }
                }
            }
        }
        for i in &instnames {
            if sc.syms.contains_key(i) {
                self.issue("duplicate-declaration", name, format!("'{i}' is both a net and an instance"));
            }
        }
        s.instances.push(InstInfo { path, module: name.to_string(), nets });
        Ok(portmap)
    }
}

fn ext(c: C, from: usize, to: usize, signed: bool) -> C {
    if from == to {
        c
    } else {
        C::Ext(Box::new(c), to, signed)
    }
}

fn is_const(c: &C) -> bool {
    matches!(c, C::Const(_))
}

fn fold(c: C) -> C {
    let all = match &c {
        C::Const(_) | C::Sig(_) | C::SigSlice(..) | C::DynSlice(..) | C::MemRead(..) => false,
        C::Ext(a, ..) | C::Repl(_, a) | C::Un(_, a) => is_const(a),
        C::Concat(v) => v.iter().all(is_const),
        C::Bin(_, a, b, _) | C::Shift(_, a, b, _) => is_const(a) && is_const(b),
        C::Tern(a, b, d) => is_const(a) && is_const(b) && is_const(d),
    };
    if all {
        C::Const(eval(&c, &[], &[]))
    } else {
        c
    }
}

fn eval(c: &C, v: &[LV], mems: &[Mem]) -> LV {
    match c {
        C::Const(x) => x.clone(),
        C::Sig(i) => v[*i].clone(),
        C::SigSlice(i, lo, w) => v[*i].slice(*lo, *w),
        C::DynSlice(i, idx, off, w) => {
            let ix = eval(idx, v, mems);
            match ix.to_biguint() {
                None => LV::xs(*w),
                Some(ix) => {
                    let Some(ix) = ix.to_i64() else { return LV::xs(*w) };
                    let lo = ix - *off as i64;
                    let s = &v[*i];
                    if lo >= s.w as i64 {
                        return LV::xs(*w);
                    }
                    if lo >= 0 {
                        s.slice(lo as usize, *w)
                    } else {
                        let mut r = LV::xs(*w);
                        for k in 0..*w {
                            let p = lo + k as i64;
                            if p >= 0 && (p as usize) < s.w {
                                r.set_bit(k, s.bit(p as usize));
                            }
                        }
                        r
                    }
                }
            }
        }
        C::MemRead(m, idx) => {
            let ix = eval(idx, v, mems);
            let m = &mems[*m];
            match ix.to_u64() {
                Some(i) if (i as usize) < m.data.len() => m.data[i as usize].clone(),
                _ => LV::xs(m.w),
            }
        }
        C::Ext(a, w, s) => eval(a, v, mems).resize(*w, *s),
        C::Concat(cs) => {
            let parts: Vec<LV> = cs.iter().map(|c| eval(c, v, mems)).collect();
            LV::concat(&parts)
        }
        C::Repl(n, a) => {
            let a = eval(a, v, mems);
            LV::concat(&vec![a; *n])
        }
        C::Un(op, a) => {
            let a = eval(a, v, mems);
            match *op {
                "~" => a.bitnot(),
                "+" => a,
                "-" => {
                    if a.has_x() {
                        LV::xs(a.w)
                    } else {
                        let x = BigInt::from(a.to_biguint().unwrap());
                        LV::from_bigint(&(-x), a.w)
                    }
                }
                "!" => tv(a.truth().map(|x| !x)),
                "&" => a.reduce_and().lv(),
                "|" => tv(a.truth()),
                "^" => a.reduce_xor().lv(),
                "~&" => a.reduce_and().lv().bitnot(),
                "~|" => tv(a.truth().map(|x| !x)),
                "~^" | "^~" => a.reduce_xor().lv().bitnot(),
                _ => unreachable!(),
            }
        }
        C::Bin(op, a, b, signed) => {
            let a = eval(a, v, mems);
            match *op {
                "&&" => {
                    let b = eval(b, v, mems);
                    return tv(match (a.truth(), b.truth()) {
                        (Some(false), _) | (_, Some(false)) => Some(false),
                        (Some(true), Some(true)) => Some(true),
                        _ => None,
                    });
                }
                "||" => {
                    let b = eval(b, v, mems);
                    return tv(match (a.truth(), b.truth()) {
                        (Some(true), _) | (_, Some(true)) => Some(true),
                        (Some(false), Some(false)) => Some(false),
                        _ => None,
                    });
                }
                _ => {}
            }
            let b = eval(b, v, mems);
            binop(op, &a, &b, *signed)
        }
        C::Shift(op, a, b, signed) => {
            let a = eval(a, v, mems);
            let b = eval(b, v, mems);
            if b.has_x() {
                return LV::xs(a.w);
            }
            let n = b.to_u64().unwrap_or(u64::MAX).min(a.w as u64) as usize;
            let w = a.w;
            match *op {
                "<<" | "<<<" => {
                    let mut r = LV::zeros(w);
                    if n < w {
                        r.splice(n, &a.slice(0, w - n));
                    }
                    r
                }
                _ => {
                    let sx = *op == ">>>" && *signed;
                    if n >= w {
                        let fillb = if sx && w > 0 { a.bit(w - 1) } else { B::B0 };
                        let mut r = LV::zeros(w);
                        for i in 0..w {
                            r.set_bit(i, fillb);
                        }
                        return r;
                    }
                    a.slice(n, w - n).resize(w, sx)
                }
            }
        }
        C::Tern(c, a, b) => match eval(c, v, mems).truth() {
            Some(true) => eval(a, v, mems),
            Some(false) => eval(b, v, mems),
            None => {
                let a = eval(a, v, mems);
                let b = eval(b, v, mems);
                a.merge(&b)
            }
        },
    }
}

fn tv(x: Option<bool>) -> LV {
    match x {
        Some(b) => LV::from_bool(b),
        None => LV::x1(),
    }
}

fn binop(op: &str, a: &LV, b: &LV, signed: bool) -> LV {
    match op {
        "&" => return a.bitand(b),
        "|" => return a.bitor(b),
        "^" => return a.bitxor(b),
        "~^" | "^~" => return a.bitxor(b).bitnot(),
        "===" => return LV::from_bool(a == b),
        "!==" => return LV::from_bool(a != b),
        "==" | "!=" => {
            // a definite difference decides even with unknown bits
            let diff = a.bitxor(b);
            let r = diff.truth();
            return tv(if op == "==" { r.map(|x| !x) } else { r });
        }
        _ => {}
    }
    let cmp = matches!(op, "<" | ">" | "<=" | ">=");
    if a.has_x() || b.has_x() {
        return if cmp { LV::x1() } else { LV::xs(a.w) };
    }
    let conv = |x: &LV| -> BigInt {
        if signed {
            x.to_bigint_signed().unwrap()
        } else {
            BigInt::from(x.to_biguint().unwrap())
        }
    };
    let (x, y) = (conv(a), conv(b));
    match op {
        "<" => LV::from_bool(x < y),
        ">" => LV::from_bool(x > y),
        "<=" => LV::from_bool(x <= y),
        ">=" => LV::from_bool(x >= y),
        "+" => LV::from_bigint(&(x + y), a.w),
        "-" => LV::from_bigint(&(x - y), a.w),
        "*" => LV::from_bigint(&(x * y), a.w),
        "/" | "%" => {
            if y.is_zero() {
                return LV::xs(a.w);
            }
            // truncating division
            let (q, r) = x.abs().div_rem(&y.abs());
            let q = if x.is_negative() != y.is_negative() { -q } else { q };
            let r = if x.is_negative() { -r } else { r };
            LV::from_bigint(if op == "/" { &q } else { &r }, a.w)
        }
        _ => panic!("operator {op}"),
    }
}

fn reads(c: &C, out: &mut BTreeSet<SigId>, mo: &mut BTreeSet<usize>) {
    match c {
        C::Const(_) => {}
        C::Sig(i) | C::SigSlice(i, ..) => {
            out.insert(*i);
        }
        C::DynSlice(i, x, ..) => {
            out.insert(*i);
            reads(x, out, mo);
        }
        C::MemRead(m, x) => {
            mo.insert(*m);
            reads(x, out, mo);
        }
        C::Ext(a, ..) | C::Repl(_, a) | C::Un(_, a) => reads(a, out, mo),
        C::Concat(v) => v.iter().for_each(|c| reads(c, out, mo)),
        C::Bin(_, a, b, _) | C::Shift(_, a, b, _) => {
            reads(a, out, mo);
            reads(b, out, mo);
        }
        C::Tern(a, b, c) => {
            reads(a, out, mo);
            reads(b, out, mo);
            reads(c, out, mo);
        }
    }
}

fn lreads(l: &L, out: &mut BTreeSet<SigId>, mo: &mut BTreeSet<usize>) {
    match l {
        L::Sig(..) => {}
        L::Dyn(_, c, ..) | L::Mem(_, c) => reads(c, out, mo),
        L::Concat(v) => v.iter().for_each(|x| lreads(&x.0, out, mo)),
    }
}
fn lwrites(l: &L, out: &mut BTreeSet<SigId>) {
    match l {
        L::Sig(i, ..) | L::Dyn(i, ..) => {
            out.insert(*i);
        }
        L::Mem(..) => {}
        L::Concat(v) => v.iter().for_each(|x| lwrites(&x.0, out)),
    }
}

fn srw(s: &S, r: &mut BTreeSet<SigId>, mo: &mut BTreeSet<usize>, w: &mut BTreeSet<SigId>) {
    match s {
        S::Block(v) => v.iter().for_each(|s| srw(s, r, mo, w)),
        S::If(c, t, e) => {
            reads(c, r, mo);
            srw(t, r, mo, w);
            if let Some(e) = e {
                srw(e, r, mo, w);
            }
        }
        S::Assign(l, c, _) => {
            reads(c, r, mo);
            lreads(l, r, mo);
            lwrites(l, w);
        }
        S::Case { sel, items, default, .. } => {
            reads(sel, r, mo);
            for (ls, s) in items {
                ls.iter().for_each(|l| reads(l, r, mo));
                srw(s, r, mo, w);
            }
            if let Some(d) = default {
                srw(d, r, mo, w);
            }
        }
        S::Null => {}
    }
}

impl Sim {
    fn empty() -> Sim {
        Sim {
            sigs: vec![],
            vals: vec![],
            mems: vec![],
            procs: vec![],
            fan: vec![],
            mfan: vec![],
            order: vec![],
            rank: vec![],
            dirty: vec![],
            lo_dirty: 0,
            trig_last: vec![],
            clocks: vec![],
            tri: HashMap::new(),
            asserts: vec![],
            failed_asserts: vec![],
            instances: vec![],
            top_ports: BTreeMap::new(),
            events: 0,
            edges: 0,
            drivers: vec![],
            inouts: BTreeSet::new(),
            inits: vec![],
            oscillated: false,
        }
    }
    fn new_sig(&mut self, name: String, w: usize) -> SigId {
        self.sigs.push(Sig { name, w });
        self.sigs.len() - 1
    }
    fn add_drivers(&mut self, l: &L, who: &str) {
        match l {
            L::Sig(i, lo, w) => self.drivers.push((*i, *lo, *w, who.to_string())),
            L::Dyn(i, ..) => {
                let w = self.sigs[*i].w;
                self.drivers.push((*i, 0, w, who.to_string()))
            }
            L::Mem(..) => {}
            L::Concat(v) => {
                for x in v {
                    self.add_drivers(&x.0, who)
                }
            }
        }
    }
    fn add_stmt_drivers(&mut self, s: &S, who: &str) {
        fn go(s: &S, out: &mut BTreeSet<(SigId, usize, usize)>, sim: &Sim) {
            match s {
                S::Block(v) => v.iter().for_each(|s| go(s, out, sim)),
                S::If(_, t, e) => {
                    go(t, out, sim);
                    if let Some(e) = e {
                        go(e, out, sim)
                    }
                }
                S::Assign(l, ..) => lgo(l, out, sim),
                S::Case { items, default, .. } => {
                    items.iter().for_each(|i| go(&i.1, out, sim));
                    if let Some(d) = default {
                        go(d, out, sim)
                    }
                }
                S::Null => {}
            }
        }
        fn lgo(l: &L, out: &mut BTreeSet<(SigId, usize, usize)>, sim: &Sim) {
            match l {
                L::Sig(i, lo, w) => {
                    out.insert((*i, *lo, *w));
                }
                L::Dyn(i, ..) => {
                    out.insert((*i, 0, sim.sigs[*i].w));
                }
                L::Mem(..) => {}
                L::Concat(v) => v.iter().for_each(|x| lgo(&x.0, out, sim)),
            }
        }
        let mut o = BTreeSet::new();
        go(s, &mut o, self);
        for (i, lo, w) in o {
            self.drivers.push((i, lo, w, who.to_string()));
        }
    }
    fn check_drivers(&mut self, top: &str, issues: &mut Vec<Issue>) {
        let mut by: BTreeMap<SigId, Vec<(usize, usize, String)>> = BTreeMap::new();
        for (i, lo, w, who) in &self.drivers {
            by.entry(*i).or_default().push((*lo, *w, who.clone()));
        }
        for (i, v) in &by {
            let multi = {
                let mut u = v.clone();
                u.sort();
                u.windows(2).any(|p| p[1].0 < p[0].0 + p[0].1)
            };
            if multi {
                if self.inouts.contains(i) {
                    self.tri.insert(*i, vec![]);
                } else {
                    issues.push(Issue {
                        kind: "multiple-drivers",
                        module: top.to_string(),
                        msg: format!("'{}' driven by {}", self.sigs[*i].name, v.iter().map(|x| x.2.clone()).collect::<Vec<_>>().join(" and ")),
                    });
                }
            }
        }
    }

    /// Elaborate `top` and run time zero. Structural issues found on the way are pushed to `issues`.
    pub fn new(d: &Design, top: &str, issues: &mut Vec<Issue>) -> Result<Sim, String> {
        let mut s = Sim::empty();
        let mut el = Elab { d, issues, lint: false };
        el.module(&mut s, top, &[], &HashMap::new(), vec![], 0)?;
        s.check_drivers(top, issues);
        s.vals = s.sigs.iter().map(|x| LV::xs(x.w)).collect();
        s.fan = vec![vec![]; s.sigs.len()];
        s.mfan = vec![vec![]; s.mems.len()];
        let n = s.procs.len();
        // ranks
        let mut writers: HashMap<SigId, Vec<usize>> = HashMap::new();
        let mut rd = vec![];
        for (pi, p) in s.procs.iter().enumerate() {
            let (mut r, mut mo, mut w) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
            if let PK::Comb(st) = &p.k {
                srw(st, &mut r, &mut mo, &mut w);
                for x in &w {
                    writers.entry(*x).or_default().push(pi);
                }
                for x in &r {
                    s.fan[*x].push(pi);
                }
                for x in &mo {
                    s.mfan[*x].push(pi);
                }
            }
            rd.push(r);
        }
        let mut indeg = vec![0usize; n];
        let mut succ: Vec<Vec<usize>> = vec![vec![]; n];
        for pi in 0..n {
            for x in &rd[pi] {
                for w in writers.get(x).map(|v| &v[..]).unwrap_or(&[]) {
                    if *w != pi {
                        succ[*w].push(pi);
                        indeg[pi] += 1;
                    }
                }
            }
        }
        let mut q: std::collections::VecDeque<usize> = (0..n).filter(|i| indeg[*i] == 0).collect();
        let mut done = vec![false; n];
        while s.order.len() < n {
            if let Some(p) = q.pop_front() {
                if done[p] {
                    continue;
                }
                done[p] = true;
                s.order.push(p);
                for t in &succ[p] {
                    indeg[*t] = indeg[*t].saturating_sub(1);
                    if indeg[*t] == 0 && !done[*t] {
                        q.push_back(*t);
                    }
                }
            } else {
                let p = (0..n).find(|i| !done[*i]).unwrap();
                q.push_back(p);
            }
        }
        s.rank = vec![0; n];
        for (r, p) in s.order.iter().enumerate() {
            s.rank[*p] = r;
        }
        s.dirty = s.order.iter().map(|p| matches!(s.procs[*p].k, PK::Comb(_))).collect();
        s.lo_dirty = 0;
        for i in s.tri.keys() {
            s.vals[*i] = LV::zs(s.sigs[*i].w);
        }
        s.trig_last = s.clocks.iter().map(|c| s.vals[*c].clone()).collect();
        let inits = std::mem::take(&mut s.inits);
        let mut nbq = vec![];
        for st in &inits {
            s.exec(st, usize::MAX, &mut nbq);
        }
        Ok(s)
    }

    pub fn set(&mut self, name: &str, v: &LV) {
        let (_, id, w) = *self.top_ports.get(name).unwrap_or_else(|| panic!("no port {name}"));
        assert_eq!(w, v.w, "width of {name}");
        self.write_sig(id, 0, v, usize::MAX);
    }
    pub fn get(&self, name: &str) -> LV {
        let (_, id, _) = *self.top_ports.get(name).unwrap_or_else(|| panic!("no port {name}"));
        self.vals[id].clone()
    }
    pub fn get_id(&self, id: SigId) -> &LV {
        &self.vals[id]
    }
    pub fn has_port(&self, name: &str) -> bool {
        self.top_ports.contains_key(name)
    }

    fn mark(&mut self, id: SigId) {
        self.events += 1;
        for k in 0..self.fan[id].len() {
            let r = self.rank[self.fan[id][k]];
            self.dirty[r] = true;
            if r < self.lo_dirty {
                self.lo_dirty = r;
            }
        }
    }
    fn write_sig(&mut self, id: SigId, lo: usize, v: &LV, who: usize) {
        if let Some(slots) = self.tri.get_mut(&id) {
            let w = self.sigs[id].w;
            let k = match slots.iter().position(|s| s.0 == who) {
                Some(k) => k,
                None => {
                    slots.push((who, LV::zs(w)));
                    slots.len() - 1
                }
            };
            slots[k].1.splice(lo, v);
            let mut r = LV::zs(w);
            for b in 0..w {
                let mut acc = B::Z;
                for (_, s) in slots.iter() {
                    let x = s.bit(b);
                    acc = match (acc, x) {
                        (B::Z, y) => y,
                        (y, B::Z) => y,
                        (p, q) if p == q => p,
                        _ => B::X,
                    };
                }
                r.set_bit(b, acc);
            }
            if self.vals[id] != r {
                self.vals[id] = r;
                self.mark(id);
            }
            return;
        }
        if lo == 0 && v.w == self.sigs[id].w {
            if &self.vals[id] != v {
                self.vals[id] = v.clone();
                self.mark(id);
            }
        } else {
            let mut n = self.vals[id].clone();
            n.splice(lo, v);
            if n != self.vals[id] {
                self.vals[id] = n;
                self.mark(id);
            }
        }
    }
    fn write_l(&mut self, l: &L, v: LV, who: usize) {
        match l {
            L::Sig(id, lo, _) => self.write_sig(*id, *lo, &v, who),
            L::Dyn(id, c, off, _) => {
                let ix = eval(c, &self.vals, &self.mems);
                if let Some(ix) = ix.to_u64() {
                    let lo = ix as i64 - *off as i64;
                    if lo >= 0 && (lo as usize) < self.sigs[*id].w {
                        self.write_sig(*id, lo as usize, &v, who);
                    }
                }
            }
            L::Mem(m, c) => {
                let ix = eval(c, &self.vals, &self.mems);
                if let Some(ix) = ix.to_u64() {
                    let m_ = &mut self.mems[*m];
                    if (ix as usize) < m_.data.len() && m_.data[ix as usize] != v {
                        m_.data[ix as usize] = v;
                        for k in 0..self.mfan[*m].len() {
                            let r = self.rank[self.mfan[*m][k]];
                            self.dirty[r] = true;
                            self.lo_dirty = self.lo_dirty.min(r);
                        }
                    }
                }
            }
            L::Concat(ls) => {
                let mut pos = v.w;
                for (l, w) in ls {
                    pos -= w;
                    let part = v.slice(pos, *w);
                    self.write_l(l, part, who);
                }
            }
        }
    }
    fn resolve_l(&self, l: &L) -> L {
        // evaluate indices now (for nonblocking assignments)
        match l {
            L::Sig(..) => l.clone(),
            L::Dyn(id, c, off, w) => L::Dyn(*id, C::Const(eval(c, &self.vals, &self.mems)), *off, *w),
            L::Mem(m, c) => L::Mem(*m, C::Const(eval(c, &self.vals, &self.mems))),
            L::Concat(v) => L::Concat(v.iter().map(|(l, w)| (self.resolve_l(l), *w)).collect()),
        }
    }
    fn exec(&mut self, s: &S, who: usize, nbq: &mut Vec<(L, LV)>) {
        match s {
            S::Block(v) => {
                for x in v {
                    self.exec(x, who, nbq)
                }
            }
            S::If(c, t, e) => {
                if eval(c, &self.vals, &self.mems).truth() == Some(true) {
                    self.exec(t, who, nbq)
                } else if let Some(e) = e {
                    self.exec(e, who, nbq)
                }
            }
            S::Assign(l, c, nb) => {
                let v = eval(c, &self.vals, &self.mems);
                if *nb {
                    nbq.push((self.resolve_l(l), v));
                } else {
                    self.write_l(l, v, who);
                }
            }
            S::Case { wild, sel, items, default } => {
                let v = eval(sel, &self.vals, &self.mems);
                for (ls, st) in items {
                    for l in ls {
                        let lv = eval(l, &self.vals, &self.mems);
                        let m = (0..v.w).all(|i| {
                            let (a, b) = (v.bit(i), lv.bit(i));
                            a == b || (*wild && (a == B::Z || b == B::Z))
                        });
                        if m {
                            self.exec(st, who, nbq);
                            return;
                        }
                    }
                }
                if let Some(d) = default {
                    self.exec(d, who, nbq)
                }
            }
            S::Null => {}
        }
    }

    fn comb(&mut self) -> R<()> {
        let limit = 200 * (self.procs.len() + 10);
        let mut n = 0;
        let mut nbq = vec![];
        while self.lo_dirty < self.dirty.len() {
            let r = self.lo_dirty;
            if !self.dirty[r] {
                self.lo_dirty += 1;
                continue;
            }
            self.dirty[r] = false;
            self.lo_dirty = r + 1;
            let p = self.order[r];
            // temporarily take the statement out to satisfy the borrow checker
            let k = std::mem::replace(&mut self.procs[p].k, PK::Comb(S::Null));
            if let PK::Comb(st) = &k {
                self.exec(st, p, &mut nbq);
            }
            self.procs[p].k = k;
            n += 1;
            if n > limit {
                self.oscillated = true;
                return Err("combinational loop does not settle".into());
            }
        }
        Ok(())
    }

    /// Settle all combinational logic and process any clock edges that result.
    pub fn settle(&mut self) -> R<()> {
        for _ in 0..1000 {
            self.comb()?;
            let mut fired: Vec<(bool, SigId, LV, LV)> = vec![];
            for (k, c) in self.clocks.clone().into_iter().enumerate() {
                if self.trig_last[k] != self.vals[c] {
                    let old = std::mem::replace(&mut self.trig_last[k], self.vals[c].clone());
                    fired.push((true, c, old, self.vals[c].clone()));
                }
            }
            if fired.is_empty() {
                self.check_asserts();
                return Ok(());
            }
            let edge = |pos: bool, o: B, n: B| -> bool {
                let o = if o == B::Z { B::X } else { o };
                let n = if n == B::Z { B::X } else { n };
                if pos {
                    matches!((o, n), (B::B0, B::B1) | (B::B0, B::X) | (B::X, B::B1))
                } else {
                    matches!((o, n), (B::B1, B::B0) | (B::B1, B::X) | (B::X, B::B0))
                }
            };
            let mut nbq = vec![];
            for p in 0..self.procs.len() {
                let go = match &self.procs[p].k {
                    PK::Seq(ts, _) => ts.iter().any(|(pos, id, bit)| {
                        fired.iter().any(|f| f.1 == *id && edge(*pos, f.2.bit(*bit), f.3.bit(*bit)))
                    }),
                    _ => false,
                };
                if go {
                    self.edges += 1;
                    let k = std::mem::replace(&mut self.procs[p].k, PK::Comb(S::Null));
                    if let PK::Seq(_, st) = &k {
                        self.exec(st, p, &mut nbq);
                    }
                    self.procs[p].k = k;
                }
            }
            for (l, v) in nbq {
                self.write_l(&l, v, usize::MAX - 1);
            }
        }
        Err("clock loop does not settle".into())
    }

    fn check_asserts(&mut self) {
        for k in 0..self.asserts.len() {
            let cur = self.vals[self.asserts[k].watch].clone();
            if cur != self.asserts[k].last {
                self.asserts[k].last = cur;
                if eval(&self.asserts[k].cond, &self.vals, &self.mems).truth() != Some(true) {
                    let n = self.asserts[k].name.clone();
                    self.failed_asserts.push(n);
                }
            }
        }
    }
    pub fn n_asserts(&self) -> usize {
        self.asserts.len()
    }
    pub fn n_procs(&self) -> usize {
        self.procs.len()
    }
    /// names of signals that have no driver at all
    pub fn undriven(&self) -> Vec<String> {
        let d: BTreeSet<SigId> = self.drivers.iter().map(|d| d.0).collect();
        (0..self.sigs.len()).filter(|i| !d.contains(i)).map(|i| self.sigs[i.to_owned()].name.clone()).collect()
    }
}

#[allow(dead_code)]
fn _unused(_: BigUint) {}
