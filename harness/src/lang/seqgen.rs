//! Random generation of stateful units for the sequential model.
use super::gen::{bits_for, Gen, Profile};
use super::seq::*;
use super::*;

#[derive(Clone, Debug)]
pub struct SProfile {
    pub max_clk: usize,
    pub items: (usize, usize),
    pub max_bits: usize,
    /// weights: let, reg, mem, inst, decl
    pub w: [usize; 5],
    pub depth: (usize, usize),
    pub cond_pct: usize,
    pub refs: bool,
    /// expressions over delayed operands
    pub delays: bool,
    pub attr_pct: usize,
    pub passes: Vec<String>,
}

impl SProfile {
    pub fn base() -> SProfile {
        SProfile {
            max_clk: 3,
            items: (3, 9),
            max_bits: 48,
            w: [4, 8, 3, 3, 2],
            depth: (1, 5),
            cond_pct: 0,
            refs: true,
            delays: false,
            attr_pct: 25,
            passes: vec![],
        }
    }
}

pub struct SeqGen<'r> {
    pub g: Gen<'r>,
    pub ents: Vec<Ent>,
    pub s: SProfile,
}

impl<'r> SeqGen<'r> {
    pub fn new(r: &'r mut crate::rng::Rng, f: Profile, s: SProfile) -> Self {
        let mut g = Gen::new(r, f);
        g.in_entity = true;
        SeqGen { g, ents: vec![], s }
    }
    pub fn finish(self, tops: Vec<usize>) -> SeqProg {
        SeqProg { p: self.g.p, ents: self.ents, tops }
    }

    fn ty(&mut self) -> Ty {
        for _ in 0..40 {
            let t = self.g.rand_ty(2);
            let n = self.g.p.defs.size(&t);
            if n > 0 && n <= self.s.max_bits {
                return t;
            }
        }
        uint(4)
    }
    fn any_ty(&mut self) -> Ty {
        if self.g.f.zero_pct == 0 && self.g.f.empty_arr_pct == 0 {
            return self.ty();
        }
        for _ in 0..20 {
            let t = self.g.rand_ty(2);
            if self.g.p.defs.size(&t) <= self.s.max_bits {
                return t;
            }
        }
        uint(4)
    }
    fn expr(&mut self, t: &Ty) -> E {
        self.g.budget = 22;
        let d = self.g.f.depth;
        let d = self.g.r.range(1, d.max(1));
        self.g.gen(t, d)
    }
    /// an expression that is likely to use something in scope
    fn live_expr(&mut self, t: &Ty) -> E {
        let mut e = self.expr(t);
        for _ in 0..3 {
            let mut u = vec![];
            super::shrink::used_in(&e, &mut u);
            if !u.is_empty() {
                break;
            }
            e = self.expr(t);
        }
        e
    }
    fn unique(&mut self, t: Ty) -> VarId {
        self.g.counter += 1;
        let name = format!("r{}", self.g.counter);
        self.g.p.vars.push(VarInfo { name, ty: t });
        self.g.p.vars.len() - 1
    }
    /// pattern of uniquely named variables, without refutable parts
    fn unique_pat(&mut self, t: &Ty) -> (Pat, Vec<VarId>) {
        let keep = self.g.f.fresh_names;
        self.g.f.fresh_names = true;
        let base = self.g.scope.len();
        let p = self.g.pattern(t, 2, false);
        let vs = self.g.scope.split_off(base);
        self.g.f.fresh_names = keep;
        for v in &vs {
            self.g.counter += 1;
            self.g.p.vars[*v].name = format!("q{}", self.g.counter);
        }
        (p, vs)
    }

    fn reg(&mut self, clk: usize, stage: usize, sinks: &[E]) -> It {
        let t = self.ty();
        let (pat, vs) = if self.g.r.chance(1, 4) {
            self.unique_pat(&t)
        } else {
            let v = self.unique(t.clone());
            (Pat::Bind(v), vec![v])
        };
        self.g.scope.extend(vs);
        let keep = self.g.exts.clone();
        self.g.exts.extend(sinks.iter().cloned());
        let next = self.live_expr(&t);
        self.g.exts = keep;
        let reset = if self.g.r.chance(6, 10) {
            let c = self.live_expr(&Ty::Bool);
            let v = if self.g.r.chance(1, 2) {
                let v = self.g.p.defs.random_value(&t, self.g.r);
                E { ty: t.clone(), k: K::Lit(v) }
            } else {
                self.expr(&t)
            };
            Some((c, v))
        } else {
            None
        };
        let initial = if self.g.r.chance(1, 2) || reset.is_none() && self.g.r.chance(1, 2) {
            Some(self.g.p.defs.random_value(&t, self.g.r))
        } else {
            None
        };
        It { stage, k: Item::Reg { pat, ty: t, clk, reset, initial, next } }
    }

    fn mem(&mut self, clk: usize, stage: usize, items: &mut Vec<It>) {
        let elem = self.ty();
        let n = *self.g.r.pick(&[1, 2, 3, 4, 5, 8, 16, 17]);
        let aw = bits_for(n - 1);
        let nw = self.g.r.range(1, 3);
        let mut writes = vec![];
        for _ in 0..nw {
            let we = self.live_expr(&Ty::Bool);
            let a = self.live_expr(&uint(aw));
            let d = self.live_expr(&elem);
            writes.push((we, a, d));
        }
        let initial = self
            .g
            .r
            .chance(1, 2)
            .then(|| (0..n).map(|_| self.g.p.defs.random_value(&elem, self.g.r)).collect());
        self.g.counter += 1;
        let name = format!("m{}", self.g.counter);
        let idx = items.len();
        items.push(It { stage, k: Item::Mem { name, elem: elem.clone(), n, aw, clk, writes, initial } });
        for _ in 0..self.g.r.range(1, 2) {
            let aw = bits_for(n - 1);
            let addr = self.live_expr(&uint(aw));
            let var = self.unique(elem.clone());
            self.g.scope.push(var);
            items.push(It { stage, k: Item::MemRead { var, mem: idx, addr } });
        }
    }

    fn out_expr(&mut self) -> E {
        // a tuple of state variables and sometimes an expression
        let mut vs: Vec<VarId> = self
            .g
            .visible()
            .into_iter()
            .filter(|v| self.g.p.defs.size(&self.g.p.vars[*v].ty) > 0)
            .collect();
        self.g.r.shuffle(&mut vs);
        vs.truncate(4);
        let mut es: Vec<E> = vs.iter().map(|v| self.g.var(*v)).collect();
        let n = self.g.r.below(3);
        for _ in 0..n {
            let t = self.ty();
            es.push(self.live_expr(&t));
        }
        if es.len() < 2 {
            let t = self.ty();
            es.push(self.live_expr(&t));
            let t = self.ty();
            es.push(self.live_expr(&t));
        }
        let t = Ty::Tuple(es.iter().map(|e| e.ty.clone()).collect());
        E { ty: t, k: K::Tup(es) }
    }

    fn attrs(&mut self) -> Vec<String> {
        let mut a = vec![];
        if self.g.r.below(100) < self.s.attr_pct {
            a.push("inline".to_string());
        }
        if !self.s.passes.is_empty() && self.g.r.chance(1, 2) {
            let p = self.g.r.pick(&self.s.passes).clone();
            a.push(format!("optimize({p})"));
        }
        a
    }

    pub fn entity(&mut self, name: &str, subs: &[usize]) -> usize {
        let nclk = if self.g.r.chance(2, 3) { 1 } else { self.g.r.range(1, self.s.max_clk) };
        self.g.scope.clear();
        self.g.exts.clear();
        let keep = self.g.f.fresh_names;
        let nin = self.g.r.range(2, 4);
        let mut ins = vec![];
        for i in 0..nin {
            let t = match i {
                0 => Ty::Bool,
                1 => self.ty(),
                _ => self.any_ty(),
            };
            let v = self.g.fresh_avoid(t, &ins);
            ins.push(v);
        }
        self.g.scope = ins.clone();
        let mut items: Vec<It> = vec![];
        let n = self.g.r.range(self.s.items.0, self.s.items.1);
        let mut decls: Vec<VarId> = vec![];
        for _ in 0..n {
            let clk = self.g.r.below(nclk);
            let mut w = self.s.w;
            if subs.is_empty() {
                w[3] = 0;
            }
            match self.g.r.weighted(&w) {
                0 => {
                    let t = self.any_ty();
                    let e = self.live_expr(&t);
                    let ann = self.g.r.bool();
                    let p = if self.g.r.chance(1, 4) {
                        self.g.pattern(&t, 2, false)
                    } else {
                        let v = self.g.fresh(t.clone());
                        self.g.scope.push(v);
                        Pat::Bind(v)
                    };
                    items.push(It { stage: 0, k: Item::Let(p, t, ann, e) });
                }
                1 => {
                    let r = self.reg(clk, 0, &[]);
                    items.push(r);
                }
                2 => self.mem(clk, 0, &mut items),
                3 => self.instance(subs, nclk, 0, None, &mut items),
                _ => {
                    if decls.len() < 2 {
                        let t = self.ty();
                        let v = self.unique(t.clone());
                        decls.push(v);
                        items.push(It { stage: 0, k: Item::Decl(v) });
                        // its type becomes known here
                        let w = self.unique(t.clone());
                        let e = self.g.var(v);
                        items.push(It { stage: 0, k: Item::Let(Pat::Bind(w), t, true, e) });
                        self.g.scope.push(v);
                        self.g.scope.push(w);
                    }
                }
            }
        }
        for v in decls {
            let clk = self.g.r.below(nclk);
            let mut r = self.reg(clk, 0, &[]);
            // the declared name is the register
            let t = self.g.p.vars[v].ty.clone();
            if let Item::Reg { pat, ty, next, reset, initial, .. } = &mut r.k {
                let old: Vec<VarId> = {
                    let mut o = vec![];
                    super::shrink::pat_vars(pat, &mut o);
                    o
                };
                self.g.scope.retain(|x| !old.contains(x));
                *pat = Pat::Bind(v);
                *ty = t.clone();
                *next = self.live_expr(&t);
                if reset.is_some() {
                    let c = self.live_expr(&Ty::Bool);
                    let e = self.expr(&t);
                    *reset = Some((c, e));
                }
                if initial.is_some() {
                    *initial = Some(self.g.p.defs.random_value(&t, self.g.r));
                }
            }
            items.push(r);
        }
        let out = self.out_expr();
        self.g.f.fresh_names = keep;
        let attrs = self.attrs();
        self.ents.push(Ent { name: name.into(), nclk, ins, items, out, depth: None, attrs });
        self.ents.len() - 1
    }

    /// depth of the surrounding pipeline with what becomes visible later, or None
    fn instance(
        &mut self,
        subs: &[usize],
        nclk: usize,
        stage: usize,
        mut later: Option<&mut Vec<(usize, VarId)>>,
        items: &mut Vec<It>,
    ) {
        let sub = *self.g.r.pick(subs);
        let se = self.ents[sub].clone();
        let clks: Vec<usize> = (0..se.nclk).map(|_| self.g.r.below(nclk)).collect();
        let args: Vec<E> =
            se.ins.iter().map(|v| self.g.p.vars[*v].ty.clone()).collect::<Vec<_>>().iter().map(|t| self.live_expr(t)).collect();
        let (pat, vs) = if self.g.r.chance(1, 2) {
            self.unique_pat(&se.out.ty)
        } else {
            let v = self.unique(se.out.ty.clone());
            (Pat::Bind(v), vec![v])
        };
        let lat = se.depth.unwrap_or(0);
        match &mut later {
            Some(l) if lat > 0 => l.extend(vs.iter().map(|v| (stage + lat, *v))),
            _ => self.g.scope.extend(vs),
        }
        items.push(It { stage, k: Item::Inst { pat, ent: sub, clks, args } });
    }

    /// `let v = e` where every variable of e is delayed by n stages by an instance: v is available
    /// n stages later and is then e over the variables of that stage
    fn delayed(&mut self, st: usize, n: usize) -> Option<(It, VarId)> {
        use super::print::{Printer, Style};
        let keep = (self.g.f.clone(), std::mem::take(&mut self.g.exts), std::mem::take(&mut self.g.callable));
        self.g.f.matches = 0;
        self.g.f.iflet = 0;
        self.g.f.blocks = 0;
        self.g.f.lambdas = 0;
        self.g.f.hofs = 0;
        let t = self.ty();
        let e = self.live_expr(&t);
        (self.g.f, self.g.exts, self.g.callable) = keep;
        let mut u = vec![];
        super::shrink::used_in(&e, &mut u);
        // names in scope only, and nothing that is bound inside
        if u.is_empty() || u.iter().any(|v| !self.g.scope.contains(v) || self.g.p.defs.size(&self.g.p.vars[*v].ty) == 0) {
            return None;
        }
        let mut e = e;
        fn walk(e: &mut E, f: &mut dyn FnMut(&mut E)) {
            f(e);
            for c in super::shrink::children_mut(e) {
                walk(c, f);
            }
        }
        let r = &mut *self.g.r;
        walk(&mut e, &mut |e| {
            if let K::Var(v) = e.k {
                let s = match (n, r.below(3)) {
                    (1, _) | (_, 0 | 1) => format!("(inst({n}) dly{n}(\u{2}, \u{1}))"),
                    _ => format!("inst({}) dly{}(\u{2}, inst(1) dly1(\u{2}, \u{1}))", n - 1, n - 1),
                };
                e.k = K::Ext(s, key_ref(st + n, v));
            }
        });
        for annot in [0, 1] {
            let mut s = Style::plain();
            s.annot = annot;
            if Printer::new(&self.g.p, s).top(&e, true).contains("let ") {
                return None;
            }
        }
        let v = self.unique(t.clone());
        Some((It { stage: st + n, k: Item::Let(Pat::Bind(v), t, true, e) }, v))
    }

    pub fn pipeline(&mut self, name: &str, subs: &[usize]) -> usize {
        let d = self.g.r.range(self.s.depth.0, self.s.depth.1);
        self.g.scope.clear();
        self.g.exts.clear();
        let keep = self.g.f.fresh_names;
        self.g.f.fresh_names = true;
        let nin = self.g.r.range(2, 4);
        let mut ins = vec![];
        for i in 0..nin {
            let t = match i {
                0 => Ty::Bool,
                1 => self.ty(),
                _ => self.any_ty(),
            };
            let v = self.g.fresh_avoid(t, &ins);
            ins.push(v);
        }
        self.g.scope = ins.clone();
        let mut home: Vec<(usize, VarId)> = ins.iter().map(|v| (0, *v)).collect();
        let mut items: Vec<It> = vec![];
        let mut later: Vec<(usize, VarId)> = vec![];
        let conds = self.s.cond_pct > 0 && self.g.r.below(100) < self.s.cond_pct;
        // labels
        let labels: Vec<Option<String>> = (0..=d)
            .map(|i| (self.s.refs && self.g.r.chance(1, 3)).then(|| format!("st{i}")))
            .collect();
        for st in 0..=d {
            for (h, v) in &later {
                if *h == st {
                    self.g.scope.push(*v);
                    home.push((*h, *v));
                }
            }
            if let Some(l) = &labels[st] {
                items.push(It { stage: st, k: Item::Label(l.clone()) });
            }
            let n = self.g.r.below(4);
            if self.s.delays && !conds && st < d && self.g.r.bool() {
                let k = self.g.r.range(1, d - st);
                if let Some((it, v)) = self.delayed(st, k) {
                    items.push(it);
                    later.push((st + k, v));
                }
            }
            for _ in 0..n {
                let (exts, sinks) = self.refs(st, d, &home, &labels);
                self.g.exts = exts;
                let here: Vec<usize> =
                    subs.iter().cloned().filter(|s| st + self.ents[*s].depth.unwrap_or(0) <= d && self.ents[*s].nclk == 1).collect();
                let mut w = self.s.w;
                w[4] = 0;
                // a memory is not a value that can be carried to the next stage
                w[2] = 0;
                if here.is_empty() {
                    w[3] = 0;
                }
                let before = self.g.scope.len();
                match self.g.r.weighted(&w) {
                    0 => {
                        let t = self.any_ty();
                        let e = self.live_expr(&t);
                        let ann = self.g.r.bool();
                        let p = if self.g.r.chance(1, 4) {
                            self.g.pattern(&t, 2, false)
                        } else {
                            let v = self.g.fresh(t.clone());
                            self.g.scope.push(v);
                            Pat::Bind(v)
                        };
                        items.push(It { stage: st, k: Item::Let(p, t, ann, e) });
                    }
                    1 => {
                        let r = self.reg(0, st, &sinks);
                        items.push(r);
                    }
                    2 => self.mem(0, st, &mut items),
                    _ => self.instance(&here, 1, st, Some(&mut later), &mut items),
                }
                for v in &self.g.scope[before..] {
                    home.push((st, *v));
                }
            }
            if st < d {
                let c = if conds && self.g.r.chance(1, 2) {
                    let (exts, _) = self.refs(st, d, &home, &labels);
                    self.g.exts = exts.into_iter().filter(|e| !matches!(&e.k, K::Ext(_, k) if *k >= key_valid(0))).collect();
                    // conditions see the names where they are defined, so values with a latency
                    // are not available to them
                    let scope = self.g.scope.clone();
                    self.g.scope.retain(|v| !later.iter().any(|(_, l)| l == v));
                    let c = self.live_expr(&Ty::Bool);
                    self.g.scope = scope;
                    Some(c)
                } else {
                    None
                };
                items.push(It { stage: st, k: Item::Stage(c) });
            }
        }
        let (exts, _) = self.refs(d, d, &home, &labels);
        self.g.exts = exts;
        let mut out = self.out_expr();
        if conds || self.g.r.chance(1, 4) {
            if let K::Tup(es) = &mut out.k {
                es.push(E { ty: Ty::Bool, k: K::Ext("stage.valid".into(), key_valid(d)) });
                es.push(E { ty: Ty::Bool, k: K::Ext("stage.ready".into(), key_ready(d)) });
                out.ty = Ty::Tuple(es.iter().map(|e| e.ty.clone()).collect());
            }
        }
        self.g.exts.clear();
        self.g.f.fresh_names = keep;
        let attrs = self.attrs();
        self.ents.push(Ent { name: name.into(), nclk: 1, ins, items, out, depth: Some(d), attrs });
        self.ents.len() - 1
    }

    /// stage references usable at a stage: anywhere, and only in what registers store
    fn refs(&mut self, st: usize, d: usize, home: &[(usize, VarId)], labels: &[Option<String>]) -> (Vec<E>, Vec<E>) {
        if !self.s.refs {
            return (vec![], vec![]);
        }
        let mut a = vec![E { ty: Ty::Bool, k: K::Ext("stage.valid".into(), key_valid(st)) }];
        let b = vec![E { ty: Ty::Bool, k: K::Ext("stage.ready".into(), key_ready(st)) }];
        for (h, v) in home {
            for t in *h..=d {
                if t == st || !self.g.r.chance(1, 3) {
                    continue;
                }
                // a reference forward to a stage it has a register in
                let off = t as i64 - st as i64;
                let s = match &labels[t] {
                    Some(l) if self.g.r.bool() => format!("stage({l})."),
                    _ => format!("stage({off:+})."),
                };
                a.push(E { ty: self.g.p.vars[*v].ty.clone(), k: K::Ext(s, key_ref(t, *v)) });
            }
        }
        (a, b)
    }
}
