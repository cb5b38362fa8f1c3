//! Random generation of well typed model programs.
use super::*;

#[derive(Clone, Debug)]
pub struct Profile {
    /// weights of expression families
    pub arith: usize,
    pub wrap: usize,
    pub bits: usize,
    pub conv: usize,
    pub logic: usize,
    pub cmp: usize,
    pub ifs: usize,
    pub matches: usize,
    pub iflet: usize,
    pub blocks: usize,
    pub aggs: usize,
    pub calls: usize,
    pub methods: usize,
    pub lambdas: usize,
    pub hofs: usize,
    pub arrays: usize,
    pub divs: usize,
    pub dynidx: usize,
    /// percent of integer types with width 0 / above 32
    pub zero_pct: usize,
    pub wide_pct: usize,
    pub max_w: usize,
    /// weights of types: bool,int,uint,tuple,array,struct/enum,option
    pub tys: [usize; 7],
    pub depth: usize,
    pub max_params: usize,
    pub max_bits: usize,
    pub fresh_names: bool,
    pub asserts: usize,
    /// percent of arrays with no element
    pub empty_arr_pct: usize,
}

impl Profile {
    pub fn base() -> Profile {
        Profile {
            arith: 8,
            wrap: 4,
            bits: 5,
            conv: 8,
            logic: 4,
            cmp: 5,
            ifs: 5,
            matches: 0,
            iflet: 0,
            blocks: 4,
            aggs: 0,
            calls: 0,
            methods: 0,
            lambdas: 0,
            hofs: 0,
            arrays: 0,
            divs: 2,
            dynidx: 0,
            zero_pct: 0,
            wide_pct: 12,
            max_w: 90,
            tys: [3, 8, 8, 0, 0, 0, 0],
            depth: 4,
            max_params: 4,
            max_bits: 200,
            fresh_names: false,
            asserts: 0,
            empty_arr_pct: 0,
        }
    }
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub p: Prog,
    pub scope: Vec<VarId>,
    pub f: Profile,
    pub budget: i64,
    pub counter: usize,
    /// functions callable so far: indices
    pub callable: Vec<usize>,
    /// (trait/inherent) methods available: global method index
    pub call_methods: Vec<usize>,
    /// generic context: number of type params with bounds, and number params
    pub gtys: Vec<Vec<usize>>,
    /// methods callable only on type parameters
    pub bound_methods: Vec<usize>,
    pub gnums: usize,
    pub no_lambda: bool,
    /// leaves supplied by the surrounding model
    pub exts: Vec<E>,
    /// inside something which can instantiate entities
    pub in_entity: bool,
}

const NAMES: &[&str] = &["a", "b", "c", "x", "y", "z", "val", "tmp", "acc", "sel", "lhs", "idx"];

pub fn idx_width(n: usize) -> usize {
    if n <= 1 {
        0
    } else {
        ceil_log2(n)
    }
}
/// bits needed to represent n
pub fn bits_for(n: usize) -> usize {
    (usize::BITS - n.leading_zeros()) as usize
}

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, f: Profile) -> Self {
        let mut p = Prog::default();
        p.defs = Defs::new();
        Gen {
            r,
            p,
            scope: vec![],
            f,
            budget: 0,
            counter: 0,
            callable: vec![],
            call_methods: vec![],
            bound_methods: vec![],
            gtys: vec![],
            gnums: 0,
            no_lambda: false,
            exts: vec![],
            in_entity: false,
        }
    }

    // ---- types ----
    pub fn width(&mut self) -> usize {
        if self.f.zero_pct > 0 && self.r.chance(self.f.zero_pct, 100) {
            return 0;
        }
        if self.r.chance(self.f.wide_pct, 100) {
            return match self.r.below(6) {
                0 => 31 + self.r.below(4),
                1 => 63 + self.r.below(4),
                _ => self.r.range(17, self.f.max_w.max(18)),
            };
        }
        match self.r.below(10) {
            0 => 1,
            1 => 2,
            2 => 8,
            _ => self.r.range(1, 12),
        }
    }

    pub fn rand_ty(&mut self, d: usize) -> Ty {
        loop {
            let t = self.rand_ty0(d);
            if self.symbolic(&t) || self.p.defs.size(&t) <= self.f.max_bits {
                return t;
            }
        }
    }

    fn rand_ty0(&mut self, d: usize) -> Ty {
        if (!self.gtys.is_empty() || self.gnums > 0) && self.r.chance(1, 2) {
            let n = self.gtys.len() + self.gnums;
            let k = self.r.below(n);
            return if k < self.gtys.len() {
                Ty::Param(k)
            } else {
                let i = k - self.gtys.len();
                if self.r.bool() {
                    Ty::Int(Nx::P(i))
                } else {
                    Ty::UInt(Nx::P(i))
                }
            };
        }
        let mut w = self.f.tys;
        if d == 0 {
            w[3] = 0;
            w[4] = 0;
            w[6] = 0;
        }
        if self.p.defs.adts.len() == 1 {
            w[5] = 0;
        }
        match self.r.weighted(&w) {
            0 => Ty::Bool,
            1 => int(self.width()),
            2 => uint(self.width()),
            3 => {
                let n = if self.f.zero_pct > 0 && self.r.chance(1, 10) { 0 } else { self.r.range(2, 4) };
                Ty::Tuple((0..n).map(|_| self.rand_ty(d - 1)).collect())
            }
            4 => {
                let n = if self.r.chance(self.f.empty_arr_pct, 100) { 0 } else { self.r.range(1, 5) };
                let t = self.rand_ty(d - 1);
                arr(t, n)
            }
            5 => {
                let i = self.r.range(1, self.p.defs.adts.len() - 1);
                let n = self.p.defs.adts[i].nparams;
                Ty::Adt(i, (0..n).map(|_| self.rand_ty(d.saturating_sub(1))).collect())
            }
            _ => Ty::Adt(OPTION, vec![self.rand_ty(d - 1)]),
        }
    }

    pub fn symbolic(&self, t: &Ty) -> bool {
        match t {
            Ty::Param(_) | Ty::Fn(..) => true,
            Ty::Int(n) | Ty::UInt(n) => !matches!(n, Nx::K(_)),
            Ty::Tuple(v) => v.iter().any(|t| self.symbolic(t)),
            Ty::Array(t, n) => self.symbolic(t) || !matches!(n, Nx::K(_)),
            Ty::Adt(_, a) => a.iter().any(|t| self.symbolic(t)),
            _ => false,
        }
    }

    fn field_name(&mut self, p: &str, i: usize) -> String {
        if i < 4 && self.r.chance(1, 2) {
            NAMES[i * 3 + self.r.below(3)].into()
        } else {
            format!("{p}{i}")
        }
    }

    pub fn gen_adts(&mut self, n: usize) {
        for i in 0..n {
            let nparams = if self.r.chance(1, 4) { 1 } else { 0 };
            let saved = (std::mem::take(&mut self.gtys), self.gnums);
            self.gnums = 0;
            let field_ty = |g: &mut Self| -> Ty {
                if nparams > 0 && g.r.chance(1, 2) {
                    Ty::Param(0)
                } else {
                    g.rand_ty(1)
                }
            };
            let kind = if self.r.chance(2, 5) {
                let k = if self.f.zero_pct > 0 && self.r.chance(1, 10) { 0 } else { self.r.range(1, 4) };
                let mut f: Vec<(String, Ty)> = (0..k).map(|j| (self.field_name("f", j), field_ty(self))).collect();
                if nparams > 0 {
                    f.push(("g".into(), Ty::Param(0)));
                }
                AdtKind::Struct(f)
            } else {
                let nv = match self.r.below(8) {
                    0 => 1,
                    1 => 2,
                    7 => self.r.range(6, 9),
                    _ => self.r.range(2, 5),
                };
                let mut v: Vec<(String, Vec<(String, Ty)>)> = (0..nv)
                    .map(|j| {
                        let k = if self.r.chance(1, 3) { 0 } else { self.r.range(1, 3) };
                        (format!("V{j}"), (0..k).map(|l| (self.field_name("p", l), field_ty(self))).collect())
                    })
                    .collect();
                if nparams > 0 {
                    v[0].1 = vec![("g".into(), Ty::Param(0))];
                }
                AdtKind::Enum(v)
            };
            self.gtys = saved.0;
            self.gnums = saved.1;
            self.p.defs.adts.push(Adt {
                name: format!("{}{i}", if matches!(kind, AdtKind::Struct(_)) { "S" } else { "En" }),
                kind,
                nparams,
                builtin: false,
            });
        }
    }

    // ---- variables ----
    pub fn fresh(&mut self, ty: Ty) -> VarId {
        self.fresh_avoid(ty, &[])
    }
    pub fn fresh_avoid(&mut self, ty: Ty, avoid: &[VarId]) -> VarId {
        let name = loop {
            let n = if !(self.f.fresh_names || !self.gtys.is_empty() || self.gnums > 0) && self.r.chance(1, 3) {
                self.r.pick(NAMES).to_string()
            } else {
                self.counter += 1;
                format!("v{}", self.counter)
            };
            if !avoid.iter().any(|v| self.p.vars[*v].name == n) {
                break n;
            }
        };
        self.p.vars.push(VarInfo { name, ty });
        self.p.vars.len() - 1
    }

    pub fn visible(&self) -> Vec<VarId> {
        let mut out: Vec<VarId> = vec![];
        for v in self.scope.iter().rev() {
            if !out.iter().any(|o| self.p.vars[*o].name == self.p.vars[*v].name) {
                out.push(*v);
            }
        }
        out
    }

    pub fn e(&self, ty: &Ty, k: K) -> E {
        E { ty: ty.clone(), k }
    }
    pub fn var(&self, v: VarId) -> E {
        E { ty: self.p.vars[v].ty.clone(), k: K::Var(v) }
    }

    /// all projections of a variable giving the type
    fn paths(&self, base: E, t: &Ty, depth: usize, out: &mut Vec<E>) {
        if base.ty == *t {
            out.push(base.clone());
        }
        if depth == 0 || out.len() > 12 {
            return;
        }
        match base.ty.clone() {
            Ty::Tuple(ts) => {
                for (i, ti) in ts.iter().enumerate() {
                    self.paths(
                        E { ty: ti.clone(), k: K::TupIdx(Box::new(base.clone()), i) },
                        t,
                        depth - 1,
                        out,
                    );
                }
            }
            Ty::Array(ti, Nx::K(n)) => {
                for i in 0..n.min(3) {
                    let ix = E { ty: uint(idx_width(n)), k: K::Lit(V::Int(BigInt::from(i))) };
                    self.paths(
                        E { ty: (*ti).clone(), k: K::Idx(Box::new(base.clone()), Box::new(ix)) },
                        t,
                        depth - 1,
                        out,
                    );
                }
            }
            Ty::Adt(i, _) if !self.p.defs.is_enum(i) => {
                for (j, (_, ft)) in self.p.defs.fields(&base.ty, 0).into_iter().enumerate() {
                    self.paths(E { ty: ft, k: K::Field(Box::new(base.clone()), j) }, t, depth - 1, out);
                }
            }
            _ => {}
        }
    }

    pub fn leaf(&mut self, t: &Ty) -> E {
        if !self.exts.is_empty() && self.r.chance(1, 3) {
            let c: Vec<E> = self.exts.iter().filter(|e| e.ty == *t).cloned().collect();
            if !c.is_empty() {
                return self.r.pick(&c).clone();
            }
        }
        let vis = self.visible();
        let mut c = vec![];
        for v in &vis {
            let b = self.var(*v);
            let aggs = self.f.aggs > 0 || self.f.arrays > 0 || self.f.tys[3] + self.f.tys[4] + self.f.tys[5] > 0;
            self.paths(b, t, if aggs { 2 } else { 0 }, &mut c);
        }
        if !c.is_empty() && self.r.chance(9, 10) {
            return self.r.pick(&c).clone();
        }
        if self.symbolic(t) {
            if !c.is_empty() {
                return self.r.pick(&c).clone();
            }
            return self.leaf_symbolic(t);
        }
        // coercions from other variables
        if self.r.chance(4, 5) {
            if let Some(e) = self.coerce(t, &vis) {
                return e;
            }
        }
        self.build(t, 0)
    }

    fn leaf_symbolic(&mut self, t: &Ty) -> E {
        match t {
            Ty::Tuple(ts) => {
                let es = ts.iter().map(|t| self.leaf(t)).collect();
                self.e(t, K::Tup(es))
            }
            Ty::Array(et, Nx::K(n)) => {
                let es: Vec<E> = (0..*n).map(|_| self.leaf(et)).collect();
                self.e(t, K::Arr(es))
            }
            Ty::Adt(i, _) => {
                // choose a variant; every field must be constructible
                let k = self.r.below(self.p.defs.nvariants(*i));
                let fs = self.p.defs.fields(t, k);
                let es = fs.iter().map(|f| self.leaf(&f.1)).collect();
                self.e(t, K::Cons(k, es))
            }
            Ty::Int(Nx::PAdd(i, 1)) | Ty::UInt(Nx::PAdd(i, 1)) => {
                let o = if matches!(t, Ty::Int(_)) { Ty::Int(Nx::P(*i)) } else { Ty::UInt(Nx::P(*i)) };
                let a = self.leaf(&o);
                let b = self.leaf(&o);
                self.e(t, K::Bin(BinOp::Add, Box::new(a), Box::new(b)))
            }
            _ => panic!("no variable of symbolic type {t:?}"),
        }
    }

    fn coerce(&mut self, t: &Ty, vis: &[VarId]) -> Option<E> {
        let mut ints: Vec<E> = vec![];
        for v in vis {
            match &self.p.vars[*v].ty {
                Ty::Int(Nx::K(n)) | Ty::UInt(Nx::K(n)) if *n > 0 => ints.push(self.var(*v)),
                Ty::Bool => ints.push(self.var(*v)),
                _ => {}
            }
        }
        if ints.is_empty() {
            return None;
        }
        let s = self.r.pick(&ints).clone();
        match t {
            Ty::Int(Nx::K(n)) | Ty::UInt(Nx::K(n)) => {
                let want_int = matches!(t, Ty::Int(_));
                let n = *n;
                if n == 0 {
                    return None;
                }
                let mut x = s;
                if x.ty == Ty::Bool {
                    x = self.e(&uint(1), K::Std(Std::BoolToUint, vec![x]));
                }
                let (w, is_int) = match &x.ty {
                    Ty::Int(Nx::K(w)) => (*w, true),
                    Ty::UInt(Nx::K(w)) => (*w, false),
                    _ => unreachable!(),
                };
                let mk = |w: usize, i: bool| if i { int(w) } else { uint(w) };
                if w > n {
                    x = self.e(&mk(n, is_int), K::Std(Std::Trunc, vec![x]));
                } else if w < n {
                    x = self.e(&mk(n, is_int), K::Std(if is_int { Std::Sext } else { Std::Zext }, vec![x]));
                }
                if is_int != want_int {
                    x = self.e(t, K::Std(if want_int { Std::AsInt } else { Std::AsUint }, vec![x]));
                }
                Some(x)
            }
            Ty::Bool => {
                if s.ty == Ty::Bool {
                    return Some(s);
                }
                let lit = V::Int(random_int(
                    match &s.ty {
                        Ty::Int(n) | Ty::UInt(n) => n.c(),
                        _ => unreachable!(),
                    },
                    matches!(s.ty, Ty::Int(_)),
                    self.r,
                ));
                let l = self.e(&s.ty.clone(), K::Lit(lit));
                let op = *self.r.pick(&[BinOp::Eq, BinOp::Ne, BinOp::Lt, BinOp::Le, BinOp::Gt, BinOp::Ge]);
                Some(self.e(&Ty::Bool, K::Bin(op, Box::new(s), Box::new(l))))
            }
            _ => None,
        }
    }

    /// construct a value of the type from its parts, depth d for parts
    pub fn build(&mut self, t: &Ty, d: usize) -> E {
        match t {
            Ty::Tuple(ts) => {
                let es = ts.iter().map(|t| self.gen(t, d)).collect();
                self.e(t, K::Tup(es))
            }
            Ty::Array(et, Nx::K(n)) => {
                if *n > 0 && self.r.chance(1, 6) {
                    let x = self.gen(et, d);
                    return self.e(t, K::ArrRep(Box::new(x)));
                }
                let es: Vec<E> = (0..*n).map(|_| self.gen(et, d)).collect();
                self.e(t, K::Arr(es))
            }
            Ty::Adt(i, _) => {
                let k = self.r.below(self.p.defs.nvariants(*i));
                let fs = self.p.defs.fields(t, k);
                let es = fs.iter().map(|f| self.gen(&f.1, d)).collect();
                self.e(t, K::Cons(k, es))
            }
            Ty::Bool | Ty::Int(Nx::K(_)) | Ty::UInt(Nx::K(_)) => {
                let v = self.p.defs.random_value(t, self.r);
                self.e(t, K::Lit(v))
            }
            _ => self.leaf(t),
        }
    }

    // ---- expressions ----
    pub fn gen(&mut self, t: &Ty, d: usize) -> E {
        self.budget -= 1;
        if d == 0 || self.budget < 0 {
            return self.leaf(t);
        }
        let f = self.f.clone();
        let conc = !self.symbolic(t);
        for _ in 0..8 {
            let ws = [
                3,                                              // 0 leaf
                f.ifs,                                          // 1
                f.matches,                                      // 2
                f.iflet,                                        // 3
                f.blocks,                                       // 4
                if f.aggs > 0 { f.aggs } else { 0 },            // 5 projections of aggregates
                f.calls,                                        // 6
                f.methods,                                      // 7
                f.lambdas,                                      // 8
                f.arrays,                                       // 9 array library producing or consuming
                30,                                             // 10 type specific
            ];
            let c = self.r.weighted(&ws);
            let e = match c {
                0 => Some(self.leaf(t)),
                1 => {
                    let c = self.gen(&Ty::Bool, d - 1);
                    let (a, b) = (self.gen_branch(t, d - 1), self.gen_branch(t, d - 1));
                    Some(self.e(t, K::If(Box::new(c), Box::new(a), Box::new(b))))
                }
                // a match cannot produce a value of size zero
                2 | 3 if conc && self.p.defs.size(t) == 0 => None,
                2 => Some(self.gen_match(t, d)),
                3 => {
                    let st = self.scrut_ty();
                    let s = self.gen(&st, d - 1);
                    let n = self.scope.len();
                    let p = self.pattern(&st, 2, true);
                    let a = self.gen_branch(t, d - 1);
                    self.scope.truncate(n);
                    let b = self.gen_branch(t, d - 1);
                    Some(self.e(t, K::IfLet(p, Box::new(s), Box::new(a), Box::new(b))))
                }
                4 => Some(self.gen_block(t, d)),
                5 => self.gen_proj(t, d),
                6 => self.gen_call(t, d),
                7 => self.gen_method(t, d),
                8 => self.gen_lambda_call(t, d),
                9 if conc => self.gen_array_lib(t, d),
                10 => {
                    if conc {
                        Some(self.gen_specific(t, d))
                    } else {
                        self.gen_symbolic(t, d)
                    }
                }
                _ => None,
            };
            if let Some(e) = e {
                return e;
            }
        }
        self.leaf(t)
    }

    fn gen_branch(&mut self, t: &Ty, d: usize) -> E {
        if self.f.blocks > 0 && d > 0 && self.r.chance(1, 5) {
            self.gen_block(t, d)
        } else {
            self.gen(t, d)
        }
    }

    pub fn gen_block(&mut self, t: &Ty, d: usize) -> E {
        let n = self.scope.len();
        let k = self.r.range(1, 3);
        let mut sts = vec![];
        for _ in 0..k {
            if self.f.asserts > 0 && self.r.chance(self.f.asserts, 100) {
                let c = self.gen(&Ty::Bool, d.saturating_sub(1));
                let nc = self.e(&Ty::Bool, K::Un(UnOp::Not, Box::new(c.clone())));
                let e = self.e(&Ty::Bool, K::Bin(BinOp::LOr, Box::new(c), Box::new(nc)));
                sts.push(St::Assert(e));
            }
            let lt = if self.r.chance(1, 4) { t.clone() } else { self.rand_ty(1) };
            if self.symbolic(&lt) && !self.can_make(&lt) {
                continue;
            }
            let v = self.gen(&lt, d - 1);
            let p = if self.r.chance(1, 3) {
                self.pattern(&lt, 2, false)
            } else {
                let x = self.fresh(lt.clone());
                self.scope.push(x);
                Pat::Bind(x)
            };
            let ann = self.r.chance(1, 3);
            sts.push(St::Let(p, lt, ann, v));
        }
        let r = self.gen(t, d - 1);
        self.scope.truncate(n);
        self.e(t, K::Block(sts, Box::new(r)))
    }

    pub fn can_make(&self, t: &Ty) -> bool {
        let vis = self.visible();
        let have = |t: &Ty| {
            vis.iter().any(|v| {
                let mut c = vec![];
                self.paths(self.var(*v), t, 2, &mut c);
                !c.is_empty()
            })
        };
        match t {
            Ty::Param(_) => have(t),
            Ty::Int(n) | Ty::UInt(n) => match n {
                Nx::K(_) => true,
                _ => have(t),
            },
            Ty::Tuple(ts) => ts.iter().all(|t| self.can_make(t)),
            Ty::Array(t, Nx::K(_)) => self.can_make(t),
            Ty::Adt(_, a) => a.iter().all(|t| self.can_make(t)),
            Ty::Bool => true,
            _ => have(t),
        }
    }

    pub fn scrut_ty(&mut self) -> Ty {
        // prefer types with structure
        for _ in 0..6 {
            let t = self.rand_ty(2);
            if self.symbolic(&t) && !self.can_make(&t) || match_cost(&self.p.defs, &t, &[]) > 400.0 {
                continue;
            }
            match &t {
                Ty::Tuple(v) if !v.is_empty() => return t,
                Ty::Adt(..) => return t,
                Ty::Array(..) => return t,
                _ if self.r.chance(1, 4) && !self.symbolic(&t) => return t,
                _ => {}
            }
        }
        Ty::Bool
    }

    /// Pattern of the type; binds into scope. refutable: may contain literals / variants
    pub fn pattern(&mut self, t: &Ty, d: usize, refutable: bool) -> Pat {
        let base = self.scope.len();
        let mut bound: Vec<VarId> = vec![];
        let mut p = self.pattern0(t, d, refutable, &mut bound);
        if match_cost(&self.p.defs, t, &[&p]) > 3000.0 && !matches!(p, Pat::Bind(_)) {
            bound.clear();
            p = self.pattern0(t, 0, refutable, &mut bound);
        }
        self.scope.truncate(base);
        self.scope.extend(bound);
        p
    }
    fn pattern0(&mut self, t: &Ty, d: usize, refutable: bool, bound: &mut Vec<VarId>) -> Pat {
        let bind = |g: &mut Self, bound: &mut Vec<VarId>| {
            let v = g.fresh_avoid(t.clone(), &bound.clone());
            bound.push(v);
            Pat::Bind(v)
        };
        if self.r.chance(1, 10) {
            return Pat::Wild;
        }
        if d == 0 || self.r.chance(1, 5) {
            return bind(self, bound);
        }
        if self.r.chance(1, 12) {
            let v = self.fresh_avoid(t.clone(), &bound.clone());
            bound.push(v);
            return Pat::At(v, Box::new(self.pattern0(t, d, refutable, bound)));
        }
        match t {
            Ty::Bool if refutable => Pat::Lit(V::Bool(self.r.bool()), t.clone()),
            Ty::Int(Nx::K(n)) | Ty::UInt(Nx::K(n)) if refutable && *n > 0 && self.r.chance(2, 3) => {
                let v = self.p.defs.random_value(t, self.r);
                Pat::Lit(v, t.clone())
            }
            Ty::Tuple(ts) if !ts.is_empty() => {
                Pat::Tup(ts.clone().iter().map(|t| self.pattern0(t, d - 1, refutable, bound)).collect())
            }
            Ty::Array(et, Nx::K(n)) if *n > 0 => {
                Pat::Arr((0..*n).map(|_| self.pattern0(et, d - 1, refutable, bound)).collect())
            }
            Ty::Adt(i, _) => {
                let nv = self.p.defs.nvariants(*i);
                if !refutable && nv > 1 {
                    return bind(self, bound);
                }
                let k = self.r.below(nv);
                let fs = self.p.defs.fields(t, k);
                Pat::Cons(t.clone(), k, fs.iter().map(|f| self.pattern0(&f.1, d - 1, refutable, bound)).collect())
            }
            _ => bind(self, bound),
        }
    }

    fn gen_match(&mut self, t: &Ty, d: usize) -> E {
        let st = self.scrut_ty();
        let s = self.gen(&st, d - 1);
        let mut arms = vec![];
        let n = self.scope.len();
        let k = self.r.range(0, 4);
        let structured = matches!(&st, Ty::Adt(i, _) if self.p.defs.is_enum(*i)) && self.r.chance(1, 2);
        for _ in 0..k {
            let p = self.pattern(&st, 3, true);
            let guard = if self.r.chance(1, 4) { Some(self.gen(&Ty::Bool, d.saturating_sub(2))) } else { None };
            let body = self.gen_branch(t, d - 1);
            self.scope.truncate(n);
            arms.push(Arm { pat: p, guard, body });
        }
        if structured {
            let Ty::Adt(i, _) = &st else { panic!() };
            let mut ks: Vec<usize> = (0..self.p.defs.nvariants(*i)).collect();
            self.r.shuffle(&mut ks);
            for k in ks {
                let mut bound = vec![];
                let fs = self.p.defs.fields(&st, k);
                let ps = fs.iter().map(|f| self.pattern0(&f.1, 0, false, &mut bound)).collect();
                self.scope.extend(bound);
                let body = self.gen_branch(t, d - 1);
                self.scope.truncate(n);
                arms.push(Arm { pat: Pat::Cons(st.clone(), k, ps), guard: None, body });
            }
        } else {
            let p = self.pattern(&st, 0, false);
            let body = self.gen_branch(t, d - 1);
            self.scope.truncate(n);
            arms.push(Arm { pat: p, guard: None, body });
        }
        // the usefulness analysis is exponential in the number of columns: keep it affordable
        while arms.len() > 1 && match_cost(&self.p.defs, &st, &arms.iter().map(|a| &a.pat).collect::<Vec<_>>()) > 3000.0 && !structured {
            arms.remove(0);
        }
        if structured && match_cost(&self.p.defs, &st, &arms.iter().map(|a| &a.pat).collect::<Vec<_>>()) > 3000.0 {
            arms.drain(0..k);
        }
        self.e(t, K::Match(Box::new(s), arms))
    }

    fn gen_proj(&mut self, t: &Ty, d: usize) -> Option<E> {
        match self.r.below(4) {
            0 => {
                let n = self.r.range(2, 4);
                let i = self.r.below(n);
                let mut ts: Vec<Ty> = vec![];
                for j in 0..n {
                    let x = if j == i { t.clone() } else { self.rand_ty(1) };
                    if self.symbolic(&x) && !self.can_make(&x) {
                        return None;
                    }
                    ts.push(x);
                }
                let a = self.gen(&Ty::Tuple(ts), d - 1);
                Some(self.e(t, K::TupIdx(Box::new(a), i)))
            }
            1 => {
                let n = self.r.range(1, 5);
                if self.f.dynidx == 0 && self.r.bool() {
                    return None;
                }
                let a = self.gen(&arr(t.clone(), n), d - 1);
                let it = uint(idx_width(n));
                let i = if self.f.dynidx > 0 && n > 1 && self.r.chance(2, 3) {
                    self.gen(&it, (d - 1).min(1))
                } else {
                    let k = self.r.below(n);
                    self.e(&it, K::Lit(V::Int(BigInt::from(k))))
                };
                Some(self.e(t, K::Idx(Box::new(a), Box::new(i))))
            }
            2 => {
                // struct field
                let mut c = vec![];
                for i in 1..self.p.defs.adts.len() {
                    if self.p.defs.is_enum(i) {
                        continue;
                    }
                    let np = self.p.defs.adts[i].nparams;
                    let at = Ty::Adt(i, vec![t.clone(); np]);
                    for (j, (_, ft)) in self.p.defs.fields(&at, 0).into_iter().enumerate() {
                        if ft == *t {
                            c.push((at.clone(), j));
                        }
                    }
                }
                if c.is_empty() {
                    return None;
                }
                let (at, j) = self.r.pick(&c).clone();
                if !self.can_make(&at) {
                    return None;
                }
                let a = self.gen(&at, d - 1);
                Some(self.e(t, K::Field(Box::new(a), j)))
            }
            _ => {
                let Ty::Array(et, Nx::K(n)) = t else { return None };
                let extra = self.r.below(4);
                let lo = self.r.range(0, extra);
                let a = self.gen(&Ty::Array(et.clone(), Nx::K(n + extra)), d - 1);
                Some(self.e(t, K::Slice(Box::new(a), lo, lo + n)))
            }
        }
    }

    fn gen_call(&mut self, t: &Ty, d: usize) -> Option<E> {
        let mut c = vec![];
        for f in &self.callable {
            let fun = &self.p.funcs[*f];
            if fun.entity && !self.in_entity {
                continue;
            }
            if fun.ntys == 0 && fun.nnums == 0 {
                if fun.ret == *t {
                    c.push((*f, vec![], vec![]));
                }
            } else if !self.symbolic(t) {
                // generic: bind return type
                let mut tys: Vec<Option<Ty>> = vec![None; fun.ntys];
                let mut nums: Vec<Option<usize>> = vec![None; fun.nnums];
                if bind_ty(&fun.ret, t, &mut tys, &mut nums) {
                    c.push((*f, tys, nums));
                }
            }
        }
        if c.is_empty() {
            return None;
        }
        let (f, tys, nums) = self.r.pick(&c).clone();
        self.finish_call(t, d, f, tys, nums)
    }

    pub fn satisfies(&self, t: &Ty, tr: usize) -> bool {
        self.p.impls.iter().any(|im| {
            im.tr == Some(tr)
                && match interp::unify(&im.ty, t) {
                    Some(tys) => {
                        // bounds of the impl: taken from its first method
                        im.methods.first().map_or(true, |m| {
                            self.p.funcs[m.1]
                                .bounds
                                .iter()
                                .enumerate()
                                .all(|(i, bs)| bs.iter().all(|b| tys.get(i).map_or(true, |t| self.satisfies(t, *b))))
                        })
                    }
                    None => false,
                }
        })
    }
    /// a concrete type implementing all traits
    /// not known to have size zero
    fn sized(&self, t: &Ty) -> bool {
        self.symbolic(t) || self.p.defs.size(t) > 0 && match_cost(&self.p.defs, t, &[]) <= 6.0
    }
    fn type_with(&mut self, bs: &[usize]) -> Option<Ty> {
        if bs.is_empty() {
            return Some(self.rand_ty(1)).filter(|t| !self.symbolic(t));
        }
        let mut c: Vec<Ty> = vec![];
        for im in &self.p.impls {
            if im.tr == Some(bs[0]) {
                if !self.symbolic(&im.ty) && bs.iter().all(|b| self.satisfies(&im.ty, *b)) {
                    c.push(im.ty.clone());
                }
            }
        }
        if c.is_empty() {
            None
        } else {
            Some(self.r.pick(&c).clone())
        }
    }

    pub fn finish_call(
        &mut self,
        t: &Ty,
        d: usize,
        f: usize,
        tys: Vec<Option<Ty>>,
        nums: Vec<Option<usize>>,
    ) -> Option<E> {
        let fun = self.p.funcs[f].clone();
        let mut ct = vec![];
        for (i, ty) in tys.into_iter().enumerate() {
            let b = fun.bounds.get(i).cloned().unwrap_or_default();
            let ty = match ty {
                Some(ty) => {
                    if !b.iter().all(|b| self.satisfies(&ty, *b)) {
                        return None;
                    }
                    ty
                }
                None => self.type_with(&b)?,
            };
            if !self.sized(&ty) {
                return None;
            }
            ct.push(ty);
        }
        let cn: Vec<usize> = nums.into_iter().map(|n| n.unwrap_or_else(|| self.r.range(1, 9))).collect();
        let mut args = vec![];
        for p in &fun.params {
            let pt = subst(&self.p.vars[*p].ty, &ct, &cn);
            let a = match &pt {
                Ty::Fn(a, r) => self.gen_lambda(a, r, d.saturating_sub(1))?,
                _ => {
                    if !self.can_make(&pt) {
                        return None;
                    }
                    self.gen(&pt, d - 1)
                }
            };
            args.push(a);
        }
        Some(self.e(t, K::Call(f, ct, cn, args)))
    }

    fn gen_method(&mut self, t: &Ty, d: usize) -> Option<E> {
        // candidates: (method, receiver type, args)
        let mut c: Vec<(usize, Ty, Vec<Ty>)> = vec![];
        for m in self.call_methods.iter().chain(&self.bound_methods) {
            let tr = self.p.methods[*m].1;
            for im in &self.p.impls {
                if self.bound_methods.contains(m) {
                    break;
                }
                let Some((_, f)) = im.methods.iter().find(|x| x.0 == *m) else { continue };
                let fun = &self.p.funcs[*f];
                if fun.ntys == 0 {
                    if fun.ret == *t {
                        c.push((
                            *m,
                            im.ty.clone(),
                            fun.params[1..].iter().map(|v| self.p.vars[*v].ty.clone()).collect(),
                        ));
                    }
                } else if !self.symbolic(t) {
                    let mut tys = vec![None; fun.ntys];
                    if bind_ty(&fun.ret, t, &mut tys, &mut vec![]) {
                        let mut ct = vec![];
                        for (i, ty) in tys.into_iter().enumerate() {
                            let b = fun.bounds.get(i).cloned().unwrap_or_default();
                            // some type with the bounds
                            let other = || {
                                self.p.impls.iter().map(|im| im.ty.clone()).find(|x| {
                                    !self.symbolic(x) && b.iter().all(|b| self.satisfies(x, *b))
                                })
                            };
                            let ty = ty.or_else(other).unwrap_or(Ty::Bool);
                            if !self.sized(&ty) || !b.iter().all(|b| self.satisfies(&ty, *b)) {
                                break;
                            }
                            ct.push(ty);
                        }
                        if ct.len() == fun.ntys {
                            c.push((
                                *m,
                                subst(&im.ty, &ct, &[]),
                                fun.params[1..].iter().map(|v| subst(&self.p.vars[*v].ty, &ct, &[])).collect(),
                            ));
                        }
                    }
                }
            }
            // through a bound in generic context
            if let Some(tr) = tr {
                for (i, bs) in self.gtys.iter().enumerate() {
                    if bs.contains(&tr) {
                        let name = self.p.methods[*m].0.clone();
                        let sig = self.p.traits[tr].methods.iter().find(|x| x.0 == name).unwrap();
                        let sub = |t: &Ty| subst(t, &[Ty::Param(i)], &[]);
                        if sub(&sig.2) == *t {
                            c.push((*m, Ty::Param(i), sig.1.iter().map(sub).collect()));
                        }
                    }
                }
            }
        }
        if c.is_empty() {
            return None;
        }
        let (m, rt, at) = self.r.pick(&c).clone();
        if !self.can_make(&rt) || at.iter().any(|t| !self.can_make(t)) {
            return None;
        }
        let r = self.gen(&rt, d - 1);
        let a = at.iter().map(|t| self.gen(t, d - 1)).collect();
        Some(self.e(t, K::Method(m, Box::new(r), a)))
    }

    /// lambda of the given signature capturing from scope
    pub fn gen_lambda(&mut self, args: &[Ty], ret: &Ty, d: usize) -> Option<E> {
        let n = self.scope.len();
        let mut ps = vec![];
        let mut bound: Vec<VarId> = vec![];
        for a in args {
            let p = if self.r.chance(1, 4) {
                self.pattern0(a, 1, false, &mut bound)
            } else {
                let v = self.fresh_avoid(a.clone(), &bound.clone());
                bound.push(v);
                Pat::Bind(v)
            };
            ps.push((p, a.clone()));
        }
        self.scope.extend(bound);
        let ent = std::mem::replace(&mut self.in_entity, false);
        let b = self.gen(ret, d);
        self.in_entity = ent;
        self.scope.truncate(n);
        Some(E { ty: Ty::Fn(args.to_vec(), Box::new(ret.clone())), k: K::Lambda(ps, Box::new(b)) })
    }

    fn gen_lambda_call(&mut self, t: &Ty, d: usize) -> Option<E> {
        // call a function valued variable, or an immediately bound lambda
        let vis = self.visible();
        let mut c = vec![];
        for v in &vis {
            if let Ty::Fn(a, r) = &self.p.vars[*v].ty {
                if **r == *t && a.iter().all(|t| self.can_make(t)) {
                    c.push((*v, a.clone()));
                }
            }
        }
        if !c.is_empty() && self.r.chance(3, 4) {
            let (v, a) = self.r.pick(&c).clone();
            let args = a.iter().map(|t| self.gen(t, d - 1)).collect();
            let f = self.var(v);
            return Some(self.e(t, K::CallFn(Box::new(f), args)));
        }
        None
    }

    fn gen_array_lib(&mut self, t: &Ty, d: usize) -> Option<E> {
        use Std::*;
        let b = |s: Std, a: Vec<E>| K::Std(s, a);
        match t {
            Ty::Array(et, Nx::K(n)) => {
                let n = *n;
                let et = (**et).clone();
                match self.r.below(8) {
                    0 => {
                        let k = self.r.range(0, n);
                        if (k == 0 || k == n) && self.f.empty_arr_pct == 0 {
                            return None;
                        }
                        let x = self.gen(&arr(et.clone(), k), d - 1);
                        let y = self.gen(&arr(et, n - k), d - 1);
                        Some(self.e(t, b(ArrConcat, vec![x, y])))
                    }
                    1 => {
                        let x = self.gen(t, d - 1);
                        Some(self.e(t, b(ArrReversed, vec![x])))
                    }
                    2 if n >= 1 && (n > 1 || self.f.empty_arr_pct > 0) => {
                        let x = self.gen(&arr(et.clone(), n - 1), d - 1);
                        let y = self.gen(&et, d - 1);
                        let s = if self.r.bool() { ArrPushBack } else { ArrPushFront };
                        Some(self.e(t, b(s, vec![x, y])))
                    }
                    3 if n >= 1 => {
                        let x = self.gen(t, d - 1);
                        let y = self.gen(&et, d - 1);
                        let s = if self.r.bool() { ArrShiftBack } else { ArrShiftFront };
                        Some(self.e(t, b(s, vec![x, y])))
                    }
                    4 if n % 2 == 0 && n > 0 => {
                        let ht = arr(et.clone(), n / 2);
                        let x = self.gen(&ht, d - 1);
                        let y = self.gen(&ht, d - 1);
                        Some(self.e(t, b(ArrInterleave, vec![x, y])))
                    }
                    5 => {
                        let Ty::Tuple(ts) = &et else { return None };
                        if ts.len() != 2 {
                            return None;
                        }
                        let x = self.gen(&arr(ts[0].clone(), n), d - 1);
                        let y = self.gen(&arr(ts[1].clone(), n), d - 1);
                        Some(self.e(t, b(ArrZip, vec![x, y])))
                    }
                    6 if self.f.hofs > 0 => {
                        let st = self.rand_ty(1);
                        if self.symbolic(&st) {
                            return None;
                        }
                        let x = self.gen(&arr(st.clone(), n), d - 1);
                        let l = self.gen_lambda(&[st], &et, (d - 1).min(2))?;
                        Some(self.e(t, b(ArrMap, vec![x, l])))
                    }
                    _ => {
                        if et == Ty::Bool && n > 0 {
                            let st = if self.r.bool() { int(n) } else { uint(n) };
                            let x = self.gen(&st, d - 1);
                            return Some(self.e(t, b(AsBits, vec![x])));
                        }
                        None
                    }
                }
            }
            Ty::Bool if self.r.chance(1, 2) => {
                let n = self.r.range(1, 6);
                if self.f.hofs > 0 && self.r.bool() {
                    let st = self.rand_ty(1);
                    if self.symbolic(&st) {
                        return None;
                    }
                    let x = self.gen(&arr(st.clone(), n), d - 1);
                    let l = self.gen_lambda(&[st], &Ty::Bool, (d - 1).min(2))?;
                    let s = if self.r.bool() { ArrAny } else { ArrAll };
                    return Some(self.e(t, b(s, vec![x, l])));
                }
                let x = self.gen(&arr(Ty::Bool, n), d - 1);
                let s = *self.r.pick(&[ReduceAnd, ReduceOr, ReduceXor]);
                Some(self.e(t, b(s, vec![x])))
            }
            _ => {
                let n = self.r.range(1, 4);
                match self.r.below(4) {
                    0 => {
                        let x = self.gen(&arr(t.clone(), n), d - 1);
                        let s = if self.r.bool() { ArrFirst } else { ArrLast };
                        Some(self.e(t, b(s, vec![x])))
                    }
                    1 if self.f.hofs > 0 => {
                        let st = self.rand_ty(1);
                        if self.symbolic(&st) {
                            return None;
                        }
                        let x = self.gen(&arr(st.clone(), n), d - 1);
                        let i = self.gen(t, d - 1);
                        let l = self.gen_lambda(&[t.clone(), st], t, (d - 1).min(2))?;
                        Some(self.e(t, b(ArrFold, vec![x, i, l])))
                    }
                    2 if self.f.hofs > 0 => {
                        let x = self.gen(&arr(t.clone(), n), d - 1);
                        let l = self.gen_lambda(&[t.clone(), t.clone()], t, (d - 1).min(2))?;
                        Some(self.e(t, b(ArrReduce, vec![x, l])))
                    }
                    _ => {
                        if let Ty::UInt(Nx::K(k)) = t {
                            // len: exact width of the size
                            for n in 1..9 {
                                if bits_for(n) == *k {
                                    let et = Ty::Bool;
                                    let x = self.gen(&arr(et, n), 0);
                                    return Some(self.e(t, b(ArrLen, vec![x])));
                                }
                            }
                        }
                        None
                    }
                }
            }
        }
    }

    fn gen_symbolic(&mut self, t: &Ty, d: usize) -> Option<E> {
        match t {
            Ty::Int(Nx::P(_)) | Ty::UInt(Nx::P(_)) => {
                let a = self.gen(t, d - 1);
                let b = self.gen(t, d - 1);
                let op = *self.r.pick(&[
                    BinOp::WAdd,
                    BinOp::WSub,
                    BinOp::WMul,
                    BinOp::And,
                    BinOp::Or,
                    BinOp::Xor,
                ]);
                Some(self.e(t, K::Bin(op, Box::new(a), Box::new(b))))
            }
            Ty::Int(Nx::PAdd(i, 1)) | Ty::UInt(Nx::PAdd(i, 1)) => {
                let o = if matches!(t, Ty::Int(_)) { Ty::Int(Nx::P(*i)) } else { Ty::UInt(Nx::P(*i)) };
                let a = self.gen(&o, d - 1);
                let b = self.gen(&o, d - 1);
                let op = if self.r.bool() { BinOp::Add } else { BinOp::Sub };
                Some(self.e(t, K::Bin(op, Box::new(a), Box::new(b))))
            }
            _ => {
                if self.can_make(t) && matches!(t, Ty::Tuple(_) | Ty::Array(..) | Ty::Adt(..)) {
                    Some(self.leaf_or_build_symbolic(t, d))
                } else {
                    None
                }
            }
        }
    }
    fn leaf_or_build_symbolic(&mut self, t: &Ty, d: usize) -> E {
        let _ = d;
        self.leaf(t)
    }

    fn gen_specific(&mut self, t: &Ty, d: usize) -> E {
        use BinOp::*;
        let bx = Box::new;
        match t {
            Ty::Bool => {
                let ws = [self.f.logic, self.f.logic, self.f.cmp, self.f.conv / 4, if self.f.iflet + self.f.matches > 0 { 2 } else { 0 }];
                match self.r.weighted(&ws) {
                    0 => {
                        let op = *self.r.pick(&[LAnd, LOr, LXor, Eq, Ne]);
                        let a = self.gen(t, d - 1);
                        let b = self.gen(t, d - 1);
                        self.e(t, K::Bin(op, bx(a), bx(b)))
                    }
                    1 => {
                        let a = self.gen(t, d - 1);
                        self.e(t, K::Un(UnOp::Not, bx(a)))
                    }
                    2 => {
                        let w = self.width();
                        let it = if self.r.bool() { int(w) } else { uint(w) };
                        let a = self.gen(&it, d - 1);
                        let b = self.gen(&it, d - 1);
                        let op = *self.r.pick(&[Eq, Ne, Lt, Le, Gt, Ge]);
                        self.e(t, K::Bin(op, bx(a), bx(b)))
                    }
                    3 => {
                        let w = self.width().max(1);
                        let signed = self.r.bool();
                        let it = if signed { int(w) } else { uint(w) };
                        let a = self.gen(&it, d - 1);
                        let s = match self.r.below(3) {
                            0 => Std::Lsb,
                            1 if signed => Std::SignBit,
                            _ => Std::Msb,
                        };
                        self.e(t, K::Std(s, vec![a]))
                    }
                    _ => {
                        let ot = Ty::Adt(OPTION, vec![self.simple_ty()]);
                        let a = self.gen(&ot, d - 1);
                        let s = if self.r.bool() { Std::OptIsSome } else { Std::OptIsNone };
                        self.e(t, K::Std(s, vec![a]))
                    }
                }
            }
            Ty::Int(Nx::K(n)) | Ty::UInt(Nx::K(n)) => {
                let n = *n;
                if n == 0 {
                    return self.leaf(t);
                }
                let signed = matches!(t, Ty::Int(_));
                let mk = |w: usize, s: bool| if s { int(w) } else { uint(w) };
                let f = self.f.clone();
                let ws = [
                    f.arith,                     // 0 add sub
                    f.arith / 2,                 // 1 mul
                    f.wrap,                      // 2
                    f.divs,                      // 3 div mod
                    f.bits,                      // 4 bitwise
                    f.bits / 2 + 1,              // 5 shift
                    f.conv,                      // 6 trunc
                    f.conv,                      // 7 extend
                    f.conv,                      // 8 reinterpret
                    f.arith / 3,                 // 9 negation / bitnot
                    f.conv / 2,                  // 10 concat
                    f.conv / 2,                  // 11 min max abs
                    if f.divs > 0 { 1 } else { 0 }, // 12 comb div/mod
                ];
                for _ in 0..10 {
                    let c = self.r.weighted(&ws);
                    let r = match c {
                        0 if n >= 2 => {
                            let ot = mk(n - 1, signed);
                            let a = self.gen(&ot, d - 1);
                            let b = self.gen(&ot, d - 1);
                            let op = if self.r.bool() { Add } else { Sub };
                            K::Bin(op, bx(a), bx(b))
                        }
                        1 if n >= 2 => {
                            let k = self.r.range(1, n - 1);
                            let a = self.gen(&mk(k, signed), d - 1);
                            let b = self.gen(&mk(n - k, signed), d - 1);
                            K::Bin(Mul, bx(a), bx(b))
                        }
                        2 => {
                            let a = self.gen(t, d - 1);
                            if signed && self.r.chance(1, 6) {
                                K::Un(UnOp::WNeg, bx(a))
                            } else {
                                let b = self.gen(t, d - 1);
                                let op = *self.r.pick(&[WAdd, WSub, WMul]);
                                K::Bin(op, bx(a), bx(b))
                            }
                        }
                        3 => {
                            let top = if signed { n.saturating_sub(1) } else { n };
                            if top == 0 {
                                continue;
                            }
                            let k = self.r.below(top);
                            let a = self.gen(t, d - 1);
                            let b = self.e(t, K::Lit(V::Int(BigInt::one() << k)));
                            let op = if self.r.bool() { Div } else { Mod };
                            K::Bin(op, bx(a), bx(b))
                        }
                        4 => {
                            let a = self.gen(t, d - 1);
                            let b = self.gen(t, d - 1);
                            let op = *self.r.pick(&[And, Or, Xor]);
                            K::Bin(op, bx(a), bx(b))
                        }
                        5 => {
                            let a = self.gen(t, d - 1);
                            let b = if self.r.chance(1, 2) {
                                let top = if signed { n - 1 } else { n };
                                let max = if top >= 6 { n + 1 } else { (1usize << top) - 1 };
                                let k = self.r.range(0, max.min(n + 1));
                                self.e(t, K::Lit(V::Int(BigInt::from(k))))
                            } else {
                                self.gen(t, d - 1)
                            };
                            let op = *self.r.pick(&[Shl, Shr, AShr, Shl, Shr, AShr, WShl, WShr]);
                            K::Bin(op, bx(a), bx(b))
                        }
                        6 => {
                            let extra = self.r.range(0, 6);
                            let extra = if self.r.chance(1, 10) { extra + 40 } else { extra };
                            let a = self.gen(&mk(n + extra, signed), d - 1);
                            K::Std(Std::Trunc, vec![a])
                        }
                        7 => {
                            let k = self.r.range(if self.f.zero_pct > 0 { 0 } else { 1 }, n);
                            let a = self.gen(&mk(k, signed), d - 1);
                            K::Std(if signed { Std::Sext } else { Std::Zext }, vec![a])
                        }
                        8 => match self.r.below(4) {
                            0 if signed && n >= 2 => {
                                let a = self.gen(&uint(n - 1), d - 1);
                                K::Std(Std::ToInt, vec![a])
                            }
                            1 => {
                                let a = self.gen(&mk(n, !signed), d - 1);
                                let bt = arr(Ty::Bool, n);
                                let a = self.e(&bt, K::Std(Std::AsBits, vec![a]));
                                K::Std(if signed { Std::BitsAsInt } else { Std::BitsAsUint }, vec![a])
                            }
                            2 if n == 1 && !signed => {
                                let a = self.gen(&Ty::Bool, d - 1);
                                K::Std(Std::BoolToUint, vec![a])
                            }
                            _ => {
                                let a = self.gen(&mk(n, !signed), d - 1);
                                K::Std(if signed { Std::AsInt } else { Std::AsUint }, vec![a])
                            }
                        },
                        9 => {
                            let a = self.gen(t, d - 1);
                            if signed && self.r.bool() {
                                K::Un(UnOp::Neg, bx(a))
                            } else {
                                K::Un(UnOp::BitNot, bx(a))
                            }
                        }
                        10 if n >= 2 => {
                            let k = self.r.range(1, n - 1);
                            let a = self.gen(&mk(k, signed), d - 1);
                            let b = self.gen(&mk(n - k, signed), d - 1);
                            K::Std(Std::Concat, vec![a, b])
                        }
                        11 => {
                            if !signed && self.r.chance(1, 4) {
                                let a = self.gen(&int(n), d - 1);
                                K::Std(Std::Abs, vec![a])
                            } else {
                                let a = self.gen(t, d - 1);
                                let b = self.gen(t, d - 1);
                                K::Std(if self.r.bool() { Std::Min } else { Std::Max }, vec![a, b])
                            }
                        }
                        12 => {
                            let a = self.gen(t, d - 1);
                            let b = self.gen(t, d - 1);
                            K::Std(if self.r.bool() { Std::CombDiv } else { Std::CombMod }, vec![a, b])
                        }
                        _ => continue,
                    };
                    return self.e(t, r);
                }
                self.leaf(t)
            }
            Ty::Array(et, Nx::K(n)) if **et == Ty::Bool && *n > 0 && self.r.chance(1, 3) => {
                let a = self.gen(t, d - 1);
                if self.r.chance(1, 4) {
                    self.e(t, K::Un(UnOp::BitNot, bx(a)))
                } else {
                    let b = self.gen(t, d - 1);
                    let op = *self.r.pick(&[And, Or, Xor]);
                    self.e(t, K::Bin(op, bx(a), bx(b)))
                }
            }
            Ty::Adt(OPTION, a) if self.f.hofs > 0 && self.r.chance(1, 4) => {
                let st = self.simple_ty();
                let x = self.gen(&Ty::Adt(OPTION, vec![st.clone()]), d - 1);
                if self.r.bool() {
                    match self.gen_lambda(&[st], &a[0], (d - 1).min(2)) {
                        Some(l) => self.e(t, K::Std(Std::OptMap, vec![x, l])),
                        None => self.leaf(t),
                    }
                } else {
                    match self.gen_lambda(&[st], t, (d - 1).min(2)) {
                        Some(l) => self.e(t, K::Std(Std::OptAndThen, vec![x, l])),
                        None => self.leaf(t),
                    }
                }
            }
            _ => self.build(t, d - 1),
        }
    }

    pub fn simple_ty(&mut self) -> Ty {
        let w = self.width().max(1);
        match self.r.below(5) {
            0 => Ty::Bool,
            1 | 2 => int(w),
            _ => uint(w),
        }
    }

    // ---- functions ----
    /// a concrete function; returns its index
    pub fn gen_func(&mut self, name: &str) -> usize {
        let np = self.r.range(1, self.f.max_params);
        let tys: Vec<Ty> = (0..np).map(|_| self.rand_ty(2)).collect();
        let mut ret = self.rand_ty(2);
        for _ in 0..20 {
            if self.p.defs.size(&ret) > 0 {
                break;
            }
            ret = self.rand_ty(2);
        }
        self.gen_func_sig(name, &tys, &ret)
    }
    pub fn gen_func_sig(&mut self, name: &str, tys: &[Ty], ret: &Ty) -> usize {
        let saved = std::mem::take(&mut self.scope);
        let mut params: Vec<VarId> = vec![];
        for t in tys {
            let v = self.fresh_avoid(t.clone(), &params);
            params.push(v);
        }
        self.scope = params.clone();
        self.budget = 60;
        let d = self.f.depth;
        let body = if self.r.chance(1, 2) && self.f.blocks > 0 {
            self.gen_block(ret, d)
        } else {
            self.gen(ret, d)
        };
        self.scope = saved;
        self.p.funcs.push(Func {
            name: name.into(),
            params,
            ret: ret.clone(),
            body: Some(body),
            ntys: 0,
            nnums: 0,
            bounds: vec![],
            attrs: vec![],
            entity: false,
            in_impl: false,
        });
        self.p.funcs.len() - 1
    }

    /// generic helper function
    pub fn gen_generic_func(&mut self, name: &str) -> usize {
        let ntys = self.r.range(0, 2);
        let nnums = if ntys == 0 { 1 } else { self.r.range(0, 1) };
        let mut bounds = vec![];
        for _ in 0..ntys {
            let mut b = vec![];
            if !self.p.traits.is_empty() && self.r.chance(2, 3) {
                b.push(self.r.below(self.p.traits.len()));
            }
            bounds.push(b);
        }
        self.gtys = bounds.clone();
        self.gnums = nnums;
        let mut tys: Vec<Ty> = (0..ntys).map(Ty::Param).collect();
        for i in 0..nnums {
            tys.push(Ty::Int(Nx::P(i)));
            tys.push(Ty::UInt(Nx::P(i)));
        }
        for _ in 0..self.r.range(0, 2) {
            let t = self.rand_ty(1);
            tys.push(t);
        }
        if self.f.hofs > 0 && self.r.chance(1, 3) {
            let (a, b) = (self.r.pick(&tys.clone()).clone(), self.rand_ty(0));
            tys.push(Ty::Fn(vec![a], Box::new(b)));
        }
        self.r.shuffle(&mut tys);
        let saved = std::mem::take(&mut self.scope);
        let mut params: Vec<VarId> = vec![];
        for t in &tys {
            let v = self.fresh_avoid(t.clone(), &params);
            params.push(v);
        }
        self.scope = params.clone();
        self.budget = 30;
        // the result
        let mut ret = self.rand_ty(1);
        for _ in 0..10 {
            if self.can_make(&ret) && (self.symbolic(&ret) || self.p.defs.size(&ret) > 0) {
                break;
            }
            ret = self.rand_ty(1);
        }
        if !self.can_make(&ret) {
            ret = Ty::Bool;
        }
        if nnums > 0 && self.r.chance(1, 4) {
            ret = Ty::UInt(Nx::PAdd(0, 1));
        }
        let d = self.f.depth.min(3);
        let body = self.gen(&ret, d);
        self.scope = saved;
        self.gtys = vec![];
        self.gnums = 0;
        self.p.funcs.push(Func {
            name: name.into(),
            params,
            ret,
            body: Some(body),
            ntys,
            nnums,
            bounds,
            attrs: vec![],
            entity: false,
            in_impl: false,
        });
        self.p.funcs.len() - 1
    }

    pub fn gen_traits(&mut self, n: usize) {
        for i in 0..n {
            let nm = self.r.range(1, 2);
            let mut methods = vec![];
            for j in 0..nm {
                let pick = |g: &mut Self| if g.r.chance(1, 3) { Ty::Param(0) } else { g.simple_ty() };
                let args: Vec<Ty> = (0..g_range(self.r, 0, 2)).map(|_| pick(self)).collect();
                let ret = pick(self);
                methods.push((format!("tm{i}_{j}"), args, ret));
            }
            self.p.traits.push(Trait { name: format!("Tr{i}"), methods });
            let tr = self.p.traits.len() - 1;
            let base = self.p.methods.len();
            for m in self.p.traits[tr].methods.clone() {
                self.p.methods.push((m.0, Some(tr)));
            }
            // impls on types which do not overlap, but may have the same shape
            let mut heads: Vec<(Ty, Vec<Vec<usize>>)> = vec![];
            for _ in 0..self.r.range(1, 5) {
                let generic = self.r.chance(1, 4);
                let t = self.impl_head(generic);
                let Some(t) = t else { continue };
                if !generic && !self.sized(&t) {
                    continue;
                }
                if heads.iter().any(|h| may_overlap(&h.0, &t)) {
                    continue;
                }
                let mut b = vec![];
                if generic {
                    b.push(if self.r.chance(2, 3) && !heads.is_empty() { vec![self.r.below(tr + 1)] } else { vec![] });
                }
                heads.push((t, b));
            }
            for (h, bounds) in heads {
                let mut ms = vec![];
                for (j, m) in self.p.traits[tr].methods.clone().into_iter().enumerate() {
                    let sub = |t: &Ty| subst(t, &[h.clone()], &[]);
                    let mut tys = vec![h.clone()];
                    tys.extend(m.1.iter().map(sub));
                    let saved = self.f.depth;
                    self.f.depth = 2;
                    self.gtys = bounds.clone();
                    if bounds.iter().any(|b| b.contains(&tr)) {
                        self.bound_methods = (base..base + nm).collect();
                    }
                    let f = self.gen_method_fn(&m.0, &tys, &sub(&m.2));
                    self.bound_methods.clear();
                    self.gtys = vec![];
                    self.p.funcs[f].ntys = bounds.len();
                    self.p.funcs[f].bounds = bounds.clone();
                    self.f.depth = saved;
                    ms.push((base + j, f));
                }
                self.p.impls.push(Impl { tr: Some(tr), ty: h, methods: ms });
            }
            self.call_methods.extend(base..base + nm);
        }
    }

    fn impl_head(&mut self, generic: bool) -> Option<Ty> {
        let inner = |g: &mut Self| if generic { Ty::Param(0) } else { g.simple_ty() };
        Some(match self.r.below(9) {
            0 if !generic => Ty::Bool,
            1 | 2 if self.p.defs.adts.len() > 1 => {
                let k = self.r.range(1, self.p.defs.adts.len() - 1);
                if self.p.defs.adts[k].nparams == 0 {
                    if generic {
                        return None;
                    }
                    Ty::Adt(k, vec![])
                } else {
                    Ty::Adt(k, vec![inner(self)])
                }
            }
            3 => Ty::Adt(OPTION, vec![inner(self)]),
            4 | 5 => {
                let t = inner(self);
                arr(t, self.r.range(1, 3))
            }
            6 => {
                let mut v = vec![inner(self)];
                for _ in 0..self.r.range(1, 2) {
                    v.push(self.simple_ty());
                }
                self.r.shuffle(&mut v);
                Ty::Tuple(v)
            }
            7 if !generic => uint(self.r.range(1, 12)),
            _ if !generic => int(self.r.range(1, 12)),
            _ => return None,
        })
    }

    /// inherent impls on user types
    pub fn gen_inherent(&mut self, n: usize) {
        for i in 0..n {
            if self.p.defs.adts.len() <= 1 {
                return;
            }
            let k = self.r.range(1, self.p.defs.adts.len() - 1);
            if self.p.defs.adts[k].nparams != 0 {
                continue;
            }
            let t = Ty::Adt(k, vec![]);
            let name = format!("im{i}");
            let mut tys = vec![t.clone()];
            for _ in 0..self.r.range(0, 2) {
                let x = self.rand_ty(1);
                tys.push(x);
            }
            let ret = self.simple_ty();
            let saved = self.f.depth;
            self.f.depth = 2;
            let f = self.gen_method_fn(&name, &tys, &ret);
            self.f.depth = saved;
            self.p.methods.push((name, None));
            let m = self.p.methods.len() - 1;
            self.p.impls.push(Impl { tr: None, ty: t, methods: vec![(m, f)] });
            self.call_methods.push(m);
        }
    }

    fn gen_method_fn(&mut self, name: &str, tys: &[Ty], ret: &Ty) -> usize {
        let saved = std::mem::take(&mut self.scope);
        let mut params = vec![];
        self.p.vars.push(VarInfo { name: "self".into(), ty: tys[0].clone() });
        params.push(self.p.vars.len() - 1);
        for (i, t) in tys[1..].iter().enumerate() {
            self.p.vars.push(VarInfo { name: format!("a{i}"), ty: t.clone() });
            params.push(self.p.vars.len() - 1);
        }
        self.scope = params.clone();
        self.budget = 20;
        let d = self.f.depth;
        let body = self.gen(ret, d);
        self.scope = saved;
        self.p.funcs.push(Func {
            name: name.into(),
            params,
            ret: ret.clone(),
            body: Some(body),
            ntys: 0,
            nnums: 0,
            bounds: vec![],
            attrs: vec![],
            entity: false,
            in_impl: true,
        });
        self.p.funcs.len() - 1
    }
}

/// estimate of the number of paths of a usefulness analysis: wildcards are expanded into all
/// combinations of enum variants
pub fn match_cost(defs: &Defs, t: &Ty, ps: &[&Pat]) -> f64 {
    let cols = |tys: Vec<Ty>, rows: Vec<&Vec<Pat>>| -> f64 {
        tys.iter()
            .enumerate()
            .map(|(i, t)| match_cost(defs, t, &rows.iter().filter_map(|r| r.get(i)).collect::<Vec<_>>()))
            .product()
    };
    let seqs = || -> Vec<&Vec<Pat>> {
        ps.iter()
            .filter_map(|p| match p.strip() {
                Pat::Tup(v) | Pat::Arr(v) => Some(v),
                _ => None,
            })
            .collect()
    };
    match t {
        Ty::Tuple(ts) => cols(ts.clone(), seqs()),
        Ty::Array(e, Nx::K(n)) => cols(vec![(**e).clone(); *n], seqs()),
        Ty::Adt(i, _) => (0..defs.nvariants(*i))
            .map(|k| {
                let rows = ps
                    .iter()
                    .filter_map(|p| match p.strip() {
                        Pat::Cons(_, k2, v) if k == *k2 => Some(v),
                        _ => None,
                    })
                    .collect();
                cols(defs.fields(t, k).into_iter().map(|f| f.1).collect(), rows)
            })
            .sum(),
        Ty::Param(_) => 6.0,
        _ => 2.0 * ps.iter().filter(|p| matches!(p.strip(), Pat::Lit(..))).count() as f64 + 1.0,
    }
}

/// may two impl targets match the same type (conservative)
fn may_overlap(a: &Ty, b: &Ty) -> bool {
    match (a, b) {
        (Ty::Param(_), _) | (_, Ty::Param(_)) => true,
        (Ty::Tuple(a), Ty::Tuple(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| may_overlap(a, b)),
        (Ty::Array(a, n), Ty::Array(b, m)) => n == m && may_overlap(a, b),
        (Ty::Adt(i, a), Ty::Adt(j, b)) => i == j && a.iter().zip(b).all(|(a, b)| may_overlap(a, b)),
        (a, b) => a == b,
    }
}

fn g_range(r: &mut Rng, lo: usize, hi: usize) -> usize {
    r.range(lo, hi)
}

/// match a pattern type with parameters against a concrete type
pub fn bind_ty(p: &Ty, t: &Ty, tys: &mut Vec<Option<Ty>>, nums: &mut Vec<Option<usize>>) -> bool {
    let mut num = |n: &Nx, m: &Nx| -> bool {
        let Nx::K(m) = m else { return false };
        match n {
            Nx::K(k) => k == m,
            Nx::P(i) => match nums[*i] {
                Some(x) => x == *m,
                None => {
                    if *m == 0 {
                        return false;
                    }
                    nums[*i] = Some(*m);
                    true
                }
            },
            Nx::PAdd(i, k) => {
                if m <= k {
                    return false;
                }
                match nums[*i] {
                    Some(x) => x + k == *m,
                    None => {
                        nums[*i] = Some(m - k);
                        true
                    }
                }
            }
        }
    };
    match (p, t) {
        (Ty::Param(i), t) => match &tys[*i] {
            Some(x) => x == t,
            None => {
                tys[*i] = Some(t.clone());
                true
            }
        },
        (Ty::Int(a), Ty::Int(b)) | (Ty::UInt(a), Ty::UInt(b)) => num(a, b),
        (Ty::Bool, Ty::Bool) => true,
        (Ty::Tuple(a), Ty::Tuple(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| bind_ty(a, b, tys, nums))
        }
        (Ty::Array(a, n), Ty::Array(b, m)) => num(n, m) && bind_ty(a, b, tys, nums),
        (Ty::Adt(i, a), Ty::Adt(j, b)) => i == j && a.iter().zip(b).all(|(a, b)| bind_ty(a, b, tys, nums)),
        _ => false,
    }
}
