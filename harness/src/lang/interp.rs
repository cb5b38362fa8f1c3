//! Reference interpreter. Undefined values (out of range indices, division by zero) become V::X and
//! propagate; anything that depends on one is not compared.
use super::*;
use num::Signed;
use num::ToPrimitive;
use std::cell::RefCell;
use std::collections::HashMap;

pub struct Interp<'a> {
    pub p: &'a Prog,
    pub fuel: RefCell<u64>,
    pub failed_asserts: RefCell<u64>,
    pub asserts: RefCell<u64>,
    pub ext: RefCell<HashMap<usize, V>>,
}

pub type Env = HashMap<VarId, V>;

#[derive(Clone)]
pub struct Frame {
    pub tys: Vec<Ty>,
    pub nums: Vec<usize>,
}

pub fn has_x(v: &V) -> bool {
    match v {
        V::X => true,
        V::Tup(a) | V::En(_, a) => a.iter().any(has_x),
        _ => false,
    }
}

fn b3(v: &V) -> Option<bool> {
    match v {
        V::Bool(b) => Some(*b),
        _ => None,
    }
}

impl<'a> Interp<'a> {
    pub fn new(p: &'a Prog) -> Self {
        Interp { p, fuel: RefCell::new(2_000_000), failed_asserts: RefCell::new(0), asserts: RefCell::new(0), ext: RefCell::new(HashMap::new()) }
    }

    pub fn call(&self, f: usize, tys: &[Ty], nums: &[usize], args: Vec<V>) -> V {
        let fun = &self.p.funcs[f];
        let mut env = Env::new();
        for (p, a) in fun.params.iter().zip(args) {
            env.insert(*p, a);
        }
        let fr = Frame { tys: tys.to_vec(), nums: nums.to_vec() };
        self.eval(fun.body.as_ref().unwrap(), &mut env, &fr)
    }

    /// Some(true/false) if decided, None if undefined
    pub fn matches(&self, p: &Pat, v: &V, env: &mut Env) -> Option<bool> {
        match p {
            Pat::Wild => Some(true),
            Pat::Bind(x) => {
                env.insert(*x, v.clone());
                Some(true)
            }
            Pat::At(x, p) => {
                env.insert(*x, v.clone());
                self.matches(p, v, env)
            }
            Pat::Lit(l, _) => match v {
                V::X => None,
                v => Some(v == l),
            },
            Pat::Tup(ps) | Pat::Arr(ps) => {
                let vs: Vec<V> = match v {
                    V::Tup(vs) => vs.clone(),
                    V::X => vec![V::X; ps.len()],
                    _ => panic!("pattern {p:?} {v:?}"),
                };
                self.all(ps, &vs, env)
            }
            Pat::Cons(t, var, ps) => {
                let Ty::Adt(i, _) = t else { panic!() };
                match v {
                    V::En(k, vs) => {
                        if k == var {
                            self.all(ps, vs, env)
                        } else {
                            Some(false)
                        }
                    }
                    V::X => {
                        let sub = self.all(ps, &vec![V::X; ps.len()], env);
                        if self.p.defs.nvariants(*i) == 1 {
                            sub
                        } else if sub == Some(false) {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    _ => panic!(),
                }
            }
        }
    }
    fn all(&self, ps: &[Pat], vs: &[V], env: &mut Env) -> Option<bool> {
        let mut r = Some(true);
        for (p, v) in ps.iter().zip(vs) {
            match self.matches(p, v, env) {
                Some(true) => {}
                Some(false) => return Some(false),
                None => r = None,
            }
        }
        r
    }

    pub fn eq3(&self, a: &V, b: &V) -> Option<bool> {
        match (a, b) {
            (V::X, _) | (_, V::X) => None,
            (V::Bool(a), V::Bool(b)) => Some(a == b),
            (V::Int(a), V::Int(b)) => Some(a == b),
            (V::Tup(x), V::Tup(y)) => {
                let mut r = Some(true);
                for (a, b) in x.iter().zip(y) {
                    match self.eq3(a, b) {
                        Some(true) => {}
                        Some(false) => return Some(false),
                        None => r = None,
                    }
                }
                r
            }
            (V::En(i, x), V::En(j, y)) => {
                if i != j {
                    return Some(false);
                }
                self.eq3(&V::Tup(x.clone()), &V::Tup(y.clone()))
            }
            _ => panic!("eq {a:?} {b:?}"),
        }
    }

    pub fn apply(&self, f: &V, args: Vec<V>) -> V {
        match f {
            V::Clo(c) => {
                let mut env: Env = c.env.iter().cloned().collect();
                for (p, a) in c.params.iter().zip(args) {
                    self.matches(p, &a, &mut env);
                }
                self.eval(&c.body, &mut env, &Frame { tys: c.tys.clone(), nums: c.nums.clone() })
            }
            V::X => V::X,
            _ => panic!("apply"),
        }
    }

    pub fn eval(&self, e: &E, env: &mut Env, fr: &Frame) -> V {
        {
            let mut f = self.fuel.borrow_mut();
            if *f == 0 {
                return V::X;
            }
            *f -= 1;
        }
        let ty = || subst(&e.ty, &fr.tys, &fr.nums);
        match &e.k {
            K::Lit(v) => v.clone(),
            K::Var(x) => env.get(x).cloned().unwrap_or_else(|| panic!("unbound {x} {}", self.p.vars[*x].name)),
            K::Ext(_, k) => self.ext.borrow().get(k).cloned().unwrap_or(V::X),
            K::Copy(a) => self.eval(a, env, fr),
            K::Bin(op, a, b) => {
                let x = self.eval(a, env, fr);
                let y = self.eval(b, env, fr);
                let ta = subst(&a.ty, &fr.tys, &fr.nums);
                self.bin(*op, &x, &y, &ty(), &ta)
            }
            K::Un(op, a) => {
                let x = self.eval(a, env, fr);
                match (op, &x) {
                    (UnOp::Not, V::Bool(b)) => V::Bool(!b),
                    (UnOp::BitNot, V::Int(i)) => self.wrap(&ty(), &(-i - 1)),
                    (UnOp::BitNot, V::Tup(v)) => V::Tup(
                        v.iter()
                            .map(|x| match x {
                                V::Bool(b) => V::Bool(!b),
                                _ => V::X,
                            })
                            .collect(),
                    ),
                    (UnOp::Neg | UnOp::WNeg, V::Int(i)) => self.wrap(&ty(), &(-i)),
                    _ => V::X,
                }
            }
            K::If(c, a, b) => {
                let c = self.eval(c, env, fr);
                match b3(&c) {
                    Some(true) => self.eval(a, env, fr),
                    Some(false) => self.eval(b, env, fr),
                    None => V::X,
                }
            }
            K::IfLet(p, s, a, b) => {
                let s = self.eval(s, env, fr);
                let mut e2 = env.clone();
                match self.matches(p, &s, &mut e2) {
                    Some(true) => self.eval(a, &mut e2, fr),
                    Some(false) => self.eval(b, env, fr),
                    None => V::X,
                }
            }
            K::Match(s, arms) => {
                let s = self.eval(s, env, fr);
                for a in arms {
                    let mut e2 = env.clone();
                    match self.matches(&a.pat, &s, &mut e2) {
                        Some(true) => {}
                        Some(false) => continue,
                        None => return V::X,
                    }
                    if let Some(g) = &a.guard {
                        match b3(&self.eval(g, &mut e2, fr)) {
                            Some(true) => {}
                            Some(false) => continue,
                            None => return V::X,
                        }
                    }
                    return self.eval(&a.body, &mut e2, fr);
                }
                V::X
            }
            K::Block(sts, r) => {
                let mut e2 = env.clone();
                for s in sts {
                    match s {
                        St::Let(p, _, _, v) => {
                            let v = self.eval(v, &mut e2, fr);
                            self.matches(p, &v, &mut e2);
                        }
                        St::Assert(c) => {
                            *self.asserts.borrow_mut() += 1;
                            if b3(&self.eval(c, &mut e2, fr)) != Some(true) {
                                *self.failed_asserts.borrow_mut() += 1;
                            }
                        }
                    }
                }
                self.eval(r, &mut e2, fr)
            }
            K::Tup(es) | K::Arr(es) => V::Tup(es.iter().map(|e| self.eval(e, env, fr)).collect()),
            K::ArrRep(v) => {
                let v = self.eval(v, env, fr);
                let Ty::Array(_, n) = ty() else { panic!() };
                V::Tup(vec![v; n.c()])
            }
            K::TupIdx(a, i) => match self.eval(a, env, fr) {
                V::Tup(v) => v[*i].clone(),
                V::X => V::X,
                v => panic!("tupidx {v:?}"),
            },
            K::Field(a, i) => match self.eval(a, env, fr) {
                V::En(_, v) => v[*i].clone(),
                V::X => V::X,
                v => panic!("field {v:?}"),
            },
            K::Idx(a, i) => {
                let a = self.eval(a, env, fr);
                let i = self.eval(i, env, fr);
                match (a, i) {
                    (V::Tup(v), V::Int(i)) => match i.to_usize() {
                        Some(i) if i < v.len() => v[i].clone(),
                        _ => V::X,
                    },
                    _ => V::X,
                }
            }
            K::Slice(a, lo, hi) => match self.eval(a, env, fr) {
                V::Tup(v) => V::Tup(v[*lo..*hi].to_vec()),
                V::X => V::Tup(vec![V::X; hi - lo]),
                v => panic!("slice {v:?}"),
            },
            K::Cons(var, es) => V::En(*var, es.iter().map(|e| self.eval(e, env, fr)).collect()),
            K::Call(f, tys, nums, args) => {
                let a = args.iter().map(|e| self.eval(e, env, fr)).collect();
                let tys: Vec<Ty> = tys.iter().map(|t| subst(t, &fr.tys, &fr.nums)).collect();
                self.call(*f, &tys, nums, a)
            }
            K::Method(m, r, args) => {
                let rt = subst(&r.ty, &fr.tys, &fr.nums);
                let mut a = vec![self.eval(r, env, fr)];
                a.extend(args.iter().map(|e| self.eval(e, env, fr)));
                for im in &self.p.impls {
                    if let Some(tys) = unify(&im.ty, &rt) {
                        if let Some((_, f)) = im.methods.iter().find(|x| x.0 == *m) {
                            return self.call(*f, &tys, &[], a);
                        }
                    }
                }
                panic!("no impl of method {} for {rt:?}", self.p.methods[*m].0)
            }
            K::Lambda(ps, body) => V::Clo(Rc::new(Closure {
                params: ps.iter().map(|p| p.0.clone()).collect(),
                body: (**body).clone(),
                env: env.iter().map(|(k, v)| (*k, v.clone())).collect(),
                tys: fr.tys.clone(),
                nums: fr.nums.clone(),
            })),
            K::CallFn(f, args) => {
                let f = self.eval(f, env, fr);
                let a = args.iter().map(|e| self.eval(e, env, fr)).collect();
                self.apply(&f, a)
            }
            K::Std(s, args) => {
                let at: Vec<Ty> = args.iter().map(|e| subst(&e.ty, &fr.tys, &fr.nums)).collect();
                let a: Vec<V> = args.iter().map(|e| self.eval(e, env, fr)).collect();
                self.std(*s, a, &at, &ty())
            }
        }
    }

    pub fn wrap(&self, t: &Ty, x: &BigInt) -> V {
        match t {
            Ty::Int(n) => V::Int(wrap_int(x, n.c(), true)),
            Ty::UInt(n) => V::Int(wrap_int(x, n.c(), false)),
            _ => panic!("wrap {t:?}"),
        }
    }

    fn bin(&self, op: BinOp, x: &V, y: &V, ty: &Ty, ta: &Ty) -> V {
        use BinOp::*;
        // Kleene logic agrees with four-valued hardware
        match op {
            LAnd => {
                return match (b3(x), b3(y)) {
                    (Some(false), _) | (_, Some(false)) => V::Bool(false),
                    (Some(true), Some(true)) => V::Bool(true),
                    _ => V::X,
                }
            }
            LOr => {
                return match (b3(x), b3(y)) {
                    (Some(true), _) | (_, Some(true)) => V::Bool(true),
                    (Some(false), Some(false)) => V::Bool(false),
                    _ => V::X,
                }
            }
            Eq | Ne => {
                let r = self.eq3(x, y);
                return match r {
                    Some(b) => V::Bool(if op == Eq { b } else { !b }),
                    None => V::X,
                };
            }
            And | Or | Xor => {
                if let (V::Tup(a), V::Tup(b)) = (x, y) {
                    return V::Tup(
                        a.iter()
                            .zip(b)
                            .map(|(a, b)| match (a, b) {
                                (V::Bool(a), V::Bool(b)) => V::Bool(match op {
                                    And => a & b,
                                    Or => a | b,
                                    _ => a ^ b,
                                }),
                                _ => V::X,
                            })
                            .collect(),
                    );
                }
            }
            _ => {}
        }
        if let (LXor, V::Bool(a), V::Bool(b)) = (op, x, y) {
            return V::Bool(a ^ b);
        }
        let (V::Int(a), V::Int(b)) = (x, y) else { return V::X };
        let w = match ta {
            Ty::Int(n) | Ty::UInt(n) => n.c(),
            _ => 0,
        };
        let signed = matches!(ta, Ty::Int(_));
        let ua = || wrap_int(a, w, false);
        let ub = || wrap_int(b, w, false);
        match op {
            Add | WAdd => self.wrap(ty, &(a + b)),
            Sub | WSub => self.wrap(ty, &(a - b)),
            Mul | WMul => self.wrap(ty, &(a * b)),
            Div | Mod => {
                if b.is_zero() {
                    return V::X;
                }
                // truncating
                let q = a.abs() / b.abs();
                let q = if a.is_negative() != b.is_negative() { -q } else { q };
                let r = a - &q * b;
                self.wrap(ty, if op == Div { &q } else { &r })
            }
            Shl | WShl => match b.to_usize() {
                Some(n) if n < w => self.wrap(ty, &(a << n)),
                _ => self.wrap(ty, &BigInt::zero()),
            },
            Shr | WShr => match ub().to_usize() {
                Some(n) if n < w => self.wrap(ty, &(ua() >> n)),
                _ => self.wrap(ty, &BigInt::zero()),
            },
            AShr => {
                let s = wrap_int(a, w, true);
                let s = if signed { s } else { wrap_int(a, w, true) };
                match ub().to_usize() {
                    Some(n) if n < w => self.wrap(ty, &(s >> n)),
                    _ => self.wrap(ty, &if s.is_negative() { -BigInt::one() } else { BigInt::zero() }),
                }
            }
            And => self.wrap(ty, &(ua() & ub())),
            Or => self.wrap(ty, &(ua() | ub())),
            Xor => self.wrap(ty, &(ua() ^ ub())),
            Lt => V::Bool(a < b),
            Le => V::Bool(a <= b),
            Gt => V::Bool(a > b),
            Ge => V::Bool(a >= b),
            _ => V::X,
        }
    }

    fn bits_of(&self, t: &Ty, v: &V) -> LV {
        self.p.defs.encode(t, v)
    }

    fn std(&self, s: Std, mut a: Vec<V>, at: &[Ty], ty: &Ty) -> V {
        use Std::*;
        let d = &self.p.defs;
        let elem_ty = |t: &Ty| match t {
            Ty::Array(e, _) => (**e).clone(),
            _ => panic!(),
        };
        let tup = |v: &V, t: &Ty| -> Vec<V> {
            match v {
                V::Tup(v) => v.clone(),
                V::X => match t {
                    Ty::Array(_, n) => vec![V::X; n.c()],
                    _ => panic!(),
                },
                _ => panic!(),
            }
        };
        match s {
            Trunc | Sext | Zext | AsInt | AsUint | ToInt => match &a[0] {
                V::Int(i) => self.wrap(ty, i),
                _ => V::X,
            },
            AsBits => {
                let b = self.bits_of(&at[0], &a[0]);
                d.decode(ty, &b)
            }
            BitsAsInt | BitsAsUint => {
                let b = self.bits_of(&at[0], &a[0]);
                d.decode(ty, &b)
            }
            BoolToUint => match &a[0] {
                V::Bool(b) => V::Int(BigInt::from(*b as u8)),
                _ => V::X,
            },
            Min | Max => match (&a[0], &a[1]) {
                (V::Int(x), V::Int(y)) => V::Int(if s == Min { x.min(y).clone() } else { x.max(y).clone() }),
                _ => V::X,
            },
            Abs => match &a[0] {
                V::Int(x) => self.wrap(ty, &x.abs()),
                _ => V::X,
            },
            Concat => {
                let b = LV::concat(&[self.bits_of(&at[0], &a[0]), self.bits_of(&at[1], &a[1])]);
                d.decode(ty, &b)
            }
            Msb | SignBit => {
                let b = self.bits_of(&at[0], &a[0]);
                d.decode(&Ty::Bool, &b.slice(b.w - 1, 1))
            }
            Lsb => {
                let b = self.bits_of(&at[0], &a[0]);
                d.decode(&Ty::Bool, &b.slice(0, 1))
            }
            CombDiv => self.bin(BinOp::Div, &a[0], &a[1], ty, ty),
            CombMod => self.bin(BinOp::Mod, &a[0], &a[1], ty, ty),
            ReduceAnd | ReduceOr | ReduceXor => {
                let v = tup(&a[0], &at[0]);
                let bs: Option<Vec<bool>> = v.iter().map(b3).collect();
                match bs {
                    Some(bs) => V::Bool(match s {
                        ReduceAnd => bs.iter().all(|x| *x),
                        ReduceOr => bs.iter().any(|x| *x),
                        _ => bs.iter().fold(false, |a, b| a ^ b),
                    }),
                    None => V::X,
                }
            }
            ArrConcat => {
                let mut v = tup(&a[0], &at[0]);
                v.extend(tup(&a[1], &at[1]));
                V::Tup(v)
            }
            ArrReversed => {
                let mut v = tup(&a[0], &at[0]);
                v.reverse();
                V::Tup(v)
            }
            ArrFirst => tup(&a[0], &at[0])[0].clone(),
            ArrLast => tup(&a[0], &at[0]).last().unwrap().clone(),
            ArrPushBack | ArrShiftBack => {
                let x = a.pop().unwrap();
                let mut v = tup(&a[0], &at[0]);
                v.push(x);
                if s == ArrShiftBack {
                    v.remove(0);
                }
                V::Tup(v)
            }
            ArrPushFront | ArrShiftFront => {
                let x = a.pop().unwrap();
                let mut v = tup(&a[0], &at[0]);
                v.insert(0, x);
                if s == ArrShiftFront {
                    v.pop();
                }
                V::Tup(v)
            }
            ArrZip => {
                let (x, y) = (tup(&a[0], &at[0]), tup(&a[1], &at[1]));
                V::Tup(x.into_iter().zip(y).map(|(a, b)| V::Tup(vec![a, b])).collect())
            }
            ArrInterleave => {
                let (x, y) = (tup(&a[0], &at[0]), tup(&a[1], &at[1]));
                V::Tup(x.into_iter().zip(y).flat_map(|(a, b)| [a, b]).collect())
            }
            ArrMap => {
                let v = tup(&a[0], &at[0]);
                V::Tup(v.into_iter().map(|x| self.apply(&a[1], vec![x])).collect())
            }
            ArrFold => {
                let v = tup(&a[0], &at[0]);
                v.into_iter().fold(a[1].clone(), |acc, x| self.apply(&a[2], vec![acc, x]))
            }
            ArrReduce => {
                let v = tup(&a[0], &at[0]);
                let mut it = v.into_iter();
                let f = it.next().unwrap();
                it.fold(f, |acc, x| self.apply(&a[1], vec![acc, x]))
            }
            ArrAny | ArrAll => {
                let v = tup(&a[0], &at[0]);
                let mut r = Some(s == ArrAll);
                for x in v {
                    let b = b3(&self.apply(&a[1], vec![x]));
                    r = match (s, r, b) {
                        (ArrAll, Some(false), _) | (ArrAll, _, Some(false)) => Some(false),
                        (ArrAny, Some(true), _) | (ArrAny, _, Some(true)) => Some(true),
                        (_, None, _) | (_, _, None) => None,
                        (_, r, _) => r,
                    };
                }
                r.map(V::Bool).unwrap_or(V::X)
            }
            ArrLen => match &at[0] {
                Ty::Array(_, n) => V::Int(BigInt::from(n.c())),
                _ => panic!(),
            },
            OptIsSome | OptIsNone => match &a[0] {
                V::En(k, _) => V::Bool((*k == 1) == (s == OptIsSome)),
                _ => V::X,
            },
            OptUnwrapOr => match &a[0] {
                V::En(1, v) => v[0].clone(),
                V::En(_, _) => a[1].clone(),
                _ => V::X,
            },
            OptMap => match &a[0] {
                V::En(1, v) => V::En(1, vec![self.apply(&a[1], vec![v[0].clone()])]),
                V::En(_, _) => V::En(0, vec![]),
                _ => V::X,
            },
            OptAndThen => match &a[0] {
                V::En(1, v) => self.apply(&a[1], vec![v[0].clone()]),
                V::En(_, _) => V::En(0, vec![]),
                _ => V::X,
            },
            #[allow(unreachable_patterns)]
            _ => {
                let _ = elem_ty;
                V::X
            }
        }
    }
}

/// match an impl head (with Param) against a concrete type
pub fn unify(head: &Ty, t: &Ty) -> Option<Vec<Ty>> {
    fn go(h: &Ty, t: &Ty, s: &mut Vec<Option<Ty>>) -> bool {
        match (h, t) {
            (Ty::Param(i), t) => {
                while s.len() <= *i {
                    s.push(None);
                }
                match &s[*i] {
                    None => {
                        s[*i] = Some(t.clone());
                        true
                    }
                    Some(x) => x == t,
                }
            }
            (Ty::Tuple(a), Ty::Tuple(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| go(a, b, s)),
            (Ty::Array(a, n), Ty::Array(b, m)) => n == m && go(a, b, s),
            (Ty::Adt(i, a), Ty::Adt(j, b)) => i == j && a.iter().zip(b).all(|(a, b)| go(a, b, s)),
            (a, b) => a == b,
        }
    }
    let mut s = vec![];
    if go(head, t, &mut s) {
        Some(s.into_iter().map(|x| x.unwrap_or(Ty::Bool)).collect())
    } else {
        None
    }
}
