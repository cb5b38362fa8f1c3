//! A typed model of the Spade expression language: types, values, programs, an independent
//! reference interpreter, a printer to concrete syntax and a random program generator.
pub mod gen;
pub mod interp;
pub mod print;
pub mod seq;
pub mod seqgen;
pub mod shrink;

use crate::bits::{B, LV};
use crate::rng::Rng;
use num::bigint::BigInt;
use num::{One, Zero};
use std::rc::Rc;

/// A type-level number: constant plus at most one parameter (scaled). `p * mul + k`
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Nx {
    K(usize),
    /// generic number parameter index
    P(usize),
    /// param + k
    PAdd(usize, usize),
}

impl Nx {
    pub fn c(&self) -> usize {
        match self {
            Nx::K(n) => *n,
            _ => panic!("width is not concrete: {self:?}"),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Ty {
    Bool,
    Int(Nx),
    UInt(Nx),
    Tuple(Vec<Ty>),
    Array(Box<Ty>, Nx),
    /// index into Defs, type arguments
    Adt(usize, Vec<Ty>),
    Param(usize),
    Clock,
    /// a function value (only as parameter or lambda): args, result
    Fn(Vec<Ty>, Box<Ty>),
}

pub fn int(w: usize) -> Ty {
    Ty::Int(Nx::K(w))
}
pub fn uint(w: usize) -> Ty {
    Ty::UInt(Nx::K(w))
}
pub fn arr(t: Ty, n: usize) -> Ty {
    Ty::Array(Box::new(t), Nx::K(n))
}
pub fn unit() -> Ty {
    Ty::Tuple(vec![])
}

#[derive(Clone, Debug, PartialEq)]
pub enum AdtKind {
    Struct(Vec<(String, Ty)>),
    Enum(Vec<(String, Vec<(String, Ty)>)>),
}

#[derive(Clone, Debug)]
pub struct Adt {
    pub name: String,
    pub kind: AdtKind,
    pub nparams: usize,
    /// not printed (Option)
    pub builtin: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Defs {
    pub adts: Vec<Adt>,
}

pub const OPTION: usize = 0;

impl Defs {
    pub fn new() -> Defs {
        Defs {
            adts: vec![Adt {
                name: "Option".into(),
                kind: AdtKind::Enum(vec![
                    ("None".into(), vec![]),
                    ("Some".into(), vec![("val".into(), Ty::Param(0))]),
                ]),
                nparams: 1,
                builtin: true,
            }],
        }
    }
    pub fn fields(&self, ty: &Ty, variant: usize) -> Vec<(String, Ty)> {
        let Ty::Adt(i, args) = ty else { panic!("not adt") };
        let f = match &self.adts[*i].kind {
            AdtKind::Struct(f) => f,
            AdtKind::Enum(v) => &v[variant].1,
        };
        f.iter().map(|(n, t)| (n.clone(), subst(t, args, &[]))).collect()
    }
    pub fn nvariants(&self, i: usize) -> usize {
        match &self.adts[i].kind {
            AdtKind::Struct(_) => 1,
            AdtKind::Enum(v) => v.len(),
        }
    }
    pub fn is_enum(&self, i: usize) -> bool {
        matches!(self.adts[i].kind, AdtKind::Enum(_))
    }
    pub fn tag_bits(&self, i: usize) -> usize {
        match &self.adts[i].kind {
            AdtKind::Struct(_) => 0,
            AdtKind::Enum(v) => ceil_log2(v.len()),
        }
    }
    /// Number of bits of a type in hardware
    pub fn size(&self, t: &Ty) -> usize {
        match t {
            Ty::Bool | Ty::Clock => 1,
            Ty::Int(n) | Ty::UInt(n) => n.c(),
            Ty::Tuple(ts) => ts.iter().map(|t| self.size(t)).sum(),
            Ty::Array(t, n) => self.size(t) * n.c(),
            Ty::Adt(i, _) => {
                self.tag_bits(*i)
                    + (0..self.nvariants(*i))
                        .map(|v| self.fields(t, v).iter().map(|f| self.size(&f.1)).sum::<usize>())
                        .max()
                        .unwrap_or(0)
            }
            Ty::Param(_) | Ty::Fn(..) => panic!("size of {t:?}"),
        }
    }
    /// Documented bit layout of a value; padding and undefined parts are X
    pub fn encode(&self, t: &Ty, v: &V) -> LV {
        if let V::X = v {
            return LV::xs(self.size(t));
        }
        match (t, v) {
            (Ty::Bool, V::Bool(b)) | (Ty::Clock, V::Bool(b)) => LV::from_bool(*b),
            (Ty::Int(n) | Ty::UInt(n), V::Int(i)) => LV::from_bigint(i, n.c()),
            (Ty::Tuple(ts), V::Tup(vs)) => {
                let p: Vec<LV> = ts.iter().zip(vs).map(|(t, v)| self.encode(t, v)).collect();
                LV::concat(&p)
            }
            (Ty::Array(t, _), V::Tup(vs)) => {
                let p: Vec<LV> = vs.iter().rev().map(|v| self.encode(t, v)).collect();
                LV::concat(&p)
            }
            (Ty::Adt(i, _), V::En(var, vs)) => {
                let total = self.size(t);
                let tb = self.tag_bits(*i);
                let mut p = vec![LV::from_u64(*var as u64, tb)];
                for ((_, t), v) in self.fields(t, *var).iter().zip(vs) {
                    p.push(self.encode(t, v));
                }
                let used: usize = p.iter().map(|x| x.w).sum();
                p.push(LV::xs(total - used));
                LV::concat(&p)
            }
            _ => panic!("encode {t:?} {v:?}"),
        }
    }
    /// Inverse of encode; undefined parts decode to V::X
    pub fn decode(&self, t: &Ty, b: &LV) -> V {
        match t {
            Ty::Bool | Ty::Clock => match b.bit(0) {
                B::B0 => V::Bool(false),
                B::B1 => V::Bool(true),
                _ => V::X,
            },
            Ty::Int(_) => b.to_bigint_signed().map(V::Int).unwrap_or(V::X),
            Ty::UInt(_) => b.to_biguint().map(|x| V::Int(x.into())).unwrap_or(V::X),
            Ty::Tuple(ts) => {
                let mut pos = b.w;
                let mut out = vec![];
                for t in ts {
                    let s = self.size(t);
                    pos -= s;
                    out.push(self.decode(t, &b.slice(pos, s)));
                }
                V::Tup(out)
            }
            Ty::Array(t, n) => {
                let s = self.size(t);
                V::Tup((0..n.c()).map(|i| self.decode(t, &b.slice(i * s, s))).collect())
            }
            Ty::Adt(i, _) => {
                let tb = self.tag_bits(*i);
                let tag = b.slice(b.w - tb, tb);
                let Some(tag) = tag.to_u64() else { return V::X };
                let tag = tag as usize;
                if tag >= self.nvariants(*i) {
                    return V::X;
                }
                let mut pos = b.w - tb;
                let mut out = vec![];
                for (_, t) in self.fields(t, tag) {
                    let s = self.size(&t);
                    pos -= s;
                    out.push(self.decode(&t, &b.slice(pos, s)));
                }
                V::En(tag, out)
            }
            _ => panic!(),
        }
    }
    pub fn random_value(&self, t: &Ty, r: &mut Rng) -> V {
        match t {
            Ty::Bool | Ty::Clock => V::Bool(r.bool()),
            Ty::Int(n) => V::Int(random_int(n.c(), true, r)),
            Ty::UInt(n) => V::Int(random_int(n.c(), false, r)),
            Ty::Tuple(ts) => V::Tup(ts.iter().map(|t| self.random_value(t, r)).collect()),
            Ty::Array(t, n) => V::Tup((0..n.c()).map(|_| self.random_value(t, r)).collect()),
            Ty::Adt(i, _) => {
                let v = r.below(self.nvariants(*i));
                V::En(v, self.fields(t, v).iter().map(|f| self.random_value(&f.1, r)).collect())
            }
            _ => panic!(),
        }
    }
    /// number of distinct values, saturating
    pub fn count(&self, t: &Ty) -> f64 {
        match t {
            Ty::Bool => 2.0,
            Ty::Int(n) | Ty::UInt(n) => 2f64.powi(n.c() as i32),
            Ty::Tuple(ts) => ts.iter().map(|t| self.count(t)).product(),
            Ty::Array(t, n) => self.count(t).powi(n.c() as i32),
            Ty::Adt(i, _) => (0..self.nvariants(*i))
                .map(|v| self.fields(t, v).iter().map(|f| self.count(&f.1)).product::<f64>())
                .sum(),
            _ => f64::INFINITY,
        }
    }
    /// all values of a small type
    pub fn all_values(&self, t: &Ty) -> Vec<V> {
        self.values_over(t, &|t| match t {
            Ty::Int(n) => {
                let n = n.c() as u32;
                if n == 0 {
                    return vec![BigInt::zero()];
                }
                (-(1i64 << (n - 1))..(1i64 << (n - 1))).map(|x| x.into()).collect()
            }
            Ty::UInt(n) => (0..(1i64 << n.c())).map(|x| x.into()).collect(),
            _ => panic!(),
        })
    }
    /// every value whose integers come from the given domain of their type
    pub fn values_over(&self, t: &Ty, dom: &dyn Fn(&Ty) -> Vec<BigInt>) -> Vec<V> {
        let prod = |d: &Defs, ts: &[Ty]| -> Vec<Vec<V>> {
            let mut out = vec![vec![]];
            for t in ts {
                let vs = d.values_over(t, dom);
                out = out
                    .into_iter()
                    .flat_map(|p: Vec<V>| {
                        vs.iter()
                            .map(move |v| {
                                let mut q = p.clone();
                                q.push(v.clone());
                                q
                            })
                            .collect::<Vec<_>>()
                    })
                    .collect();
            }
            out
        };
        match t {
            Ty::Bool => vec![V::Bool(false), V::Bool(true)],
            Ty::Int(_) | Ty::UInt(_) => dom(t).into_iter().map(V::Int).collect(),
            Ty::Tuple(ts) => prod(self, ts).into_iter().map(V::Tup).collect(),
            Ty::Array(t, n) => prod(self, &vec![(**t).clone(); n.c()]).into_iter().map(V::Tup).collect(),
            Ty::Adt(i, _) => (0..self.nvariants(*i))
                .flat_map(|v| {
                    let ts: Vec<Ty> = self.fields(t, v).into_iter().map(|f| f.1).collect();
                    prod(self, &ts).into_iter().map(move |p| V::En(v, p)).collect::<Vec<_>>()
                })
                .collect(),
            _ => panic!(),
        }
    }
}

pub fn ceil_log2(n: usize) -> usize {
    let mut k = 0;
    while (1usize << k) < n {
        k += 1;
    }
    k
}

pub fn random_int(w: usize, signed: bool, r: &mut Rng) -> BigInt {
    if w == 0 {
        return BigInt::zero();
    }
    let one = BigInt::one();
    let (lo, hi) = range_of(w, signed);
    let wrap = |x: BigInt| -> BigInt { wrap_int(&x, w, signed) };
    match r.below(10) {
        0 => lo,
        1 => hi,
        2 => BigInt::zero(),
        3 => wrap(&one << r.below(w)),
        4 => wrap((&one << r.below(w)) - &one),
        5 => wrap(-(&one << r.below(w))),
        6 => wrap(BigInt::from(r.below(8) as i64) - 4),
        _ => {
            let mut x = BigInt::zero();
            for _ in 0..w.div_ceil(64) {
                x = (x << 64) + BigInt::from(r.next());
            }
            wrap(x)
        }
    }
}

pub fn range_of(w: usize, signed: bool) -> (BigInt, BigInt) {
    let one = BigInt::one();
    if w == 0 {
        return (BigInt::zero(), BigInt::zero());
    }
    if signed {
        (-(&one << (w - 1)), (&one << (w - 1)) - &one)
    } else {
        (BigInt::zero(), (&one << w) - &one)
    }
}

pub fn wrap_int(x: &BigInt, w: usize, signed: bool) -> BigInt {
    let m = BigInt::one() << w;
    let mut r = ((x % &m) + &m) % &m;
    if signed && w > 0 && r >= (BigInt::one() << (w - 1)) {
        r -= &m;
    }
    r
}

#[derive(Clone, Debug)]
pub enum V {
    Bool(bool),
    Int(BigInt),
    /// tuples and arrays
    Tup(Vec<V>),
    /// struct (variant 0) or enum
    En(usize, Vec<V>),
    Clo(Rc<Closure>),
    /// undefined
    X,
}

#[derive(Debug)]
pub struct Closure {
    pub params: Vec<Pat>,
    pub body: E,
    pub env: Vec<(VarId, V)>,
    pub tys: Vec<Ty>,
    pub nums: Vec<usize>,
}

pub type VarId = usize;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    WAdd,
    WSub,
    WMul,
    Div,
    Mod,
    Shl,
    Shr,
    AShr,
    WShl,
    WShr,
    And,
    Or,
    Xor,
    LAnd,
    LOr,
    LXor,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum UnOp {
    Neg,
    WNeg,
    Not,
    BitNot,
}

/// library functions whose meaning the interpreter knows from their documentation
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Std {
    Trunc,
    Sext,
    Zext,
    AsInt,
    AsUint,
    /// uint -> int<N+1>
    ToInt,
    AsBits,
    BitsAsInt,
    BitsAsUint,
    BoolToUint,
    Min,
    Max,
    Abs,
    Concat,
    Msb,
    Lsb,
    SignBit,
    CombDiv,
    CombMod,
    ReduceAnd,
    ReduceOr,
    ReduceXor,
    ArrConcat,
    ArrReversed,
    ArrFirst,
    ArrLast,
    ArrPushBack,
    ArrPushFront,
    ArrShiftBack,
    ArrShiftFront,
    ArrZip,
    ArrInterleave,
    ArrMap,
    ArrFold,
    ArrReduce,
    ArrAny,
    ArrAll,
    ArrLen,
    OptIsSome,
    OptIsNone,
    OptUnwrapOr,
    OptMap,
    OptAndThen,
}

#[derive(Clone, Debug)]
pub struct E {
    pub ty: Ty,
    pub k: K,
}

#[derive(Clone, Debug)]
pub enum K {
    Lit(V),
    Var(VarId),
    Bin(BinOp, Box<E>, Box<E>),
    Un(UnOp, Box<E>),
    If(Box<E>, Box<E>, Box<E>),
    IfLet(Pat, Box<E>, Box<E>, Box<E>),
    Match(Box<E>, Vec<Arm>),
    Block(Vec<St>, Box<E>),
    Tup(Vec<E>),
    TupIdx(Box<E>, usize),
    Arr(Vec<E>),
    ArrRep(Box<E>),
    Idx(Box<E>, Box<E>),
    Slice(Box<E>, usize, usize),
    Cons(usize, Vec<E>),
    Field(Box<E>, usize),
    Call(usize, Vec<Ty>, Vec<usize>, Vec<E>),
    /// trait or inherent method: name, receiver, args, (type args of the method: none)
    Method(usize, Box<E>, Vec<E>),
    Std(Std, Vec<E>),
    Lambda(Vec<(Pat, Ty)>, Box<E>),
    CallFn(Box<E>, Vec<E>),
    /// text whose value the surrounding model supplies under a key
    Ext(String, usize),
    /// explicit value annotation wrapper (printed as a let block)
    Copy(Box<E>),
}

#[derive(Clone, Debug)]
pub struct Arm {
    pub pat: Pat,
    pub guard: Option<E>,
    pub body: E,
}

#[derive(Clone, Debug)]
pub enum St {
    /// pattern, value type, annotate?, value
    Let(Pat, Ty, bool, E),
    Assert(E),
}

#[derive(Clone, Debug)]
pub enum Pat {
    Wild,
    Bind(VarId),
    Lit(V, Ty),
    Tup(Vec<Pat>),
    Arr(Vec<Pat>),
    /// adt type, variant, sub patterns; None = no argument list written
    Cons(Ty, usize, Vec<Pat>),
    /// name @ pattern
    At(VarId, Box<Pat>),
}

impl Pat {
    pub fn strip(&self) -> &Pat {
        match self {
            Pat::At(_, p) => p.strip(),
            p => p,
        }
    }
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub ty: Ty,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<VarId>,
    pub ret: Ty,
    pub body: Option<E>,
    pub ntys: usize,
    pub nnums: usize,
    /// bounds of type parameters: trait indices
    pub bounds: Vec<Vec<usize>>,
    pub attrs: Vec<String>,
    /// printed as `entity` and instantiated with inst
    pub entity: bool,
    /// belongs to impl (printed inside the impl block): self is params[0]
    pub in_impl: bool,
}

/// trait with methods; impls map types to functions
#[derive(Clone, Debug)]
pub struct Trait {
    pub name: String,
    /// method name, args (excluding self; Ty::Param(0) = Self), result
    pub methods: Vec<(String, Vec<Ty>, Ty)>,
}

#[derive(Clone, Debug)]
pub struct Impl {
    pub tr: Option<usize>,
    pub ty: Ty,
    /// (global method id, function index)
    pub methods: Vec<(usize, usize)>,
}

#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub defs: Defs,
    pub vars: Vec<VarInfo>,
    pub funcs: Vec<Func>,
    pub traits: Vec<Trait>,
    pub impls: Vec<Impl>,
    /// global method names: (name, trait)
    pub methods: Vec<(String, Option<usize>)>,
    /// indices of functions to test as tops
    pub tops: Vec<usize>,
}

pub fn subst_n(n: &Nx, nums: &[usize]) -> Nx {
    match n {
        Nx::K(_) => n.clone(),
        Nx::P(i) => nums.get(*i).map(|x| Nx::K(*x)).unwrap_or_else(|| n.clone()),
        Nx::PAdd(i, k) => nums.get(*i).map(|x| Nx::K(*x + k)).unwrap_or_else(|| n.clone()),
    }
}

pub fn subst(t: &Ty, tys: &[Ty], nums: &[usize]) -> Ty {
    if tys.is_empty() && nums.is_empty() {
        return t.clone();
    }
    match t {
        Ty::Bool | Ty::Clock => t.clone(),
        Ty::Int(n) => Ty::Int(subst_n(n, nums)),
        Ty::UInt(n) => Ty::UInt(subst_n(n, nums)),
        Ty::Tuple(ts) => Ty::Tuple(ts.iter().map(|t| subst(t, tys, nums)).collect()),
        Ty::Array(t, n) => Ty::Array(Box::new(subst(t, tys, nums)), subst_n(n, nums)),
        Ty::Adt(i, a) => Ty::Adt(*i, a.iter().map(|t| subst(t, tys, nums)).collect()),
        Ty::Param(i) => tys.get(*i).cloned().unwrap_or_else(|| t.clone()),
        Ty::Fn(a, r) => Ty::Fn(a.iter().map(|t| subst(t, tys, nums)).collect(), Box::new(subst(r, tys, nums))),
    }
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Int(a), V::Int(b)) => a == b,
            (V::Tup(a), V::Tup(b)) => a == b,
            (V::En(a, x), V::En(b, y)) => a == b && x == y,
            (V::X, V::X) => true,
            _ => false,
        }
    }
}
