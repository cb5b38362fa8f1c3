//! Prints model programs as Spade source. The style decides harmless presentation choices.
use super::*;
use num::Signed;
use std::cell::RefCell;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub struct Style {
    /// 0 minimal, 1 everything, 2 random
    pub parens: u8,
    /// literals: 0 decimal, 2 random base and separators
    pub lits: u8,
    /// always write literal suffixes
    pub suffix_always: bool,
    /// 0 positional, 2 random named arguments
    pub named: u8,
    /// write type annotations on lets: 0 as generated, 1 always
    pub annot: u8,
    /// explicit generic arguments always
    pub turbofish: bool,
    /// prefix for every user identifier, to rename consistently
    pub rename: Option<fn(&str) -> String>,
    pub seed: u64,
}

impl Style {
    pub fn plain() -> Style {
        Style {
            parens: 0,
            lits: 0,
            suffix_always: false,
            named: 0,
            annot: 0,
            turbofish: true,
            rename: None,
            seed: 0,
        }
    }
    pub fn varied(seed: u64) -> Style {
        Style { parens: 2, lits: 2, suffix_always: false, named: 2, annot: 0, turbofish: true, rename: None, seed }
    }
    pub fn full(seed: u64) -> Style {
        Style { parens: 1, lits: 2, suffix_always: true, named: 2, annot: 1, turbofish: true, rename: None, seed }
    }
}

pub struct Printer<'a> {
    pub p: &'a Prog,
    pub st: Style,
    pub r: RefCell<Rng>,
}

fn prec(op: BinOp) -> u8 {
    use BinOp::*;
    match op {
        LOr => 1,
        LAnd => 2,
        LXor => 3,
        Eq | Ne => 4,
        Lt | Le | Gt | Ge => 5,
        Or => 6,
        Xor => 7,
        And => 8,
        Shl | Shr | AShr | WShl | WShr => 9,
        Add | Sub | WAdd | WSub => 10,
        Mul | WMul | Div | Mod => 11,
    }
}

pub fn op_str(op: BinOp) -> &'static str {
    use BinOp::*;
    match op {
        LOr => "||",
        LAnd => "&&",
        LXor => "^^",
        Eq => "==",
        Ne => "!=",
        Lt => "<",
        Le => "<=",
        Gt => ">",
        Ge => ">=",
        Or => "|",
        Xor => "^",
        And => "&",
        Shl => "<<",
        Shr => ">>",
        AShr => ">>>",
        WShl => "<<.",
        WShr => ">>.",
        Add => "+",
        Sub => "-",
        WAdd => "+.",
        WSub => "-.",
        Mul => "*",
        WMul => "*.",
        Div => "/",
        Mod => "%",
    }
}

const UNARY: u8 = 12;
const POST: u8 = 13;
const ATOM: u8 = 14;

impl<'a> Printer<'a> {
    pub fn new(p: &'a Prog, st: Style) -> Self {
        let r = RefCell::new(Rng::derive(st.seed, 77, 1));
        Printer { p, st, r }
    }
    pub fn id(&self, n: &str) -> String {
        if n == "self" {
            return n.to_string();
        }
        match self.st.rename {
            Some(f) => f(n),
            None => n.to_string(),
        }
    }
    pub fn chance(&self, n: usize, d: usize) -> bool {
        self.r.borrow_mut().chance(n, d)
    }

    pub fn nx(&self, n: &Nx) -> String {
        match n {
            Nx::K(k) => k.to_string(),
            Nx::P(i) => format!("N{i}"),
            Nx::PAdd(i, k) => format!("{{N{i} + {k}}}"),
        }
    }
    pub fn ty(&self, t: &Ty) -> String {
        match t {
            Ty::Bool => "bool".into(),
            Ty::Clock => "clock".into(),
            Ty::Int(n) => format!("int<{}>", self.nx(n)),
            Ty::UInt(n) => format!("uint<{}>", self.nx(n)),
            Ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", ")),
            Ty::Array(t, n) => format!("[{}; {}]", self.ty(t), self.nx(n)),
            Ty::Adt(i, a) => {
                let a2 = &self.p.defs.adts[*i];
                let n = if a2.builtin { a2.name.clone() } else { self.id(&a2.name) };
                if a.is_empty() {
                    n
                } else {
                    format!("{n}<{}>", a.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", "))
                }
            }
            Ty::Param(i) => format!("T{i}"),
            Ty::Fn(a, r) => format!(
                "impl Fn({}) -> {}",
                a.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", "),
                self.ty(r)
            ),
        }
    }

    /// magnitude part of a literal
    fn mag(&self, x: &BigInt) -> String {
        let dec = x.to_string();
        if self.st.lits == 0 {
            return dec;
        }
        let k = self.r.borrow_mut().below(6);
        let sep = |s: &str, r: &mut Rng| {
            let mut o = String::new();
            for (i, c) in s.chars().enumerate() {
                if i > 0 && r.chance(1, 4) {
                    o.push('_');
                }
                o.push(c);
            }
            o
        };
        let mut r = self.r.borrow_mut();
        match k {
            0 => format!("0x{}", sep(&x.to_str_radix(16), &mut r)),
            1 => format!("0x{}", x.to_str_radix(16).to_uppercase()),
            2 => format!("0b{}", sep(&x.to_str_radix(2), &mut r)),
            3 => sep(&dec, &mut r),
            _ => dec,
        }
    }

    fn int_lit(&self, x: &BigInt, t: &Ty, known: bool) -> (String, u8) {
        let neg = x.is_negative();
        let m = self.mag(&x.abs());
        let suffix = if known && !self.st.suffix_always && !(self.st.lits == 2 && self.chance(1, 3)) {
            String::new()
        } else {
            match t {
                Ty::Int(Nx::K(n)) => format!("i{n}"),
                Ty::UInt(Nx::K(n)) => format!("u{n}"),
                _ => String::new(),
            }
        };
        (format!("{}{m}{suffix}", if neg { "-" } else { "" }), if neg { UNARY } else { ATOM })
    }

    pub fn lit(&self, v: &V, t: &Ty, known: bool) -> (String, u8) {
        match (v, t) {
            (V::Bool(b), _) => (b.to_string(), ATOM),
            (V::Int(i), t) => self.int_lit(i, t, known),
            (V::Tup(vs), Ty::Tuple(ts)) => {
                if ts.is_empty() {
                    return ("()".into(), ATOM);
                }
                (
                    format!(
                        "({})",
                        vs.iter().zip(ts).map(|(v, t)| self.lit(v, t, known).0).collect::<Vec<_>>().join(", ")
                    ),
                    ATOM,
                )
            }
            (V::Tup(vs), Ty::Array(t, _)) => (
                format!(
                    "[{}]",
                    vs.iter()
                        .enumerate()
                        .map(|(i, v)| self.lit(v, t, known || i > 0).0)
                        .collect::<Vec<_>>()
                        .join(", ")
                ),
                ATOM,
            ),
            (V::En(k, vs), Ty::Adt(_, a)) => {
                let fs = self.p.defs.fields(t, *k);
                let known = known || a.is_empty();
                let es: Vec<String> = vs.iter().zip(&fs).map(|(v, f)| self.lit(v, &f.1, known).0).collect();
                (self.cons(t, *k, &es), POST)
            }
            _ => panic!("lit {v:?} {t:?}"),
        }
    }

    pub fn ctor_name(&self, t: &Ty, k: usize) -> String {
        let Ty::Adt(i, _) = t else { panic!() };
        let a = &self.p.defs.adts[*i];
        match &a.kind {
            AdtKind::Struct(_) => self.id(&a.name),
            AdtKind::Enum(v) => {
                if a.builtin {
                    v[k].0.clone()
                } else {
                    format!("{}::{}", self.id(&a.name), self.id(&v[k].0))
                }
            }
        }
    }
    fn cons(&self, t: &Ty, k: usize, es: &[String]) -> String {
        let Ty::Adt(i, _) = t else { panic!() };
        let a = &self.p.defs.adts[*i];
        let n = self.ctor_name(t, k);
        let fs = self.p.defs.fields(t, k);
        if es.is_empty() && self.p.defs.is_enum(*i) {
            return n;
        }
        if self.st.named == 2 && !a.builtin && !es.is_empty() && self.chance(1, 2) {
            let arg = |n: String, e: &String| if n == *e { n } else { format!("{n}: {e}") };
            let mut v: Vec<String> = fs.iter().zip(es).map(|(f, e)| arg(self.id(&f.0), e)).collect();
            self.r.borrow_mut().shuffle(&mut v);
            return format!("{n}$({})", v.join(", "));
        }
        format!("{n}({})", es.join(", "))
    }

    pub fn pat(&self, p: &Pat) -> String {
        match p {
            Pat::Wild => "_".into(),
            Pat::Bind(v) => self.id(&self.p.vars[*v].name),
            Pat::At(v, p) => format!("{} @ {}", self.id(&self.p.vars[*v].name), self.pat(p)),
            Pat::Lit(V::Int(i), t) => self.int_lit(i, t, true).0,
            Pat::Lit(V::Bool(b), _) => b.to_string(),
            Pat::Lit(..) => panic!(),
            Pat::Tup(ps) => format!("({})", ps.iter().map(|p| self.pat(p)).collect::<Vec<_>>().join(", ")),
            Pat::Arr(ps) => format!("[{}]", ps.iter().map(|p| self.pat(p)).collect::<Vec<_>>().join(", ")),
            Pat::Cons(t, k, ps) => {
                let Ty::Adt(i, _) = t else { panic!() };
                let n = self.ctor_name(t, *k);
                let fs = self.p.defs.fields(t, *k);
                if ps.is_empty() && self.p.defs.is_enum(*i) {
                    return n;
                }
                let a = &self.p.defs.adts[*i];
                let arg = |n: String, p: String| if n == p { n } else { format!("{n}: {p}") };
                if self.st.named == 2 && !a.builtin && !ps.is_empty() && self.chance(1, 2) {
                    let mut v: Vec<String> =
                        fs.iter().zip(ps).map(|(f, p)| arg(self.id(&f.0), self.pat(p))).collect();
                    self.r.borrow_mut().shuffle(&mut v);
                    return format!("{n}$({})", v.join(", "));
                }
                format!("{n}({})", ps.iter().map(|p| self.pat(p)).collect::<Vec<_>>().join(", "))
            }
        }
    }

    /// print with at least precedence `min`
    fn at(&self, e: &E, min: u8, known: bool) -> String {
        let (s, p) = self.ex(e, known);
        let extra = match self.st.parens {
            1 => p < ATOM && min > 0,
            2 => self.chance(1, 10),
            _ => false,
        };
        if p < min || extra {
            format!("({s})")
        } else {
            s
        }
    }
    /// operand of binary/unary/postfix: if/match/blocks always in parentheses
    pub fn top(&self, e: &E, known: bool) -> String {
        self.at(e, 0, known)
    }

    pub fn args(&self, names: Option<Vec<String>>, es: Vec<String>) -> String {
        if let Some(n) = names {
            if self.st.named == 2 && !es.is_empty() && self.chance(1, 2) {
                let mut v: Vec<String> = n
                    .iter()
                    .zip(&es)
                    .map(|(n, e)| if n == e && self.chance(1, 2) { e.clone() } else { format!("{n}: {e}") })
                    .collect();
                self.r.borrow_mut().shuffle(&mut v);
                return format!("$({})", v.join(", "));
            }
        }
        format!("({})", es.join(", "))
    }

    /// Is the type of this expression fixed by the expression itself?
    pub fn self_det(&self, e: &E) -> bool {
        match &e.k {
            K::Lit(v) => self.lit_det(v, &e.ty),
            K::If(_, a, b) | K::IfLet(_, _, a, b) => self.self_det(a) || self.self_det(b),
            K::Match(_, arms) => arms.iter().any(|a| self.self_det(&a.body)),
            K::Block(_, r) => self.self_det(r),
            K::Tup(es) => es.iter().all(|e| self.self_det(e)),
            K::Arr(es) => es.iter().any(|e| self.self_det(e)),
            K::Cons(k, es) => match &e.ty {
                Ty::Adt(i, a) => {
                    a.is_empty()
                        || (*i == OPTION && *k == 1 && es.first().is_some_and(|e| self.self_det(e)))
                }
                _ => true,
            },
            K::ArrRep(x) => self.self_det(x),
            // which method this is, and so its type, is only known in each instance
            K::CallFn(..) => false,
            K::Method(_, r, _) => !matches!(r.ty, Ty::Param(_)) && self.self_det(r),
            _ => true,
        }
    }
    fn lit_det(&self, v: &V, t: &Ty) -> bool {
        match (v, t) {
            (V::Tup(v), Ty::Tuple(ts)) => v.iter().zip(ts).all(|(v, t)| self.lit_det(v, t)),
            (V::Tup(v), Ty::Array(t, _)) => v.iter().any(|v| self.lit_det(v, t)),
            (V::En(k, vs), Ty::Adt(i, a)) => {
                a.is_empty() || (*i == OPTION && *k == 1 && self.lit_det(&vs[0], &a[0]))
            }
            _ => true,
        }
    }

    fn targs(&self, tys: &[Ty], nums: &[usize]) -> String {
        if tys.is_empty() && nums.is_empty() {
            return String::new();
        }
        let mut v: Vec<String> = tys.iter().map(|t| self.ty(t)).collect();
        v.extend(nums.iter().map(|n| n.to_string()));
        if self.st.named == 2 && self.chance(1, 2) {
            let names = (0..tys.len()).map(|i| format!("T{i}")).chain((0..nums.len()).map(|i| format!("N{i}")));
            let mut v: Vec<String> = names.zip(v).map(|(n, v)| format!("{n}: {v}")).collect();
            self.r.borrow_mut().shuffle(&mut v);
            return format!("::$<{}>", v.join(", "));
        }
        format!("::<{}>", v.join(", "))
    }

    fn body(&self, e: &E, known: bool) -> String {
        // braces with the content of a block
        match &e.k {
            K::Block(sts, r) => self.block(sts, r, known),
            _ => format!("{{ {} }}", self.top(e, known)),
        }
    }

    fn block(&self, sts: &[St], r: &E, known: bool) -> String {
        let mut o = String::from("{\n");
        for s in sts {
            match s {
                St::Let(p, t, ann, v) => {
                    let ann = *ann || self.st.annot == 1 || !self.self_det(v);
                    if ann {
                        let _ = writeln!(o, "let {}: {} = {};", self.pat(p), self.ty(t), self.top(v, true));
                    } else {
                        let _ = writeln!(o, "let {} = {};", self.pat(p), self.top(v, false));
                    }
                }
                St::Assert(c) => {
                    let _ = writeln!(o, "assert {};", self.top(c, true));
                }
            }
        }
        let _ = write!(o, "{}\n}}", self.top(r, known));
        o
    }

    fn ex(&self, e: &E, known: bool) -> (String, u8) {
        if !known && !self.self_det(e) {
            // give the type with a let
            let (s, _) = self.ex(e, true);
            return (format!("{{ let tmp_: {} = {s}; tmp_ }}", self.ty(&e.ty)), 0);
        }
        match &e.k {
            K::Lit(v) => self.lit(v, &e.ty, known),
            K::Var(v) => (self.id(&self.p.vars[*v].name), ATOM),
            K::Ext(s, k) => {
                // a stage reference ends with the name of a variable
                let n = if (1_000_000..900_000_000).contains(k) { self.id(&self.p.vars[k % 1_000_000].name) } else { String::new() };
                if s.contains('\u{1}') {
                    // an instance which delays the variable
                    return (s.replace('\u{1}', &n).replace('\u{2}', &self.id("clk")), ATOM);
                }
                (format!("{s}{n}"), ATOM)
            }
            K::Copy(a) => (
                format!("{{ let tmp_: {} = {}; tmp_ }}", self.ty(&e.ty), self.top(a, true)),
                0,
            ),
            K::Bin(op, a, b) => {
                use BinOp::*;
                let p = prec(*op);
                let (ka, kb) = match op {
                    LAnd | LOr | LXor => (true, true),
                    Mul => (false, false),
                    Div | Mod => (known, true),
                    Add | Sub | Eq | Ne | Lt | Le | Gt | Ge => (false, true),
                    Shl | Shr | AShr => (known, true),
                    _ => (false, true),
                };
                // equality and trait based operators resolve on the left operand
                let kb = kb && self.self_det(a);
                let l = self.at(a, p, ka);
                let r = self.at(b, p + 1, kb);
                (format!("{l} {} {r}", op_str(*op)), p)
            }
            K::Un(op, a) => {
                let s = match op {
                    UnOp::Neg => "-",
                    UnOp::WNeg => "-.",
                    UnOp::Not => "!",
                    UnOp::BitNot => "~",
                };
                (format!("{s}{}", self.at(a, POST, known && !matches!(op, UnOp::BitNot | UnOp::WNeg))), UNARY)
            }
            K::If(c, a, b) => {
                let (ka, kb) = self.two(known, a, b);
                (
                    format!("if {} {} else {}", self.top(c, true), self.body(a, ka), self.body(b, kb)),
                    0,
                )
            }
            K::IfLet(p, s, a, b) => {
                let (ka, kb) = self.two(known, a, b);
                let sc = self.top(s, false);
                (
                    format!(
                        "if let {} = {} {} else {}",
                        self.pat(p),
                        sc,
                        self.body(a, ka),
                        self.body(b, kb)
                    ),
                    0,
                )
            }
            K::Match(s, arms) => {
                let mut o = format!("match {} {{\n", self.top(s, false));
                let first = arms.iter().position(|a| self.self_det(&a.body));
                for (i, a) in arms.iter().enumerate() {
                    let k = known || first.map(|f| f != i).unwrap_or(false);
                    let _ = write!(o, "{}", self.pat(&a.pat));
                    if let Some(g) = &a.guard {
                        let _ = write!(o, " if {}", self.top(g, true));
                    }
                    let _ = writeln!(o, " => {},", self.top(&a.body, k));
                }
                o.push('}');
                (o, 0)
            }
            K::Block(sts, r) => (self.block(sts, r, known), 0),
            K::Tup(es) => {
                (format!("({})", es.iter().map(|e| self.top(e, known)).collect::<Vec<_>>().join(", ")), ATOM)
            }
            K::Arr(es) => {
                let first = es.iter().position(|e| self.self_det(e));
                (
                    format!(
                        "[{}]",
                        es.iter()
                            .enumerate()
                            .map(|(i, e)| self.top(e, known || first != Some(i)))
                            .collect::<Vec<_>>()
                            .join(", ")
                    ),
                    ATOM,
                )
            }
            K::ArrRep(x) => {
                let Ty::Array(_, n) = &e.ty else { panic!() };
                (format!("[{}; {}]", self.top(x, known), self.nx(n)), ATOM)
            }
            K::TupIdx(a, i) => (format!("{}.{i}", self.at(a, POST, false)), POST),
            K::Field(a, i) => {
                let f = self.p.defs.fields(&a.ty, 0);
                (format!("{}.{}", self.at(a, POST, false), self.id(&f[*i].0)), POST)
            }
            K::Idx(a, i) => (format!("{}[{}]", self.at(a, POST, false), self.top(i, true)), POST),
            K::Slice(a, lo, hi) => {
                let n = match &a.ty {
                    Ty::Array(_, n) => n.c(),
                    _ => 0,
                };
                let l = if *lo == 0 && self.st.named == 2 && self.chance(1, 2) { String::new() } else { lo.to_string() };
                let h = if *hi == n && self.st.named == 2 && self.chance(1, 2) { String::new() } else { hi.to_string() };
                (format!("{}[{l}..{h}]", self.at(a, POST, false)), POST)
            }
            K::Cons(k, es) => {
                let known = known || matches!(&e.ty, Ty::Adt(_, a) if a.is_empty());
                let es: Vec<String> = es.iter().map(|e| self.top(e, known)).collect();
                (self.cons(&e.ty, *k, &es), POST)
            }
            K::Call(f, tys, nums, args) => {
                let fun = &self.p.funcs[*f];
                let generic = fun.ntys + fun.nnums > 0;
                let fish = generic && (self.st.turbofish || self.chance(1, 2));
                let kn = !generic || fish;
                let names = fun.params.iter().map(|v| self.id(&self.p.vars[*v].name)).collect();
                let es = args.iter().map(|e| self.top(e, kn)).collect();
                let t = if fish { self.targs(tys, nums) } else { String::new() };
                (
                    format!(
                        "{}{}{t}{}",
                        if fun.entity { "inst " } else { "" },
                        self.id(&fun.name),
                        self.args(Some(names), es)
                    ),
                    if fun.entity { UNARY } else { POST },
                )
            }
            K::Method(m, r, args) => {
                let es = args.iter().map(|e| self.top(e, false)).collect::<Vec<_>>();
                (
                    format!("{}.{}({})", self.at(r, POST, false), self.id(&self.p.methods[*m].0), es.join(", ")),
                    POST,
                )
            }
            K::Lambda(ps, b) => {
                let p = ps.iter().map(|(p, _)| self.pat(p)).collect::<Vec<_>>().join(", ");
                // the types of lambda parameters can be unknown while the body is checked
                let mut vs = vec![];
                for (p, _) in ps {
                    crate::lang::shrink::pat_vars(p, &mut vs);
                }
                let ann: String = vs
                    .iter()
                    .filter(|v| self.p.vars[**v].name != "_")
                    .map(|v| {
                        let n = self.id(&self.p.vars[*v].name);
                        format!("let {n}: {} = {n};\n", self.ty(&self.p.vars[*v].ty))
                    })
                    .collect();
                let body = self.body(b, false);
                (format!("fn |{p}| {{{ann}{}", &body[1..]), 0)
            }
            K::CallFn(f, args) => {
                let es = args.iter().map(|e| self.top(e, false)).collect::<Vec<_>>();
                let t = match es.len() {
                    // a one-tuple is written (x,)
                    1 => format!("({},)", es[0]),
                    _ => format!("({})", es.join(", ")),
                };
                (format!("{}.call({t})", self.at(f, POST, false)), POST)
            }
            K::Std(s, a) => self.std(*s, a, e, known),
        }
    }

    fn two(&self, known: bool, a: &E, b: &E) -> (bool, bool) {
        if known {
            (true, true)
        } else if self.self_det(a) {
            (false, true)
        } else {
            let _ = b;
            (true, false)
        }
    }

    fn std(&self, s: Std, a: &[E], e: &E, _known: bool) -> (String, u8) {
        use Std::*;
        let w = |t: &Ty| match t {
            Ty::Int(n) | Ty::UInt(n) => self.nx(n),
            _ => panic!("{t:?}"),
        };
        let m = |name: &str| -> (String, u8) {
            let es = a[1..].iter().map(|e| self.top(e, false)).collect::<Vec<_>>();
            (format!("{}.{name}({})", self.at(&a[0], POST, false), es.join(", ")), POST)
        };
        match s {
            Trunc => (format!("{}.trunc::<{}>()", self.at(&a[0], POST, false), w(&e.ty)), POST),
            Sext => (
                format!("std::num::sext::<{}, {}>({})", w(&a[0].ty), w(&e.ty), self.top(&a[0], true)),
                POST,
            ),
            Zext => (
                format!("std::num::zext::<{}, {}>({})", w(&a[0].ty), w(&e.ty), self.top(&a[0], true)),
                POST,
            ),
            AsInt | BitsAsInt => m("as_int"),
            AsUint | BitsAsUint | BoolToUint => m("as_uint"),
            ToInt => m("to_int"),
            AsBits => m(if self.st.seed % 2 == 0 { "as_bits" } else { "to_bits" }),
            Min => m("min"),
            Max => m("max"),
            Abs => m("abs"),
            Concat => m("concat"),
            Msb => m("msb"),
            Lsb => m("lsb"),
            SignBit => m("sign_bit"),
            CombDiv | CombMod => (
                format!(
                    "std::ops::{}({}, {})",
                    if s == CombDiv { "comb_div" } else { "comb_mod" },
                    self.top(&a[0], false),
                    self.top(&a[1], true)
                ),
                POST,
            ),
            ReduceAnd => m("reduce_and"),
            ReduceOr => m("reduce_or"),
            ReduceXor => m("reduce_xor"),
            ArrConcat => m("concat"),
            ArrReversed => m("reversed"),
            ArrFirst => m("first"),
            ArrLast => m("last"),
            ArrPushBack => m("push_back"),
            ArrPushFront => m("push_front"),
            ArrShiftBack => m("shift_back"),
            ArrShiftFront => m("shift_front"),
            ArrZip => m("zip"),
            ArrInterleave => m("interleave"),
            ArrMap => m("map"),
            ArrFold => m("fold"),
            ArrReduce => m("reduce"),
            ArrAny => m("any"),
            ArrAll => m("all"),
            ArrLen => m("len"),
            OptIsSome => m("is_some"),
            OptIsNone => m("is_none"),
            OptUnwrapOr => m("unwrap_or"),
            OptMap => m("map"),
            OptAndThen => m("and_then"),
        }
    }

    /// the list of generic parameters and the where clause
    pub fn generics(&self, ntys: usize, nnums: usize, bounds: &[Vec<usize>]) -> (String, String) {
        if ntys + nnums == 0 {
            return (String::new(), String::new());
        }
        let (mut v, mut w) = (vec![], vec![]);
        for i in 0..ntys {
            let b = bounds.get(i).cloned().unwrap_or_default();
            let b = b.iter().map(|t| self.id(&self.p.traits[*t].name)).collect::<Vec<_>>().join(" + ");
            if b.is_empty() {
                v.push(format!("T{i}"));
            } else if self.st.named == 2 && self.chance(1, 2) {
                v.push(format!("T{i}"));
                w.push(format!("T{i}: {b}"));
            } else {
                v.push(format!("T{i}: {b}"));
            }
        }
        for i in 0..nnums {
            v.push(format!("#uint N{i}"));
        }
        (format!("<{}>", v.join(", ")), if w.is_empty() { String::new() } else { format!("where {} ", w.join(", ")) })
    }

    pub fn func(&self, f: usize) -> String {
        let fun = &self.p.funcs[f];
        let mut o = String::new();
        for a in &fun.attrs {
            let _ = writeln!(o, "#[{a}]");
        }
        let mut ps = vec![];
        for (i, v) in fun.params.iter().enumerate() {
            if fun.in_impl && i == 0 {
                ps.push("self".to_string());
                continue;
            }
            let vi = &self.p.vars[*v];
            ps.push(format!("{}: {}", self.id(&vi.name), self.ty(&vi.ty)));
        }
        let (g, w) = if fun.in_impl { Default::default() } else { self.generics(fun.ntys, fun.nnums, &fun.bounds) };
        let _ = write!(
            o,
            "{} {}{g}({}) -> {} {w}",
            if fun.entity { "entity" } else { "fn" },
            self.id(&fun.name),
            ps.join(", "),
            self.ty(&fun.ret)
        );
        let Some(b) = fun.body.as_ref() else { return format!("extern {};\n", o.trim_end()) };
        let known = true;
        let _ = writeln!(o, "{}", self.body(b, known));
        o
    }

    pub fn adts(&self) -> String {
        let mut o = String::new();
        for i in 0..self.p.defs.adts.len() {
            let a = &self.p.defs.adts[i];
            if a.builtin {
                continue;
            }
            let g = if a.nparams == 0 {
                String::new()
            } else {
                format!("<{}>", (0..a.nparams).map(|i| format!("T{i}")).collect::<Vec<_>>().join(", "))
            };
            let fields = |f: &Vec<(String, Ty)>| {
                f.iter().map(|(n, t)| format!("{}: {}", self.id(n), self.ty(t))).collect::<Vec<_>>().join(", ")
            };
            match &a.kind {
                AdtKind::Struct(f) => {
                    let _ = writeln!(o, "struct {}{g} {{ {} }}", self.id(&a.name), fields(f));
                }
                AdtKind::Enum(v) => {
                    let vs: Vec<String> = v
                        .iter()
                        .map(|(n, f)| {
                            if f.is_empty() {
                                self.id(n)
                            } else {
                                format!("{} {{ {} }}", self.id(n), fields(f))
                            }
                        })
                        .collect();
                    let _ = writeln!(o, "enum {}{g} {{\n{}\n}}", self.id(&a.name), vs.join(",\n"));
                }
            }
        }
        o
    }

    pub fn traits(&self) -> String {
        let mut o = String::new();
        for t in &self.p.traits {
            let _ = writeln!(o, "trait {} {{", self.id(&t.name));
            for (n, args, ret) in &t.methods {
                let self_ty = |t: &Ty| if *t == Ty::Param(0) { "Self".to_string() } else { self.ty(t) };
                let mut ps = vec!["self".to_string()];
                ps.extend(args.iter().enumerate().map(|(i, t)| format!("{}: {}", self.id(&format!("a{i}")), self_ty(t))));
                let _ = writeln!(o, "fn {}({}) -> {};", self.id(n), ps.join(", "), self_ty(ret));
            }
            o.push_str("}\n");
        }
        o
    }

    pub fn impls(&self) -> Vec<String> {
        let mut out = vec![];
        for im in &self.p.impls {
            let mut o = String::new();
            let ntys = im.methods.iter().map(|m| self.p.funcs[m.1].ntys).max().unwrap_or(0);
            let bounds = im.methods.first().map(|m| self.p.funcs[m.1].bounds.clone()).unwrap_or_default();
            let (g, w) = self.generics(ntys, 0, &bounds);
            match im.tr {
                Some(t) => {
                    let _ = writeln!(o, "impl{g} {} for {} {w}{{", self.id(&self.p.traits[t].name), self.ty(&im.ty));
                }
                None => {
                    let _ = writeln!(o, "impl{g} {} {w}{{", self.ty(&im.ty));
                }
            }
            for (_, f) in &im.methods {
                o.push_str(&self.func(*f));
            }
            o.push_str("}\n");
            out.push(o);
        }
        out
    }

    /// all items: definitions first, then functions in order
    pub fn program(&self) -> String {
        let mut o = self.adts();
        o.push_str(&self.traits());
        for i in self.impls() {
            o.push_str(&i);
        }
        for i in 0..self.p.funcs.len() {
            if !self.p.funcs[i].in_impl {
                o.push_str(&self.func(i));
            }
        }
        o
    }
    /// separate items, for reordering
    pub fn items(&self) -> Vec<String> {
        let mut v = vec![];
        v.push(self.adts());
        v.push(self.traits());
        v.extend(self.impls());
        for i in 0..self.p.funcs.len() {
            if !self.p.funcs[i].in_impl {
                v.push(self.func(i));
            }
        }
        v
    }
}
