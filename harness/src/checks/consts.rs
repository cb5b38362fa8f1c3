//! C18: compile-time arithmetic against exact integers: values computed by chains of generic
//! units are observed in simulation, conditions by the verdict, initial values at time zero.
use crate::bits::LV;
use crate::comp::{self, Opts, Src};
use crate::exec::agrees;
use crate::rng::Rng;
use crate::runner::{CheckDef, Ctx, JobOut};
use crate::vsim::{sim::Sim, Design};
use num::{BigInt, One, Signed, ToPrimitive, Zero};
use serde_json::json;

const W: usize = 200;

#[derive(Clone, Debug)]
enum X {
    Lit(BigInt),
    Name(String, BigInt),
    Bin(&'static str, Box<X>, Box<X>),
    Neg(Box<X>),
    UBits(Box<X>),
    IBits(Box<X>),
}
#[derive(Clone, Debug)]
enum B {
    Lit(bool),
    Name(String, bool),
    Cmp(&'static str, X, X),
    Eq(bool, Box<B>, Box<B>),
    Not(Box<B>),
    Log(&'static str, Box<B>, Box<B>),
}

fn ubits(v: &BigInt) -> BigInt {
    BigInt::from(v.bits())
}
/// the smallest n ≥ 1 with -2^(n-1) <= v < 2^(n-1)
fn ibits(v: &BigInt) -> BigInt {
    let m = if v.is_negative() { -v - 1 } else { v.clone() };
    BigInt::from(m.bits() + 1)
}

fn xval(x: &X) -> Option<BigInt> {
    let v = match x {
        X::Lit(v) | X::Name(_, v) => v.clone(),
        X::Neg(x) => -xval(x)?,
        X::UBits(x) => {
            let v = xval(x)?;
            if v.is_negative() {
                return None;
            }
            ubits(&v)
        }
        X::IBits(x) => ibits(&xval(x)?),
        X::Bin(o, a, b) => {
            let (a, b) = (xval(a)?, xval(b)?);
            match *o {
                "+" => a + b,
                "-" => a - b,
                "*" => a * b,
                "/" | "%" if b.is_zero() => return None,
                "/" => a / b,
                _ => a % b,
            }
        }
    };
    (v.bits() < W as u64 - 2).then_some(v)
}
fn bval(b: &B) -> Option<bool> {
    Some(match b {
        B::Lit(v) | B::Name(_, v) => *v,
        B::Cmp(o, a, b) => {
            let (a, b) = (xval(a)?, xval(b)?);
            match *o {
                "==" => a == b,
                "!=" => a != b,
                "<" => a < b,
                "<=" => a <= b,
                ">" => a > b,
                _ => a >= b,
            }
        }
        B::Eq(e, a, b) => (bval(a)? == bval(b)?) == *e,
        B::Not(b) => !bval(b)?,
        B::Log(o, a, b) => {
            let (a, b) = (bval(a)?, bval(b)?);
            match *o {
                "&&" => a && b,
                "||" => a || b,
                _ => a != b,
            }
        }
    })
}

fn xprec(x: &X) -> u8 {
    match x {
        X::Bin("+" | "-", ..) => 10,
        X::Bin(..) => 11,
        X::Neg(_) => 12,
        X::Lit(v) if v.is_negative() => 12,
        _ => 20,
    }
}
fn bprec(b: &B) -> u8 {
    match b {
        B::Log("||", ..) => 1,
        B::Log("&&", ..) => 2,
        B::Log(..) => 3,
        B::Eq(..) => 4,
        B::Cmp("==" | "!=", ..) => 4,
        B::Cmp(..) => 5,
        B::Not(_) => 12,
        _ => 20,
    }
}
fn paren(s: String, need: bool, r: &mut Rng) -> String {
    if need || r.chance(1, 9) {
        format!("({s})")
    } else {
        s
    }
}
fn lit(v: &BigInt, r: &mut Rng) -> String {
    let m = v.abs();
    let s = match r.below(8) {
        0 => format!("0x{m:x}"),
        1 => format!("0b{m:b}"),
        2 => {
            let d = m.to_string();
            let k = r.below(d.len());
            if k > 0 { format!("{}_{}", &d[..k], &d[k..]) } else { d }
        }
        3 => format!("0o{m:o}"),
        _ => m.to_string(),
    };
    if v.is_negative() { format!("-{s}") } else { s }
}
fn xtext(x: &X, r: &mut Rng) -> String {
    let p = xprec(x);
    match x {
        X::Lit(v) => lit(v, r),
        X::Name(n, _) => n.clone(),
        X::Neg(a) => {
            let s = xtext(a, r);
            format!("-{}", paren(s, xprec(a) <= 12, r))
        }
        X::UBits(a) => format!("uint::bits_for({})", xtext(a, r)),
        X::IBits(a) => format!("int::bits_for({})", xtext(a, r)),
        X::Bin(o, a, b) => {
            let (sa, sb) = (xtext(a, r), xtext(b, r));
            format!("{} {o} {}", paren(sa, xprec(a) < p, r), paren(sb, xprec(b) <= p, r))
        }
    }
}
fn btext(b: &B, r: &mut Rng) -> String {
    let p = bprec(b);
    match b {
        B::Lit(v) => v.to_string(),
        B::Name(n, _) => n.clone(),
        B::Cmp(o, x, y) => format!("{} {o} {}", xtext(x, r), xtext(y, r)),
        B::Eq(e, x, y) => {
            let (sx, sy) = (btext(x, r), btext(y, r));
            format!("{} {} {}", paren(sx, bprec(x) < p, r), if *e { "==" } else { "!=" }, paren(sy, bprec(y) <= p, r))
        }
        B::Not(x) => {
            let s = btext(x, r);
            format!("!{}", paren(s, bprec(x) < 20, r))
        }
        B::Log(o, x, y) => {
            let (sx, sy) = (btext(x, r), btext(y, r));
            format!("{} {o} {}", paren(sx, bprec(x) < p, r), paren(sy, bprec(y) <= p, r))
        }
    }
}

#[derive(Clone, Default)]
struct Env {
    ints: Vec<(String, BigInt)>,
    bools: Vec<(String, bool)>,
    params: Vec<String>,
}

fn number(r: &mut Rng) -> BigInt {
    let v = match r.below(10) {
        0..=4 => BigInt::from(r.below(13)),
        5 => BigInt::from(r.below(300)),
        6 | 7 => (BigInt::one() << *r.pick(&[3usize, 7, 8, 15, 16, 31, 32, 33, 53, 63, 64, 65, 127, 128])) + r.below(3) - 1,
        8 => BigInt::from(r.next()),
        _ => (0..r.range(2, 16)).fold(BigInt::from(r.below(9) + 1), |a, _| a * 10 + r.below(10)),
    };
    if r.chance(1, 5) { -v } else { v }
}

fn gen_x(env: &Env, depth: usize, r: &mut Rng) -> X {
    if depth == 0 || r.chance(1, 6) {
        if !env.ints.is_empty() && r.chance(3, 5) {
            let (n, v) = r.pick(&env.ints).clone();
            return X::Name(n, v);
        }
        return X::Lit(number(r));
    }
    for _ in 0..20 {
        let sub = |r: &mut Rng| Box::new(gen_x(env, depth - 1, r));
        let x = match r.below(14) {
            0 => X::Neg(sub(r)),
            1 => X::UBits(sub(r)),
            2 => X::IBits(sub(r)),
            k => X::Bin(["+", "-", "*", "+", "-", "*", "/", "%"][k % 8], sub(r), sub(r)),
        };
        if xval(&x).is_some() {
            return x;
        }
    }
    X::Lit(number(r))
}

fn xv(x: &X) -> BigInt {
    xval(x).expect("generated expressions have a value")
}

/// an expression with a value in the range
fn gen_in(env: &Env, lo: i64, hi: i64, r: &mut Rng) -> X {
    let x = gen_x(env, r.range(1, 4), r);
    let v = xv(&x);
    let (l, h) = (BigInt::from(lo), BigInt::from(hi));
    if v >= l && v <= h {
        // A bare name has the kind its parameter was declared with, which has to be #uint
        // where a size is expected; arithmetic has no kind
        return match x {
            X::Name(..) => X::Bin("+", Box::new(x), Box::new(X::Lit(0.into()))),
            x => x,
        };
    }
    let n = hi - lo + 1;
    match r.below(3) {
        // a remainder
        0 => {
            let x = X::Bin("%", Box::new(x), Box::new(X::Lit(n.into())));
            let m = xv(&x);
            let shift: BigInt = if m.is_negative() { l + n } else { l };
            let y = X::Bin("+", Box::new(x), Box::new(X::Lit(shift)));
            let v = xv(&y);
            if v >= lo.into() && v <= hi.into() {
                return y;
            }
            X::Lit(lo.into())
        }
        // a distance
        1 => {
            let t = lo + r.below(n as usize) as i64;
            let d = X::Lit(&v - t);
            X::Bin("-", Box::new(x), Box::new(d))
        }
        _ => {
            let t = lo + r.below(n as usize) as i64;
            if r.bool() {
                X::Bin("+", Box::new(X::Lit(BigInt::from(t) - &v)), Box::new(x))
            } else {
                X::Lit(t.into())
            }
        }
    }
}

fn gen_b(env: &Env, depth: usize, r: &mut Rng) -> B {
    if depth == 0 {
        return match r.below(6) {
            0 => B::Lit(r.bool()),
            1 if !env.bools.is_empty() => {
                let (n, v) = r.pick(&env.bools).clone();
                B::Name(n, v)
            }
            _ => {
                let a = gen_x(env, r.below(3), r);
                let b = if r.bool() {
                    gen_x(env, r.below(3), r)
                } else {
                    // close calls
                    let v = xv(&a);
                    X::Lit(v + BigInt::from(r.below(3)) - 1)
                };
                B::Cmp(*r.pick(&["==", "!=", "<", "<=", ">", ">="]), a, b)
            }
        };
    }
    let sub = |r: &mut Rng| Box::new(gen_b(env, depth - 1, r));
    match r.below(6) {
        0 => B::Not(sub(r)),
        1 => B::Eq(r.bool(), sub(r), sub(r)),
        k => B::Log(["&&", "||", "^^"][k % 3], sub(r), sub(r)),
    }
}

// ---- programs with places that can be spoilt ----

struct Slot {
    good: String,
    bad: String,
    what: String,
}
#[derive(Default)]
struct Gen {
    slots: Vec<Slot>,
    units: Vec<String>,
}
impl Gen {
    fn slot(&mut self, good: impl Into<String>, bad: impl Into<String>, what: impl Into<String>) -> String {
        self.slots.push(Slot { good: good.into(), bad: bad.into(), what: what.into() });
        format!("\u{1}{}\u{2}", self.slots.len() - 1)
    }
    fn text(&self, t: &str, spoil: Option<usize>) -> String {
        let mut o = String::new();
        let mut rest = t;
        while let Some(i) = rest.find('\u{1}') {
            let e = rest.find('\u{2}').unwrap();
            let k: usize = rest[i + 1..e].parse().unwrap();
            o.push_str(&rest[..i]);
            let s = &self.slots[k];
            o.push_str(&self.text(if Some(k) == spoil { &s.bad } else { &s.good }, None));
            rest = &rest[e + 1..];
        }
        o.push_str(rest);
        o
    }
}

const PRELUDE: &str = "fn lit<#int X>() -> int<200> { X }
fn nat<#uint X>() -> int<200> { X }
fn truth<#bool X>() -> bool { X }
fn width<#uint N>(a: uint<N>) -> int<200> { lit::<{N}>() }
fn swidth<#uint N>(a: int<N>) -> int<200> { lit::<{N}>() }
fn len<T, #uint N>(a: [T; N]) -> int<200> { lit::<{N}>() }
fn cat<#uint N, #uint M>(a: uint<N>, b: uint<M>) -> uint<{N + M}> { std::conv::concat(a, b) }
fn times<#uint N, #uint M>(a: uint<N>, b: [bool; M]) -> [uint<N>; {N * M + 1}] { [a; N * M + 1] }
fn mk<#uint N>() -> uint<N> { 0 }
fn mks<#uint N>() -> int<N> { 0 }
fn two<#int A, #int B>() -> int<200> where A: { B } { A }
struct S<#uint N> { a: uint<N> }
struct P4 { p: bool, f: uint<4> }
fn sw<#uint N>(a: S<N>) -> int<200> { lit::<{N}>() }
fn id4(x: uint<4>) -> uint<4> { x }
";

/// one observation: (type, expression, expected bits, statements before)
type Obs = (String, String, LV, String);

fn big(v: &BigInt) -> LV {
    LV::from_bigint(v, W)
}
fn int_t() -> String {
    format!("int<{W}>")
}

/// a literal that fits its type by a hair, or does not
fn literal_pair(n: usize, signed: bool, r: &mut Rng) -> (BigInt, BigInt) {
    let one = BigInt::one();
    if signed {
        let h: BigInt = if n == 0 { BigInt::zero() } else { (&one << (n - 1)) - 1 };
        let l: BigInt = if n == 0 { BigInt::zero() } else { -(&one << (n - 1)) };
        match r.below(3) {
            0 => (h.clone(), h + 1),
            1 => (l.clone(), l - 1),
            _ => (h.clone(), if r.bool() { h + number(r).abs() + 1 } else { l - number(r).abs() - 1 }),
        }
    } else {
        let h: BigInt = (&one << n) - 1;
        match r.below(4) {
            0 => (BigInt::zero(), -number(r).abs() - 1),
            1 => (h.clone(), h + number(r).abs() + 1),
            _ => (h.clone(), h + 1),
        }
    }
}

fn observation(g: &mut Gen, env: &Env, k: usize, r: &mut Rng) -> Obs {
    let none = String::new;
    let e = |x: &X, r: &mut Rng| format!("{{{}}}", xtext(x, r));
    match r.below(22) {
        0..=3 => {
            let d = r.range(1, 5);
            let x = gen_x(env, d, r);
            let s = e(&x, r);
            (int_t(), format!("lit::<{s}>()"), big(&xv(&x)), none())
        }
        4 => {
            let x = gen_in(env, 0, 1 << 40, r);
            let v = xv(&x);
            let good = e(&x, r);
            let bad = format!("{{{} - {}}}", paren(xtext(&x, r), xprec(&x) < 10, r), &v + 1 + number(r).abs());
            let s = g.slot(good, bad, "a negative number as a #uint");
            (int_t(), format!("nat::<{s}>()"), big(&v), none())
        }
        5 | 6 => {
            let b = gen_b(env, r.range(0, 3), r);
            let s = btext(&b, r);
            ("bool".into(), format!("truth::<{{{s}}}>()"), LV::from_bool(bval(&b).unwrap()), none())
        }
        7..=9 => {
            let n = r.range(1, 3);
            let mut s = String::new();
            let mut want = None;
            for i in 0..n {
                let b = gen_b(env, r.range(0, 3), r);
                let g = if i == 0 { "gen " } else { "" };
                if want.is_none() && bval(&b).unwrap() {
                    want = Some(i);
                }
                s.push_str(&format!("{g}if {} {{ {} }} else ", btext(&b, r), i + 10));
            }
            s.push_str(&format!("{{ {} }}", n + 10));
            let u = format!("cond{}", g.units.len());
            let names: Vec<&str> = env.params.iter().map(|p| p.split(' ').nth(1).unwrap()).collect();
            let (ps, call) = if names.is_empty() {
                (String::new(), format!("{u}()"))
            } else {
                (format!("<{}>", env.params.join(", ")), format!("{u}::<{}>()", names.join(", ")))
            };
            g.units.push(format!("fn {u}{ps}() -> uint<8> {{ {s} }}\n"));
            ("uint<8>".into(), call, LV::from_u64((want.unwrap_or(n) + 10) as u64, 8), none())
        }
        10 => {
            // sizes of integer types
            let x = gen_in(env, 1, 80, r);
            let v = xv(&x);
            let bad: BigInt = if r.bool() { &v + 1 } else { &v - 1 };
            let s = g.slot(v.to_string(), bad.to_string(), "an integer of another size");
            let (t, f, w) = if r.bool() { ("uint", "mk", "width") } else { ("int", "mks", "swidth") };
            (int_t(), format!("{w}(q{k})"), big(&v), format!("let q{k}: {t}<{}> = {f}::<{s}>();", e(&x, r)))
        }
        11 | 12 => {
            // array sizes
            let x = gen_in(env, 1, 40, r);
            let v = xv(&x);
            let y = if r.bool() { X::Lit(v.clone()) } else { gen_in(env, v.to_i64().unwrap(), v.to_i64().unwrap(), r) };
            let d = if r.bool() { "+ 1" } else { "- 1" };
            let good = xtext(&y, r);
            let bad = format!("{} {d}", paren(xtext(&y, r), xprec(&y) < 10, r));
            let s = g.slot(good, bad, "an array of another size");
            (int_t(), format!("len(q{k})"), big(&v), format!("let q{k}: [uint<3>; {}] = [5; {s}];", e(&x, r)))
        }
        13 => {
            // sizes that follow from other sizes
            let (a, b) = (r.range(1, 20), r.range(1, 20));
            let s = format!("width(cat({}u{a}, {}u{b}))", r.below(2), r.below(2));
            (int_t(), s, big(&BigInt::from(a + b)), none())
        }
        14 => {
            let (a, b) = (r.range(1, 6), r.range(1, 6));
            let s = format!("len(times({}u{a}, [true; {b}]))", r.below(2));
            (int_t(), s, big(&BigInt::from(a * b + 1)), none())
        }
        15 => {
            let x = gen_in(env, 1, 60, r);
            let v = xv(&x);
            (int_t(), format!("sw(q{k})"), big(&v), format!("let q{k}: S<{}> = S(0);", e(&x, r)))
        }
        16 => {
            // ranges of arrays: a[i] = i + 1
            let h = r.range(1, 8);
            let l = r.below(h);
            let (x, y) = (gen_in(env, l as i64, l as i64, r), gen_in(env, h as i64, h as i64, r));
            let bad = if r.bool() { format!("{}..{}", xtext(&x, r), 9 + r.below(9)) } else { format!("{}..{}", h + 1 + r.below(3), xtext(&y, r)) };
            let good = format!("{}..{}", xtext(&x, r), xtext(&y, r));
            let s = g.slot(good, bad, "a range outside of its array");
            let want = LV::concat(&[(l..h).rev().map(|i| LV::from_u64(i as u64 + 1, 4)).collect::<Vec<_>>(), vec![big(&BigInt::from(h - l))]].concat());
            (format!("([uint<4>; {}], {})", h - l, int_t()), format!("(q{k}, len(q{k}))"), want, format!("let q{k} = a[{s}];"))
        }
        17 => {
            // two expressions of one value
            let x = gen_x(env, r.range(1, 3), r);
            let v = xv(&x);
            let y = gen_x(env, r.range(1, 3), r);
            let z = X::Bin("+", Box::new(X::Lit(&v - xv(&y))), Box::new(y));
            let zt = xtext(&z, r);
            let bad = format!("{{{zt} + 1}}");
            let s = g.slot(format!("{{{zt}}}"), bad, "where A: {B} with different numbers");
            (int_t(), format!("two::<{}, {s}>()", e(&x, r)), big(&v), none())
        }
        _ => {
            // literals
            let signed = r.bool();
            let n = *r.pick(&[1usize, 2, 3, 4, 5, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 150]);
            let (good, bad) = literal_pair(n, signed, r);
            let t = format!("{}<{n}>", if signed { "int" } else { "uint" });
            let kind = if signed { "an integer literal" } else { "an unsigned literal" };
            let want = LV::from_bigint(&good, n);
            let (gt, bt) = (lit(&good, r), lit(&bad, r));
            match r.below(8) {
                0 if !bad.is_negative() || signed => {
                    let sf = format!("{}{n}", if signed { "i" } else { "u" });
                    let s = g.slot(format!("{good}{sf}"), format!("{bad}{sf}"), format!("{kind} with a suffix"));
                    (t, s, want, none())
                }
                1 if !good.is_negative() && !bad.is_negative() => {
                    // in a pattern
                    let s = g.slot(gt.clone(), bt, format!("{kind} in a pattern"));
                    ("bool".into(), format!("match q{k} {{ {s} => true, _ => false }}"), LV::from_bool(true), format!("let q{k}: {t} = {gt};"))
                }
                2 => {
                    // as a number parameter
                    let u = format!("as_{}{n}_{}", if signed { "i" } else { "u" }, g.units.len());
                    g.units.push(format!("fn {u}<#int X>() -> {t} {{ X }}\n"));
                    let s = g.slot(gt, bt, format!("{kind} from a type parameter"));
                    (t, format!("{u}::<{{{s}}}>()"), want, none())
                }
                3 => {
                    let s = g.slot(gt, bt, format!("{kind} in an array"));
                    (format!("[{t}; 2]"), format!("q{k}"), LV::concat(&[LV::zeros(n), want]), format!("let q{k}: [{t}; 2] = [{s}, 0];"))
                }
                4 => {
                    let s = g.slot(gt, bt, format!("{kind} in an enum"));
                    (format!("Option<{t}>"), format!("q{k}"), LV::concat(&[LV::from_bool(true), want]), format!("let q{k}: Option<{t}> = Some({s});"))
                }
                5 => {
                    let s = g.slot(gt.clone(), bt, format!("{kind} in a comparison"));
                    ("bool".into(), format!("q{k} == {s}"), LV::from_bool(true), format!("let q{k}: {t} = {gt};"))
                }
                6 if n == 4 && !signed => {
                    let s = g.slot(gt, bt, format!("{kind} as an argument"));
                    ("uint<4>".into(), format!("id4({s})"), want, none())
                }
                _ => {
                    let s = g.slot(gt, bt, kind);
                    (t.clone(), format!("q{k}"), want, format!("let q{k}: {t} = {s};"))
                }
            }
        }
    }
}

/// a chain of generic units; the expected bits of the output of `top`
fn chain(g: &mut Gen, r: &mut Rng) -> (String, LV) {
    let depth = r.range(2, 4);
    // the arguments of the next unit
    let mut text = String::new();
    let mut wants: Vec<LV> = vec![];
    let mut types: Vec<String> = vec![];
    let mut env = Env::default();
    let mut head = "pub fn top()".to_string();
    let mut clauses = String::new();
    let mut bodies: Vec<(String, String, Vec<String>, Vec<String>)> = vec![];
    for u in 0..depth {
        let n = r.range(2, 5);
        let (mut ts, mut es, mut pre) = (vec![], vec![], String::new());
        if u == 0 {
            pre.push_str("let a: [uint<4>; 8] = [1, 2, 3, 4, 5, 6, 7, 8];");
        }
        for k in 0..n {
            let (t, e, w, p) = observation(g, &env, k, r);
            ts.push(t);
            es.push(e);
            wants.push(w);
            pre.push_str(&p);
        }
        let mut next = Env::default();
        let mut next_head = String::new();
        let mut next_clauses = vec![];
        if u + 1 < depth {
            let mut args = vec![];
            for k in 0..r.range(1, 4) {
                match r.below(5) {
                    0 => {
                        let b = gen_b(&env, r.below(3), r);
                        args.push(format!("{{{}}}", btext(&b, r)));
                        let n = format!("B{k}");
                        next.params.push(format!("#bool {n}"));
                        next.bools.push((n, bval(&b).unwrap()));
                    }
                    1 | 2 => {
                        let x = gen_in(&env, 0, if r.bool() { 12 } else { 1 << 50 }, r);
                        args.push(format!("{{{}}}", xtext(&x, r)));
                        let n = format!("N{k}");
                        next.params.push(format!("#uint {n}"));
                        next.ints.push((n, xv(&x)));
                    }
                    _ => {
                        let x = gen_x(&env, r.range(0, 3), r);
                        args.push(format!("{{{}}}", xtext(&x, r)));
                        let n = format!("M{k}");
                        next.params.push(format!("#int {n}"));
                        next.ints.push((n, xv(&x)));
                    }
                }
            }
            for (n, v) in next.ints.clone() {
                if r.chance(2, 3) {
                    // a true clause, and the same one with a false comparison
                    let d: BigInt = match r.below(4) {
                        0 => BigInt::zero(),
                        1 => BigInt::one(),
                        2 => -BigInt::one(),
                        _ => number(r),
                    };
                    // compare with an expression of value v + d
                    let y = gen_x(&next, r.range(0, 3), r);
                    let rest = &v + &d - xv(&y);
                    let z = if rest.is_zero() { y } else { X::Bin("+", Box::new(y), Box::new(X::Lit(rest))) };
                    let zt = xtext(&z, r);
                    let ops = ["==", "!=", "<", "<=", ">", ">="];
                    let holds = |o: &str| match o {
                        "==" => d.is_zero(),
                        "!=" => !d.is_zero(),
                        "<" => d.is_positive(),
                        "<=" => !d.is_negative(),
                        ">" => d.is_negative(),
                        _ => !d.is_positive(),
                    };
                    let t: Vec<&str> = ops.iter().copied().filter(|o| holds(o)).collect();
                    let f: Vec<&str> = ops.iter().copied().filter(|o| !holds(o)).collect();
                    let (t, f) = (*r.pick(&t), *r.pick(&f));
                    let els = if r.chance(1, 4) { " else \"no good\"" } else { "" };
                    next_clauses.push(g.slot(format!("{n} {t} {zt}{els}"), format!("{n} {f} {zt}{els}"), "a where clause that is false"));
                }
            }
            es.push(format!("u{}::<{}>(a)", u + 1, args.join(", ")));
            next_head = format!("fn u{}<{}>(a: [uint<4>; 8])", u + 1, next.params.join(", "));
        }
        bodies.push((format!("{head} -> "), format!("{clauses} {{ {pre} "), ts.clone(), es));
        types.push(String::new());
        head = next_head;
        clauses = if next_clauses.is_empty() { String::new() } else { format!(" where {}", next_clauses.join(", ")) };
        env = next;
    }
    // return types are nested
    let mut inner: Option<String> = None;
    for (h, c, mut ts, es) in bodies.into_iter().rev() {
        if let Some(i) = inner.take() {
            ts.push(i);
        }
        let t = format!("({})", ts.join(", "));
        text.push_str(&format!("{h}{t}{c}({}) }}\n", es.join(", ")));
        inner = Some(t);
    }
    let recursion = r.range(0, 12);
    let fac = r.range(1, 5);
    text.push_str(&format!(
        "fn sum<#uint N, #int A>() -> int<200> {{ gen if N == 0 {{ lit::<A>() }} else {{ sum::<{{N - 1}}, {{A * {fac} + N}}>() }} }}\npub fn deep() -> int<200> {{ sum::<{recursion}, 1>() }}\n"
    ));
    let mut a = BigInt::one();
    for n in (1..=recursion).rev() {
        a = a * fac + n;
    }
    wants.push(big(&a));
    (text, LV::concat(&wants))
}

fn simulate(verilog: &str, unit: &str) -> Result<LV, String> {
    let d = Design::parse(&[verilog]).map_err(|e| format!("syntax: {e}"))?;
    let mut issues = vec![];
    let mut s = Sim::new(&d, unit, &mut issues)?;
    s.settle()?;
    Ok(s.get("output__"))
}

fn values(r: &mut Rng, nbad: usize, out: &mut JobOut) {
    let mut g = Gen::default();
    let (body, want) = chain(&mut g, r);
    let all = format!("{PRELUDE}{}{body}", g.units.concat());
    let good = g.text(&all, None);
    let run = comp::compile(&[Src::single(&good)], &Opts::default());
    out.evals += 1;
    let Some(s) = run.ok() else {
        out.violation(format!("correct constants {}: {}", run.verdict(), run.first_error()), json!({"source": good, "rendered": run.rendered}));
        return;
    };
    out.key(&good);
    let deep = want.slice(0, W);
    let top = want.slice(W, want.w - W);
    for (unit, want) in [("top", top), ("deep", deep)] {
        match simulate(&s.verilog, unit) {
            Err(e) => out.violation(format!("{unit}: {e}"), json!({"source": good})),
            Ok(got) => {
                out.stat("bits of computed constants compared", want.w as u64);
                if !agrees(&want, &got) {
                    out.violation("a constant has another value than the reference", json!({"source": good, "unit": unit, "expected": want.to_bin(), "got": got.to_bin()}));
                    return;
                }
            }
        }
    }
    let mut ks: Vec<usize> = (0..g.slots.len()).collect();
    r.shuffle(&mut ks);
    for k in ks.into_iter().take(nbad) {
        let bad = g.text(&all, Some(k));
        if bad == good {
            continue;
        }
        let run = comp::compile(&[Src::single(&bad)], &Opts::default());
        out.evals += 1;
        let what = &g.slots[k].what;
        if run.verdict() == "rejected" {
            out.stat(&format!("rejected: {what}"), 1);
            out.key(&bad);
        } else {
            out.violation(format!("{what} is {}", run.verdict()), json!({"source": bad, "control": good, "rendered": run.rendered}));
        }
    }
}

// ---- constant initial values ----

#[derive(Clone, Debug)]
enum T {
    U(usize),
    I(usize),
    Bool,
    Tup(Vec<T>),
    Arr(Box<T>, usize),
    Opt(Box<T>),
    S3(usize),
}
impl T {
    fn width(&self) -> usize {
        match self {
            T::U(n) | T::I(n) => *n,
            T::Bool => 1,
            T::Tup(ts) => ts.iter().map(|t| t.width()).sum(),
            T::Arr(t, n) => t.width() * n,
            T::Opt(t) => t.width() + 1,
            T::S3(n) => 1 + 5 + n,
        }
    }
    fn text(&self) -> String {
        match self {
            T::U(n) => format!("uint<{n}>"),
            T::I(n) => format!("int<{n}>"),
            T::Bool => "bool".into(),
            T::Tup(ts) => format!("({})", ts.iter().map(|t| t.text()).collect::<Vec<_>>().join(", ")),
            T::Arr(t, n) => format!("[{}; {n}]", t.text()),
            T::Opt(t) => format!("Option<{}>", t.text()),
            T::S3(n) => format!("S3<{n}>"),
        }
    }
}
fn gen_t(depth: usize, r: &mut Rng) -> T {
    let n = *r.pick(&[1usize, 2, 3, 4, 5, 8, 9, 31, 32, 33, 64, 65, 90]);
    match if depth == 0 { r.below(5) } else { r.below(9) } {
        0 | 1 => T::U(n),
        2 | 3 => T::I(n),
        4 => T::Bool,
        5 => T::Tup((0..r.range(2, 3)).map(|_| gen_t(depth - 1, r)).collect()),
        6 => T::Arr(Box::new(gen_t(depth - 1, r)), r.range(1, 4)),
        7 => T::Opt(Box::new(gen_t(depth - 1, r))),
        _ => T::S3(r.range(1, 70)),
    }
}
fn bigint_of(v: &LV, signed: bool) -> Option<BigInt> {
    if v.has_x() {
        None
    } else if signed {
        v.to_bigint_signed()
    } else {
        v.to_biguint().map(BigInt::from)
    }
}

/// an expression of the type that is known at compile time, with its bits
fn gen_v(t: &T, depth: usize, none: bool, r: &mut Rng) -> (String, LV) {
    let w = t.width();
    if depth > 0 && r.chance(1, 3) {
        // projections
        match r.below(3) {
            0 => {
                let k = r.below(3);
                let mut es = vec![];
                let mut v = None;
                for i in 0..3 {
                    let u = if i == k { t.clone() } else { gen_t(1, r) };
                    let (e, x) = gen_v(&u, depth - 1, none && i == k, r);
                    if i == k {
                        v = Some(x);
                    }
                    es.push(e);
                }
                return (format!("({}).{k}", es.join(", ")), v.unwrap());
            }
            1 => {
                let n = r.range(1, 4);
                let vs: Vec<_> = (0..n).map(|i| gen_v(t, depth - 1, none && i == 0, r)).collect();
                let k = r.below(n);
                return (format!("[{}][{k}]", vs.iter().map(|v| v.0.clone()).collect::<Vec<_>>().join(", ")), vs[k].1.clone());
            }
            _ => {
                // a field of a struct
                let f = r.range(1, 70);
                let (ty, name) = match t {
                    T::Bool => (T::S3(f), "p"),
                    T::I(5) => (T::S3(f), "f"),
                    T::U(n) if *n > 0 => (T::S3(*n), "q"),
                    _ => return gen_v(t, depth - 1, none, r),
                };
                let (e, v) = gen_v(&ty, depth - 1, none, r);
                let n = ty.width() - 6;
                let bits = match name {
                    "p" => v.slice(n + 5, 1),
                    "f" => v.slice(n, 5),
                    _ => v.slice(0, n),
                };
                return (format!("{}.{name}", if e.ends_with(')') || e.ends_with(']') { e } else { format!("({e})") }), bits);
            }
        }
    }
    match t {
        T::U(n) | T::I(n) => {
            let signed = matches!(t, T::I(_));
            let mk = |n| if signed { T::I(n) } else { T::U(n) };
            if depth > 0 && *n >= 2 && r.chance(2, 3) {
                let (a, va) = gen_v(&mk(n - 1), depth - 1, false, r);
                let (b, vb) = gen_v(&mk(n - 1), depth - 1, false, r);
                let add = r.bool();
                let v = match (bigint_of(&va, signed), bigint_of(&vb, signed)) {
                    (Some(x), Some(y)) => LV::from_bigint(&if add { x + y } else { x - y }, *n),
                    _ => LV::xs(*n),
                };
                return (format!("({a} {} {b})", if add { "+" } else { "-" }), v);
            }
            if depth > 0 && signed && *n >= 2 && r.chance(1, 4) {
                let (a, va) = gen_v(t, depth - 1, false, r);
                if a.starts_with('(') || a.starts_with('[') {
                    let v = bigint_of(&va, true).map(|x| LV::from_bigint(&-x, *n)).unwrap_or(LV::xs(*n));
                    return (format!("(-{a})"), v);
                }
            }
            let v = (0..*n).fold(LV::zeros(*n), |mut v, i| {
                v.set_bit(i, if r.bool() { crate::bits::B::B1 } else { crate::bits::B::B0 });
                v
            });
            let v = match r.below(4) {
                0 => LV::zeros(*n),
                1 => LV::zeros(*n).bitnot(),
                2 => {
                    let mut v = LV::zeros(*n);
                    v.set_bit(n - 1, crate::bits::B::B1);
                    v
                }
                _ => v,
            };
            let x = bigint_of(&v, signed).unwrap();
            let s = format!("{x}{}{n}", if signed { "i" } else { "u" });
            (if x.is_negative() { format!("({s})") } else { s }, v)
        }
        T::Bool => {
            let b = r.bool();
            (b.to_string(), LV::from_bool(b))
        }
        T::Tup(ts) => {
            let vs: Vec<_> = ts.iter().map(|t| gen_v(t, depth.saturating_sub(1), none, r)).collect();
            (format!("({})", vs.iter().map(|v| v.0.clone()).collect::<Vec<_>>().join(", ")), LV::concat(&vs.iter().map(|v| v.1.clone()).collect::<Vec<_>>()))
        }
        T::Arr(t, n) => {
            if r.chance(1, 4) {
                let (e, v) = gen_v(t, depth.saturating_sub(1), none, r);
                return (format!("[{e}; {n}]"), LV::concat(&vec![v; *n]));
            }
            let vs: Vec<_> = (0..*n).map(|_| gen_v(t, depth.saturating_sub(1), none, r)).collect();
            (format!("[{}]", vs.iter().map(|v| v.0.clone()).collect::<Vec<_>>().join(", ")), LV::concat(&vs.iter().rev().map(|v| v.1.clone()).collect::<Vec<_>>()))
        }
        T::Opt(t) => {
            if none && r.chance(1, 3) {
                return ("None()".into(), LV::concat(&[LV::from_bool(false), LV::xs(w - 1)]));
            }
            let (e, v) = gen_v(t, depth.saturating_sub(1), none, r);
            (format!("Some({e})"), LV::concat(&[LV::from_bool(true), v]))
        }
        T::S3(n) => {
            let ts = [T::Bool, T::I(5), T::U(*n)];
            let vs: Vec<_> = ts.iter().map(|t| gen_v(t, depth.saturating_sub(1), none, r)).collect();
            let e = if r.bool() {
                format!("S3({}, {}, {})", vs[0].0, vs[1].0, vs[2].0)
            } else {
                format!("S3$(q: {}, p: {}, f: {})", vs[2].0, vs[0].0, vs[1].0)
            };
            (e, LV::concat(&vs.iter().map(|v| v.1.clone()).collect::<Vec<_>>()))
        }
    }
}

fn initials(r: &mut Rng, out: &mut JobOut) {
    let mut regs = String::new();
    let (mut types, mut outs, mut wants) = (vec![], vec![], vec![]);
    for k in 0..r.range(3, 6) {
        let t = gen_t(2, r);
        if r.chance(1, 4) && !matches!(t, T::S3(_)) {
            // the cells of a memory
            let n = r.range(2, 4);
            let vs: Vec<_> = (0..n).map(|_| gen_v(&t, 3, true, r)).collect();
            let zero = gen_v(&t, 0, false, r).0;
            regs.push_str(&format!(
                "    let m{k}: Memory<{}, {n}> = inst std::mem::clocked_memory_init(clk, [(false, 0, {zero})], [{}]);\n",
                t.text(),
                vs.iter().map(|v| v.0.clone()).collect::<Vec<_>>().join(", ")
            ));
            for (i, (_, v)) in vs.into_iter().enumerate() {
                outs.push(format!("inst std::mem::read_memory(m{k}, {i})"));
                types.push(t.text());
                wants.push(v);
            }
            continue;
        }
        let (e, v) = gen_v(&t, r.range(1, 4), true, r);
        regs.push_str(&format!("    reg(clk) r{k}: {} initial({e}) = r{k};\n", t.text()));
        types.push(t.text());
        outs.push(format!("r{k}"));
        wants.push(v);
    }
    let text = format!(
        "struct S3<#uint N> {{ p: bool, f: int<5>, q: uint<N> }}\npub entity top(clk: clock) -> ({}, bool) {{\n{regs}    ({}, true)\n}}\n",
        types.join(", "),
        outs.join(", ")
    );
    let run = comp::compile(&[Src::single(&text)], &Opts::default());
    out.evals += 1;
    let Some(s) = run.ok() else {
        out.violation(format!("constant initial values {}: {}", run.verdict(), run.first_error()), json!({"source": text, "rendered": run.rendered}));
        return;
    };
    out.key(&text);
    wants.push(LV::from_bool(true));
    let want = LV::concat(&wants);
    match simulate(&s.verilog, "top") {
        Err(e) => out.violation(format!("initial values: {e}"), json!({"source": text})),
        Ok(got) => {
            out.stat("bits of initial values compared", crate::exec::defined_bits(&want) as u64);
            if !agrees(&want, &got) {
                out.violation("an initial value is not the value of its expression", json!({"source": text, "expected": want.to_bin(), "got": got.to_bin()}));
            }
        }
    }
}

// ---- depths ----

fn depths(r: &mut Rng, out: &mut JobOut) {
    let n = r.range(1, 6) as i64;
    let env = Env { ints: vec![("N".into(), n.into())], ..Env::default() };
    let d = r.range(1, 7) as i64;
    let e = gen_in(&env, d, d, r);
    let a = r.below(d as usize + 1) as i64;
    let b = d - a;
    let (xa, xb) = (gen_in(&env, a, a, r), gen_in(&env, b, b, r));
    let none = Env::default();
    let at = gen_in(&none, d, d, r);
    let total = d + r.below(3) as i64;
    let mk = |bad: bool, r: &mut Rng| {
        let stage = |x: &X, v: i64, r: &mut Rng| if v == 0 { String::new() } else { format!("reg*{{{}}};", xtext(x, r)) };
        let inst = if bad { X::Lit((d + 1).into()) } else { at.clone() };
        format!(
            "pipeline({{{}}}) p<#uint N>(clk: clock, a: uint<N>, x: uint<8>) -> uint<8> {{ {} {} x +. 1 }}\npub pipeline({total}) top(clk: clock, x: uint<8>) -> uint<8> {{ let y = inst({{{}}}) p(clk, 0u{n}, x); reg*{total}; y +. 1 }}\n",
            xtext(&e, r),
            stage(&xa, a, r),
            stage(&xb, b, r),
            xtext(&inst, r),
        )
    };
    let good = mk(false, r);
    let run = comp::compile(&[Src::single(&good)], &Opts::default());
    out.evals += 1;
    let Some(s) = run.ok() else {
        out.violation(format!("computed depths {}: {}", run.verdict(), run.first_error()), json!({"source": good, "rendered": run.rendered}));
        return;
    };
    out.key(&good);
    let res = (|| -> Result<Option<String>, String> {
        let ds = Design::parse(&[&s.verilog])?;
        let mut sim = Sim::new(&ds, "top", &mut vec![])?;
        let mut hist = vec![];
        for t in 0..(total as u64 + 6) {
            sim.set("clk_i", &LV::from_u64(0, 1));
            let x = r.below(256) as u64;
            sim.set("x_i", &LV::from_u64(x, 8));
            hist.push(x);
            sim.settle()?;
            if t >= total as u64 {
                let want = LV::from_u64((hist[(t - total as u64) as usize] + 2) & 255, 8);
                let got = sim.get("output__");
                out.stat("outputs of pipelines of computed depth compared", 1);
                if !agrees(&want, &got) {
                    return Ok(Some(format!("cycle {t}: expected {}, got {}", want.to_bin(), got.to_bin())));
                }
            }
            sim.set("clk_i", &LV::from_u64(1, 1));
            sim.settle()?;
        }
        Ok(None)
    })();
    match res {
        Err(e) => out.violation(format!("computed depths: {e}"), json!({"source": good})),
        Ok(Some(e)) => out.violation("a pipeline of computed depth has another depth", json!({"source": good, "what": e})),
        Ok(None) => {}
    }
    let bad = mk(true, r);
    let run = comp::compile(&[Src::single(&bad)], &Opts::default());
    out.evals += 1;
    if run.verdict() != "rejected" {
        out.violation(format!("an instance with another depth is {}", run.verdict()), json!({"source": bad, "control": good}));
    } else {
        out.stat("rejected: an instance of another depth", 1);
    }
}

pub fn c18() -> CheckDef {
    fn run(c: &Ctx, j: usize, r: &mut Rng, out: &mut JobOut) {
        let _ = c;
        if j == 0 {
            crate::probes::run("C18", out);
        }
        for _ in 0..2 {
            values(r, 6, out);
        }
        initials(r, out);
        initials(r, out);
        depths(r, out);
    }
    CheckDef {
        id: "C18",
        jobs: |t| if t { 6000 } else { 120 },
        run,
        rule: "numbers computed at compile time by chains of generic units, conditions, sizes, ranges, depths and constant initial values have in hardware the value that exact integer arithmetic gives; programs whose where clause is false, whose literal does not fit, or whose sizes or depths differ are rejected, their true twins accepted",
        assumptions: &["division and remainder truncate towards zero", "a remainder or quotient by zero has no value and is not generated here"],
        crash_is_violation: true,
    }
}
