//! C16: the units of the standard library compute what their documentation says.
use crate::bits::LV;
use crate::comp::Opts;
use crate::exec::{agrees, compile_text, run_vectors, Vector};
use crate::rng::Rng;
use crate::runner::{CheckDef, Ctx, JobOut};
use crate::vsim::sim::Sim;
use crate::vsim::Design;
use num::bigint::{BigInt, BigUint};
use num::traits::{One, Signed, Zero};
use serde_json::json;
use std::collections::VecDeque;

// ---- values ----

#[derive(Clone, Debug)]
struct Par {
    name: &'static str,
    ty: String,
    w: usize,
    /// None: a single value
    n: Option<usize>,
}
fn one(name: &'static str, ty: impl Into<String>, w: usize) -> Par {
    Par { name, ty: ty.into(), w, n: None }
}
fn arr(name: &'static str, e: &El, n: usize) -> Par {
    Par { name, ty: format!("[{}; {n}]", e.ty), w: e.w, n: Some(n) }
}
type Model = Box<dyn Fn(&[Vec<LV>]) -> LV>;
struct Case {
    unit: &'static str,
    pars: Vec<Par>,
    ret: String,
    body: String,
    f: Model,
}

/// a type and its width
#[derive(Clone, Debug)]
struct El {
    ty: String,
    w: usize,
}
fn el(r: &mut Rng) -> El {
    match r.below(9) {
        0 => El { ty: "bool".into(), w: 1 },
        1 => {
            let a = r.below(5);
            El { ty: format!("(uint<{a}>, bool)"), w: a + 1 }
        }
        2 => {
            let (a, b) = (r.below(5), r.below(4));
            El { ty: format!("[uint<{a}>; {b}]"), w: a * b }
        }
        3 => El { ty: "(bool, [bool; 2])".into(), w: 3 },
        4 => {
            let a = width(r);
            El { ty: format!("int<{a}>"), w: a }
        }
        _ => {
            let a = width(r);
            El { ty: format!("uint<{a}>"), w: a }
        }
    }
}
fn uint(w: usize) -> El {
    El { ty: format!("uint<{w}>"), w }
}
fn width(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => *r.pick(&[31, 32, 33, 63, 64, 65]),
        3 => r.range(66, 100),
        _ => r.range(2, 12),
    }
}
fn len(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.range(8, 13),
        _ => r.range(2, 7),
    }
}

fn u(v: &LV) -> BigUint {
    v.to_biguint().unwrap_or_default()
}
fn s(v: &LV) -> BigInt {
    if v.w == 0 { BigInt::zero() } else { v.to_bigint_signed().unwrap_or_default() }
}
fn mk(v: &BigUint, w: usize) -> LV {
    LV::from_biguint(&(v & ((BigUint::one() << w) - 1u32)), w)
}
fn mks(v: &BigInt, w: usize) -> LV {
    let m = BigInt::one() << w;
    let v = ((v % &m) + &m) % &m;
    mk(v.magnitude(), w)
}
/// element 0 least significant
fn pack(v: &[LV]) -> LV {
    let mut p = v.to_vec();
    p.reverse();
    LV::concat(&p)
}
fn tup(v: &[LV]) -> LV {
    LV::concat(v)
}
fn b(x: bool) -> LV {
    LV::from_bool(x)
}
fn some(v: &LV) -> LV {
    LV::concat(&[b(true), v.clone()])
}
fn none(w: usize) -> LV {
    LV::concat(&[b(false), LV::xs(w)])
}
fn bits(v: &LV) -> Vec<LV> {
    (0..v.w).map(|i| v.slice(i, 1)).collect()
}
fn gray(v: &BigUint) -> BigUint {
    (v >> 1u32) ^ v
}
/// the payload if it is a Some
fn opt(v: &LV) -> Option<LV> {
    if u(&v.slice(v.w - 1, 1)).is_one() { Some(v.slice(0, v.w - 1)) } else { None }
}

fn random(w: usize, r: &mut Rng) -> LV {
    match r.below(6) {
        0 => LV::zeros(w),
        1 => LV::zeros(w).bitnot(),
        2 if w > 0 => mk(&(BigUint::one() << (w - 1)), w),
        3 => mk(&BigUint::from(r.below(4)), w),
        _ => {
            let mut v = LV::zeros(w);
            for i in 0..w {
                if r.bool() {
                    v.set_bit(i, crate::bits::B::B1);
                }
            }
            v
        }
    }
}

// ---- the functions ----

fn cases(r: &mut Rng) -> Vec<Case> {
    let mut o: Vec<Case> = vec![];
    let mut add = |unit: &'static str, pars: Vec<Par>, ret: String, body: String, f: Model| o.push(Case { unit, pars, ret, body, f });

    // arrays of anything
    let (e, n) = (el(r), len(r));
    let (a, et) = (arr("a", &e, n), e.ty.clone());
    let a2 = Par { name: "b", ..a.clone() };
    let free = r.bool();
    add("array::interleave", vec![a.clone(), a2.clone()], format!("[{et}; {}]", 2 * n),
        if free { "std::array::interleave_arrays(a, b)".into() } else { "a.interleave(b)".into() },
        Box::new(|p| pack(&p[0].iter().zip(&p[1]).flat_map(|(x, y)| [x.clone(), y.clone()]).collect::<Vec<_>>())));
    let e2 = el(r);
    let c = Par { name: "c", ..arr("c", &e2, n) };
    let free = r.bool();
    add("array::zip", vec![a.clone(), c.clone()], format!("[({et}, {}); {n}]", e2.ty),
        if free { "std::array::zip(a, c)".into() } else { "a.zip(c)".into() },
        Box::new(|p| pack(&p[0].iter().zip(&p[1]).map(|(x, y)| tup(&[x.clone(), y.clone()])).collect::<Vec<_>>())));
    let pt = format!("({et}, {})", e2.ty);
    let (w1, w2) = (e.w, e2.w);
    add("array::unzip", vec![arr("a", &El { ty: pt, w: e.w + e2.w }, n)], format!("([{et}; {n}], [{}; {n}])", e2.ty), "a.unzip()".into(),
        Box::new(move |p| {
            let l: Vec<LV> = p[0].iter().map(|x| x.slice(w2, w1)).collect();
            let r: Vec<LV> = p[0].iter().map(|x| x.slice(0, w2)).collect();
            tup(&[pack(&l), pack(&r)])
        }));
    // chunks
    let (k, m) = (r.range(1, 4), r.below(5));
    let t = k * m;
    add("array::chunks", vec![arr("a", &e, t)], format!("[[{et}; {k}]; {m}]"),
        if r.bool() { format!("a.chunks::<{k}>()") } else { "a.chunks()".into() }, Box::new(|p| pack(&p[0])));
    // one particular chunk, window, slice
    if m > 0 {
        let i = r.below(m);
        add("array::chunks", vec![arr("a", &e, t)], format!("[{et}; {k}]"), format!("a.chunks::<{k}>()[{i}]"),
            Box::new(move |p| pack(&p[0][i * k..(i + 1) * k])));
    }
    let m = len(r);
    let free = r.bool();
    let cm = Par { name: "b", ..arr("b", &e, m) };
    add("array::concat", vec![a.clone(), cm], format!("[{et}; {}]", n + m),
        if free { "std::conv::concat_arrays(a, b)".into() } else { "a.concat(b)".into() },
        Box::new(|p| pack(&p[0].iter().chain(&p[1]).cloned().collect::<Vec<_>>())));
    let free = r.bool();
    add("array::reversed", vec![a.clone()], format!("[{et}; {n}]"),
        if free { "std::conv::flip_array(a)".into() } else { "a.reversed()".into() },
        Box::new(|p| pack(&p[0].iter().rev().cloned().collect::<Vec<_>>())));
    add("array::push_back", vec![a.clone(), one("x", &et, e.w)], format!("[{et}; {}]", n + 1), "a.push_back(x)".into(),
        Box::new(|p| pack(&p[0].iter().chain(&p[1]).cloned().collect::<Vec<_>>())));
    add("array::push_front", vec![a.clone(), one("x", &et, e.w)], format!("[{et}; {}]", n + 1), "a.push_front(x)".into(),
        Box::new(|p| pack(&p[1].iter().chain(&p[0]).cloned().collect::<Vec<_>>())));
    let m = r.range(0, n);
    add("array::sliding_window", vec![a.clone()], format!("[[{et}; {m}]; {}]", n - m + 1), format!("a.sliding_window::<{m}>()"),
        Box::new(move |p| pack(&(0..=n - m).map(|i| pack(&p[0][i..i + m])).collect::<Vec<_>>())));
    let k = r.range(0, n);
    add("array::split_at", vec![a.clone()], format!("([{et}; {k}], [{et}; {}])", n - k),
        if r.bool() { format!("a.split_at::<{k}>()") } else { "a.split_at()".into() },
        Box::new(move |p| tup(&[pack(&p[0][..k]), pack(&p[0][k..])])));
    let bits_for = |n: usize| (usize::BITS - n.leading_zeros()) as usize;
    let lw = bits_for(n).max(if n == 0 { 0 } else { 1 });
    add("array::len", vec![a.clone()], format!("uint<{lw}>"), "a.len()".into(), Box::new(move |_| LV::from_u64(n as u64, lw)));
    // map to something wider, with a captured value
    let ew = e.w;
    add("array::map", vec![a.clone(), one("x", "bool", 1)], format!("[({et}, bool); {n}]"), "a.map(fn |v| (v, x))".into(),
        Box::new(|p| pack(&p[0].iter().map(|v| tup(&[v.clone(), p[1][0].clone()])).collect::<Vec<_>>())));
    add("array::map", vec![a.clone()], format!("[(bool, {et}); {n}]"), "a.map(fn |v| (true, v)).reversed()".into(),
        Box::new(|p| pack(&p[0].iter().rev().map(|v| tup(&[b(true), v.clone()])).collect::<Vec<_>>())));
    let (k, m) = (r.below(5), r.below(5));
    add("array::flatten", vec![arr("a", &El { ty: format!("[{et}; {k}]"), w: ew * k }, m)], format!("[{et}; {}]", k * m), "a.flatten()".into(),
        Box::new(|p| pack(&p[0])));
    if n > 0 {
        add("array::first", vec![a.clone()], et.clone(), "a.first()".into(), Box::new(|p| p[0][0].clone()));
        add("array::last", vec![a.clone()], et.clone(), "a.last()".into(), Box::new(|p| p[0].last().unwrap().clone()));
        add("array::shift_back", vec![a.clone(), one("x", &et, e.w)], format!("[{et}; {n}]"), "a.shift_back(x)".into(),
            Box::new(|p| pack(&p[0][1..].iter().chain(&p[1]).cloned().collect::<Vec<_>>())));
        add("array::shift_front", vec![a.clone(), one("x", &et, e.w)], format!("[{et}; {n}]"), "a.shift_front(x)".into(),
            Box::new(move |p| pack(&p[1].iter().chain(&p[0][..n - 1]).cloned().collect::<Vec<_>>())));
    }
    // arrays of numbers
    let w = width(r).max(1);
    let un = arr("a", &uint(w), n);
    let x = one("x", format!("uint<{w}>"), w);
    add("array::any", vec![un.clone(), x.clone()], "bool".into(), "a.any(fn |v| v > x)".into(),
        Box::new(|p| b(p[0].iter().any(|v| u(v) > u(&p[1][0])))));
    add("array::all", vec![un.clone(), x.clone()], "bool".into(), "a.all(fn |v| v > x)".into(),
        Box::new(|p| b(p[0].iter().all(|v| u(v) > u(&p[1][0])))));
    add("array::any", vec![un.clone(), x.clone()], "bool".into(), "a.any(fn |v| v == x)".into(),
        Box::new(|p| b(p[0].iter().any(|v| u(v) == u(&p[1][0])))));
    add("array::all", vec![un.clone(), x.clone()], "bool".into(), "a.all(fn |v| v != x)".into(),
        Box::new(|p| b(p[0].iter().all(|v| u(v) != u(&p[1][0])))));
    add("array::fold", vec![un.clone(), x.clone()], format!("uint<{w}>"), "a.fold(x, fn |acc, v| acc +. acc +. v)".into(),
        Box::new(move |p| mk(&p[0].iter().fold(u(&p[1][0]), |acc, v| (acc * 2u32 + u(v)) & ((BigUint::one() << w) - 1u32)), w)));
    add("array::fold", vec![un.clone()], "bool".into(), "a.fold(true, fn |acc, v| acc && v != 0)".into(),
        Box::new(|p| b(p[0].iter().all(|v| !u(v).is_zero()))));
    if n > 0 {
        add("array::reduce", vec![un.clone()], format!("uint<{w}>"), "a.reduce(fn |acc, v| acc +. acc +. v)".into(),
            Box::new(move |p| mk(&p[0][1..].iter().fold(u(&p[0][0]), |acc, v| acc * 2u32 + u(v)), w)));
        let bn = arr("a", &El { ty: "bool".into(), w: 1 }, n);
        for (name, body, k) in [("array::reduce_and", "reduce_and", 0), ("array::reduce_or", "reduce_or", 1), ("array::reduce_xor", "reduce_xor", 2)] {
            let body = if r.bool() { format!("a.{body}()") } else { format!("std::ops::{body}(a)") };
            add(name, vec![bn.clone()], "bool".into(), body, Box::new(move |p| {
                let c = p[0].iter().filter(|v| u(v).is_one()).count();
                b(match k { 0 => c == p[0].len(), 1 => c > 0, _ => c % 2 == 1 })
            }));
        }
    }
    add("array::unfold", vec![x.clone()], format!("[uint<{w}>; {n}]"), format!("std::array::unfold::<uint<{w}>, {n}>(x, fn |v| v +. v +. x)"),
        Box::new(move |p| {
            let x = u(&p[0][0]);
            let mut v = x.clone();
            let mut o = vec![];
            for _ in 0..n {
                o.push(mk(&v, w));
                v = &v * 2u32 + &x;
            }
            pack(&o)
        }));

    // numbers
    let w = width(r);
    let (ut, it) = (format!("uint<{w}>"), format!("int<{w}>"));
    let bt = format!("[bool; {w}]");
    let (ux, uy) = (one("x", &ut, w), one("y", &ut, w));
    let (ix, iy) = (one("x", &it, w), one("y", &it, w));
    let bx = one("x", &bt, w);
    let same: fn() -> Model = || Box::new(|p: &[Vec<LV>]| p[0][0].clone());
    let pick = |r: &mut Rng, v: &[&str]| v[r.below(v.len())].to_string();
    add("conv::int_to_bits", vec![ix.clone()], bt.clone(), pick(r, &["std::conv::int_to_bits(x)", "x.as_bits()", "x.to_bits()"]), same());
    add("conv::bits_to_int", vec![bx.clone()], it.clone(), pick(r, &["std::conv::bits_to_int(x)", "x.as_int()", "x.to_int()"]), same());
    add("conv::uint_to_bits", vec![ux.clone()], bt.clone(), pick(r, &["std::conv::uint_to_bits(x)", "x.as_bits()", "x.to_bits()"]), same());
    add("conv::bits_to_uint", vec![bx.clone()], ut.clone(), pick(r, &["std::conv::bits_to_uint(x)", "x.as_uint()", "x.to_uint()"]), same());
    add("conv::int_to_uint", vec![ix.clone()], ut.clone(), pick(r, &["std::conv::int_to_uint(x)", "x.as_uint()"]), same());
    add("conv::uint_to_int", vec![ux.clone()], it.clone(), pick(r, &["std::conv::uint_to_int(x)", "x.as_int()"]), same());
    add("uint::to_int", vec![ux.clone()], format!("int<{}>", w + 1), "x.to_int()".into(), Box::new(move |p| mk(&u(&p[0][0]), w + 1)));
    add("bool::to_uint", vec![one("x", "bool", 1)], "uint<1>".into(), pick(r, &["x.to_uint()", "x.as_uint()"]), same());
    let (k, m) = (width(r).min(20), 8 * r.range(1, 9));
    let bx8 = one("x", format!("uint<{m}>"), m);
    add("uint::to_le_bytes", vec![bx8.clone()], format!("[uint<8>; {}]", m / 8), "x.to_le_bytes()".into(), same());
    let bytes = |v: &LV| (0..v.w / 8).map(|i| v.slice(8 * i, 8)).collect::<Vec<_>>();
    add("uint::to_be_bytes", vec![bx8.clone()], format!("[uint<8>; {}]", m / 8), "x.to_be_bytes()".into(),
        Box::new(move |p| pack(&bytes(&p[0][0]).into_iter().rev().collect::<Vec<_>>())));
    add("num::concat", vec![ux.clone(), one("y", format!("uint<{k}>"), k)], format!("uint<{}>", w + k),
        pick(r, &["std::num::concat(x, y)", "x.concat(y)", "std::conv::concat(x, y)"]), Box::new(|p| tup(&[p[0][0].clone(), p[1][0].clone()])));
    add("num::concat", vec![ix.clone(), one("y", format!("int<{k}>"), k)], format!("int<{}>", w + k),
        pick(r, &["std::num::concat(x, y)", "x.concat(y)"]), Box::new(|p| tup(&[p[0][0].clone(), p[1][0].clone()])));
    let k = r.range(0, w);
    add("num::trunc", vec![ux.clone()], format!("uint<{k}>"), pick(r, &["trunc(x)", "x.trunc()"]), Box::new(move |p| p[0][0].slice(0, k)));
    add("num::trunc", vec![ix.clone()], format!("int<{k}>"), pick(r, &["trunc(x)", "x.trunc()"]), Box::new(move |p| p[0][0].slice(0, k)));
    let k = w + r.below(40);
    add("num::zext", vec![ux.clone()], format!("uint<{k}>"), "zext(x)".into(), Box::new(move |p| mk(&u(&p[0][0]), k)));
    if w > 0 {
        add("num::sext", vec![ix.clone()], format!("int<{k}>"), "sext(x)".into(), Box::new(move |p| mks(&s(&p[0][0]), k)));
        add("num::abs", vec![ix.clone()], ut.clone(), pick(r, &["std::num::abs(x)", "x.abs()"]), Box::new(move |p| mk(s(&p[0][0]).abs().magnitude(), w)));
        add("ops::abs_trunc", vec![ix.clone()], it.clone(), "std::ops::abs_trunc(x)".into(), Box::new(move |p| mks(&s(&p[0][0]).abs(), w)));
        add("int::max", vec![ix.clone(), iy.clone()], it.clone(), pick(r, &["std::ops::max(x, y)", "x.max(y)"]),
            Box::new(move |p| mks(&s(&p[0][0]).max(s(&p[1][0])), w)));
        add("int::min", vec![ix.clone(), iy.clone()], it.clone(), pick(r, &["std::ops::min(x, y)", "x.min(y)"]),
            Box::new(move |p| mks(&s(&p[0][0]).min(s(&p[1][0])), w)));
        add("ops::order", vec![ix.clone(), iy.clone()], format!("({it}, {it})"), "std::ops::order(x, y)".into(),
            Box::new(move |p| {
                let (x, y) = (s(&p[0][0]), s(&p[1][0]));
                tup(&[mks(&x.clone().min(y.clone()), w), mks(&x.max(y), w)])
            }));
        add("uint::max", vec![ux.clone(), uy.clone()], ut.clone(), "x.max(y)".into(), Box::new(move |p| mk(&u(&p[0][0]).max(u(&p[1][0])), w)));
        add("uint::min", vec![ux.clone(), uy.clone()], ut.clone(), "x.min(y)".into(), Box::new(move |p| mk(&u(&p[0][0]).min(u(&p[1][0])), w)));
        add("int::msb", vec![ix.clone()], "bool".into(), pick(r, &["x.msb()", "x.sign_bit()"]), Box::new(move |p| p[0][0].slice(w - 1, 1)));
        add("int::lsb", vec![ix.clone()], "bool".into(), "x.lsb()".into(), Box::new(move |p| p[0][0].slice(0, 1)));
        add("uint::msb", vec![ux.clone()], "bool".into(), "x.msb()".into(), Box::new(move |p| p[0][0].slice(w - 1, 1)));
        add("uint::lsb", vec![ux.clone()], "bool".into(), "x.lsb()".into(), Box::new(move |p| p[0][0].slice(0, 1)));
        add("ops::comb_div", vec![ux.clone(), uy.clone()], ut.clone(), "std::ops::comb_div(x, y)".into(),
            Box::new(move |p| if u(&p[1][0]).is_zero() { LV::xs(w) } else { mk(&(u(&p[0][0]) / u(&p[1][0])), w) }));
        add("ops::comb_mod", vec![ux.clone(), uy.clone()], ut.clone(), "std::ops::comb_mod(x, y)".into(),
            Box::new(move |p| if u(&p[1][0]).is_zero() { LV::xs(w) } else { mk(&(u(&p[0][0]) % u(&p[1][0])), w) }));
        add("uint::to_gray", vec![ux.clone()], ut.clone(), pick(r, &["x.to_gray().as_bits().as_uint()", "std::ops::bin_to_gray(x)"]),
            Box::new(move |p| mk(&gray(&u(&p[0][0])), w)));
        add("Gray::to_uint", vec![ux.clone()], ut.clone(), "x.to_gray().to_uint()".into(), Box::new(move |p| p[0][0].clone()));
        add("Gray::to_uint", vec![ux.clone()], ut.clone(), pick(r, &["std::ops::gray_to_bin(x)", "std::num::Gray(x).to_uint()"]),
            Box::new(move |p| {
                let g = u(&p[0][0]);
                let mut v = BigUint::zero();
                for i in 0..w {
                    v ^= &g >> i;
                }
                mk(&v, w)
            }));
        add("Gray::eq", vec![ux.clone(), uy.clone()], "(bool, bool)".into(), "(x.to_gray() == y.to_gray(), x.to_gray() != y.to_gray())".into(),
            Box::new(|p| tup(&[b(u(&p[0][0]) == u(&p[1][0])), b(u(&p[0][0]) != u(&p[1][0]))])));
    }
    add("uint::interleave", vec![ux.clone(), uy.clone()], format!("uint<{}>", 2 * w), pick(r, &["x.interleave(y)", "std::ops::interleave(x, y)"]),
        Box::new(|p| {
            let (x, y) = (bits(&p[0][0]), bits(&p[1][0]));
            // even positions: the first number
            pack(&x.into_iter().zip(y).flat_map(|(x, y)| [x, y]).collect::<Vec<_>>())
        }));

    // options
    let w = width(r).max(1);
    let ut = format!("uint<{w}>");
    let ox = one("o", format!("Option<{ut}>"), w + 1);
    let oy = Par { name: "q", ..ox.clone() };
    let ux = one("x", &ut, w);
    add("Option::is_some", vec![ox.clone()], "(bool, bool)".into(), "(o.is_some(), o.is_none())".into(),
        Box::new(|p| { let s = opt(&p[0][0]).is_some(); tup(&[b(s), b(!s)]) }));
    add("Option::unwrap_or", vec![ox.clone(), ux.clone()], ut.clone(), "o.unwrap_or(x)".into(), Box::new(|p| opt(&p[0][0]).unwrap_or(p[1][0].clone())));
    add("Option::unwrap_or_undef", vec![ox.clone()], ut.clone(), "o.unwrap_or_undef()".into(), Box::new(move |p| opt(&p[0][0]).unwrap_or(LV::xs(w))));
    add("Option::map", vec![ox.clone(), ux.clone()], format!("Option<(bool, {ut})>"), "o.map(fn |v| (v > x, v +. x))".into(),
        Box::new(move |p| match opt(&p[0][0]) {
            Some(v) => some(&tup(&[b(u(&v) > u(&p[1][0])), mk(&(u(&v) + u(&p[1][0])), w)])),
            None => none(w + 1),
        }));
    add("Option::and_then", vec![ox.clone(), ux.clone()], format!("Option<{ut}>"), "o.and_then(fn |v| if v > x { Some(v -. x) } else { None })".into(),
        Box::new(move |p| match opt(&p[0][0]) {
            Some(v) if u(&v) > u(&p[1][0]) => some(&mk(&(u(&v) - u(&p[1][0])), w)),
            _ => none(w),
        }));
    add("Option::eq", vec![ox.clone(), oy.clone()], "(bool, bool)".into(), "(o == q, o != q)".into(),
        Box::new(|p| { let e = opt(&p[0][0]).map(|v| u(&v)) == opt(&p[1][0]).map(|v| u(&v)); tup(&[b(e), b(!e)]) }));

    // defaults
    let d = [
        (format!("uint<{w}>"), LV::zeros(w)),
        (format!("int<{w}>"), LV::zeros(w)),
        ("bool".into(), LV::zeros(1)),
        (format!("(uint<{w}>, bool)"), LV::zeros(w + 1)),
        (format!("(bool, uint<{w}>, int<3>)"), LV::zeros(w + 4)),
        (format!("[int<{w}>; 3]"), LV::zeros(3 * w)),
        (format!("Option<uint<{w}>>"), none(w)),
        (format!("[Option<bool>; {n}]"), pack(&vec![none(1); n])),
        (format!("(bool, Option<int<{w}>>, bool, uint<2>)"), tup(&[b(false), none(w), LV::zeros(3)])),
    ];
    let (t, v) = r.pick(&d).clone();
    add("default", vec![], t.clone(), if r.bool() { "std::default::default()".into() } else { format!("std::default::default::<{t}>()") }, Box::new(move |_| v.clone()));
    o
}

fn combinational(r: &mut Rng, out: &mut JobOut) {
    let mut cs = cases(r);
    cs.extend(cases(r));
    r.shuffle(&mut cs);
    cs.truncate(30);
    let mut text = String::new();
    for (i, c) in cs.iter().enumerate() {
        let ps = c.pars.iter().map(|p| format!("{}: {}", p.name, p.ty)).collect::<Vec<_>>().join(", ");
        text.push_str(&format!("fn top{i}({ps}) -> {} {{ {} }}\n", c.ret, c.body));
    }
    let mut c = compile_text(&text, &Opts::default());
    let mut keep: Vec<usize> = (0..cs.len()).collect();
    if c.design.is_none() {
        // find the functions which are rejected
        let mut good = vec![];
        for (i, line) in text.lines().enumerate() {
            let one = compile_text(line, &Opts::default());
            if one.design.is_some() {
                good.push(i);
            } else {
                out.violation(
                    &format!("use of {} is rejected: {}", cs[i].unit, one.syntax_error.clone().unwrap_or(one.run.first_error())),
                    json!({"source": line, "rendered": one.run.rendered}),
                );
            }
        }
        keep = good;
        let t2: String = text.lines().enumerate().filter(|(i, _)| keep.contains(i)).map(|(_, l)| format!("{l}\n")).collect();
        c = compile_text(&t2, &Opts::default());
    }
    let Some(d) = &c.design else { return };
    for i in keep {
        let cs = &cs[i];
        let vs: Vec<Vector> = (0..24)
            .map(|_| {
                let ins: Vec<Vec<LV>> = cs
                    .pars
                    .iter()
                    .map(|p| {
                        let base = random(p.w, r);
                        (0..p.n.unwrap_or(1)).map(|_| if r.chance(1, 4) { base.clone() } else { random(p.w, r) }).collect()
                    })
                    .collect();
                let want = (cs.f)(&ins);
                Vector { ins: ins.iter().map(|v| pack(v)).collect(), want, asserts_failed: false }
            })
            .collect();
        let ports: Vec<String> = cs.pars.iter().map(|p| p.name.to_string()).collect();
        if let Some(m) = run_vectors(d, &format!("top{i}"), &ports, &vs) {
            out.violation(
                &format!("std::{} does not compute what it is documented to", cs.unit),
                json!({"what": m.what, "mismatch": m.detail, "source": text.lines().nth(i)}),
            );
        }
        out.evals += vs.len() as u64;
        out.stat("function vectors", vs.len() as u64);
        out.key(&(cs.unit, &cs.ret, cs.pars.iter().map(|p| p.ty.clone()).collect::<Vec<_>>()));
        out.stat(&format!("unit {}", cs.unit), 1);
    }
    out.sample(text.lines().take(3).collect::<Vec<_>>().join(" "));
}

// ---- the examples of the documentation ----

struct Doc {
    file: &'static str,
    line: usize,
    text: String,
}
const DIRS: &[&str] = &["/repo/spade-compiler/stdlib", "/repo/spade-compiler/core"];

fn docs() -> Vec<Doc> {
    let mut o = vec![];
    for d in DIRS {
        let mut fs: Vec<_> = std::fs::read_dir(d).map(|x| x.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        fs.sort();
        for f in fs {
            let Ok(t) = std::fs::read_to_string(&f) else { continue };
            let name: &'static str = Box::leak(f.to_string_lossy().trim_start_matches("/repo/").to_string().into_boxed_str());
            let mut cur: Option<(usize, String)> = None;
            for (i, l) in t.lines().enumerate() {
                let l = l.trim();
                let Some(l) = l.strip_prefix("///").or(l.strip_prefix("//!")) else {
                    cur = None;
                    continue;
                };
                let l = l.trim();
                if l.starts_with("```") {
                    match cur.take() {
                        Some((line, text)) => {
                            if text.contains("assert ") {
                                o.push(Doc { file: name, line, text });
                            }
                        }
                        None if l == "```spade" => cur = Some((i + 1, String::new())),
                        None => {}
                    }
                } else if let Some((_, t)) = &mut cur {
                    t.push_str(l);
                    t.push('\n');
                }
            }
        }
    }
    o
}

/// every `assert e;` becomes an element of the returned array
fn example(text: &str) -> (String, usize) {
    let mut n = 0;
    let mut o = String::new();
    for l in text.lines() {
        let l = l.split("//").next().unwrap().trim_end();
        match l.strip_prefix("assert ") {
            Some(e) => {
                o.push_str(&format!("    let check{n}: bool = {e}\n"));
                n += 1;
            }
            None => o.push_str(&format!("    {l}\n")),
        }
    }
    let all = (0..n).map(|i| format!("check{i}")).collect::<Vec<_>>().join(", ");
    (format!("entity top() -> [bool; {n}] {{\n{o}    [{all}]\n}}\n"), n)
}

fn documentation(out: &mut JobOut, part: usize, parts: usize) {
    for (k, d) in docs().into_iter().enumerate() {
        if k % parts != part {
            continue;
        }
        let (t, n) = example(&d.text);
        let imports: String = ["unfold => std::array::unfold", "comb_div => std::ops::comb_div", "comb_mod => std::ops::comb_mod"]
            .iter()
            .filter_map(|x| x.split_once(" => "))
            .filter(|(a, _)| t.contains(&format!("{a}(")) || t.contains(&format!("`{a}`")) || t.contains(&format!("{a}::")))
            .map(|(_, b)| format!("use {b};\n"))
            .collect();
        let t = format!("{imports}{t}");
        let c = compile_text(&t, &Opts::default());
        let at = format!("{}:{}", d.file, d.line);
        out.key(&at);
        let Some(de) = &c.design else {
            out.violation(
                "an example of the documentation is rejected",
                json!({"example": at, "source": t, "error": c.run.first_error(), "rendered": c.run.rendered}),
            );
            continue;
        };
        let want = LV::zeros(n).bitnot();
        let v = [Vector { ins: vec![], want, asserts_failed: false }];
        if let Some(m) = run_vectors(de, "top", &[], &v) {
            out.violation("an example of the documentation does not hold", json!({"example": at, "source": t, "mismatch": m.detail, "what": m.what}));
        }
        out.evals += n as u64;
        out.stat("documented assertions", n as u64);
    }
}

// ---- units with state ----

struct Bench {
    sim: Sim,
    text: String,
    log: Vec<String>,
}
impl Bench {
    fn new(text: &str, out: &mut JobOut) -> Option<Bench> {
        let c = compile_text(text, &Opts::default());
        let Some(d) = &c.design else {
            out.violation("use of a documented unit is rejected", json!({"source": text, "error": c.run.first_error(), "rendered": c.run.rendered}));
            return None;
        };
        Bench::from(d, text, out)
    }
    fn from(d: &Design, text: &str, out: &mut JobOut) -> Option<Bench> {
        match Sim::new(d, "top", &mut vec![]) {
            Ok(sim) => Some(Bench { sim, text: text.into(), log: vec![] }),
            Err(e) => {
                out.violation("design cannot be elaborated", json!({"source": text, "error": e}));
                None
            }
        }
    }
    fn set(&mut self, p: &str, v: &LV) {
        if v.w > 0 {
            self.sim.set(p, v);
        }
    }
    fn bit(&mut self, p: &str, v: bool) {
        self.sim.set(p, &b(v));
    }
    fn settle(&mut self) {
        let _ = self.sim.settle();
    }
    fn out(&self) -> LV {
        self.sim.get("output__")
    }
    fn note(&mut self, s: String) {
        self.log.push(s);
        if self.log.len() > 40 {
            self.log.remove(0);
        }
    }
    fn bad(&self, out: &mut JobOut, unit: &str, what: &str, detail: String) {
        out.violation(&format!("{unit}: {what}"), json!({"source": self.text, "what": detail, "events": self.log}));
    }
}

fn edge(b: &mut Bench, clks: &[&str]) {
    for c in clks {
        b.bit(c, true);
    }
    b.settle();
    for c in clks {
        b.bit(c, false);
    }
    b.settle();
}

/// how two clocks interleave
fn clocks(mode: usize, t: usize, r: &mut Rng) -> (bool, bool) {
    match mode {
        0 => (true, true),
        1 => {
            let a = r.bool();
            (a, !a)
        }
        2 => (t % 5 == 0, true),
        3 => (true, t % 7 == 3),
        4 => (t % 3 == 0, t % 2 == 0),
        5 => *r.pick(&[(true, false), (false, true), (true, true)]),
        // bursts of one clock
        _ => {
            let burst = (t / 13) % 3;
            match burst {
                0 => (true, false),
                1 => (false, true),
                _ => (true, true),
            }
        }
    }
}

fn fifo(r: &mut Rng, out: &mut JobOut, steps: usize) {
    let aw = r.range(1, 4);
    let cap = 1usize << aw;
    let w = *r.pick(&[1usize, 4, 8, 33, 70]);
    let text = format!(
        "entity top(wc: clock, wr: bool, rc: clock, rr: bool, w: Option<uint<{w}>>, ack: bool) -> (bool, Option<uint<{w}>>, uint<{aw}>) {{
    let (fw, fr) = inst std::mem::fifo::<{aw}, uint<{w}>, {cap}>$(write_clk: wc, write_rst: wr, read_clk: rc, read_rst: rr);
    set fw.write = w;
    set fr.ack = ack;
    (fw.full, fr.read, fr.num_elements)
}}\n"
    );
    let Some(mut be) = Bench::new(&text, out) else { return };
    let mode = r.below(7);
    be.bit("wc_i", false);
    be.bit("rc_i", false);
    be.bit("ack_i", false);
    be.set("w_i", &none(w));
    be.bit("wr_i", true);
    be.bit("rr_i", true);
    for _ in 0..6 {
        edge(&mut be, &["wc_i", "rc_i"]);
    }
    be.bit("wr_i", false);
    be.bit("rr_i", false);
    let mut q: VecDeque<BigUint> = VecDeque::new();
    let (mut pushed, mut popped, mut was_full, mut was_empty, mut order) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut t = 0usize;
    let mut quiet = 0;
    loop {
        let draining = t >= steps;
        let phase = (t / 60) % 4;
        let (pw, pa) = match phase {
            0 => (1, 1),
            1 => (3, 1),
            2 => (1, 3),
            _ => (4, 4),
        };
        let want_push = !draining && r.chance(pw, 4);
        let v = mk(&BigUint::from(r.next()), w);
        let ack = draining || r.chance(pa, 4);
        be.set("w_i", &if want_push { some(&v) } else { none(w) });
        be.bit("ack_i", ack);
        be.settle();
        let o = be.out();
        let full = o.slice(o.w - 1, 1);
        let read = o.slice(aw, w + 1);
        let num = o.slice(0, aw);
        let (Some(full), Some(tag), Some(num)) = (full.to_u64(), read.slice(w, 1).to_u64(), num.to_u64()) else {
            return be.bad(out, "std::mem::fifo", "undefined status", format!("step {t}: {}", o.to_bin()));
        };
        let (cw, cr) = if draining { clocks(if mode == 1 { 5 } else { mode }, t, r) } else { clocks(mode, t, r) };
        be.note(format!("step {t}: push {want_push} ack {ack} full {full} output {} clocks {cw} {cr} model holds {}", o.to_bin(), q.len()));
        order = order.wrapping_mul(31).wrapping_add((cw as u64) * 2 + cr as u64 + 4 * full + 8 * tag);
        if tag == 1 {
            match (q.front(), read.slice(0, w).to_biguint()) {
                (None, _) => return be.bad(out, "std::mem::fifo", "offers an element although it is empty", format!("step {t}")),
                (Some(a), Some(g)) if *a == g => {}
                (Some(a), _) => {
                    return be.bad(out, "std::mem::fifo", "offers an element which is not the oldest", format!("step {t}: {} instead of {a}", read.to_bin()));
                }
            }
        } else {
            was_empty += 1;
        }
        if num > q.len() as u64 {
            return be.bad(out, "std::mem::fifo", "num_elements exceeds the number of elements", format!("step {t}: {num} with {}", q.len()));
        }
        if full == 1 {
            was_full += 1;
        } else if q.len() >= cap {
            return be.bad(out, "std::mem::fifo", "accepts more elements than it has room for", format!("step {t}"));
        }
        if cr && ack && tag == 1 {
            q.pop_front();
            popped += 1;
        }
        if cw && want_push && full == 0 {
            q.push_back(u(&v));
            pushed += 1;
        }
        let mut cl = vec![];
        if cw {
            cl.push("wc_i");
        }
        if cr {
            cl.push("rc_i");
        }
        edge(&mut be, &cl);
        t += 1;
        if draining {
            if q.is_empty() && tag == 0 && full == 0 {
                quiet += 1;
            } else {
                quiet = 0;
            }
            if quiet > 20 {
                break;
            }
            if t > steps + 600 {
                return be.bad(out, "std::mem::fifo", "does not deliver everything or stays full", format!("{} left, full {full}", q.len()));
            }
        }
    }
    // several slots are usable
    if cap > 2 && mode == 6 && was_full == 0 {
        out.stat("fifo runs never full", 1);
    }
    out.evals += t as u64;
    out.key(&(aw, w, mode, order));
    out.stat("fifo runs", 1);
    out.stat("fifo elements delivered", popped);
    out.stat("fifo elements accepted", pushed);
    out.stat("fifo steps with full set", was_full);
    out.stat("fifo steps with nothing to read", was_empty);
}

fn small_units(r: &mut Rng, out: &mut JobOut, steps: usize) {
    let w = *r.pick(&[1usize, 3, 8, 65]);
    let n = r.range(1, 5);
    let depth = r.range(1, 4);
    let text = format!(
        "entity top(clk: clock, rst: bool, v: bool, o: Option<uint<{w}>>, d: uint<{w}>) -> (bool, bool, bool, uint<{w}>, Option<[uint<{w}>; {n}]>, Option<[uint<{w}>; {n}]>, Option<uint<{w}>>) {{
    let a = inst std::io::rising_edge(clk, v);
    let b = inst std::io::falling_edge(clk, v);
    let c = inst std::cdc::sync2_bool(clk, v);
    let e = unsafe {{ inst std::cdc::sync2(clk, d) }};
    let f = o.inst padded_sliding_window::<{n}>(clk, rst, d);
    let g = o.inst chunks::<{n}>(clk, rst);
    let h = o.inst({depth}) pmap(clk, pipeline({depth}) |clk, x| {{ reg*{depth}; x +. 1 }});
    (a, b, c, e, f, g, h)
}}\n"
    );
    let Some(mut be) = Bench::new(&text, out) else { return };
    be.bit("clk_i", false);
    let pad = random(w, r);
    let mut window: Option<Vec<LV>> = None;
    let mut chunk: Option<Vec<LV>> = None;
    let mut hist: Vec<(bool, LV, LV)> = vec![];
    for t in 0..steps {
        let rst = t < 3 || r.chance(1, 40);
        let v = r.bool();
        let x = random(w, r);
        // the padding value has to be there while the reset is active
        let d = if rst { pad.clone() } else { random(w, r) };
        let o = if r.chance(2, 3) { some(&x) } else { none(w) };
        be.bit("rst_i", rst);
        be.bit("v_i", v);
        be.set("d_i", &d);
        be.set("o_i", &o);
        if rst {
            window = Some(vec![pad.clone(); n]);
            chunk = Some(vec![]);
        }
        be.settle();
        let got = be.out();
        let aw = n * w + 1;
        let old = hist.last().map(|h| h.0);
        let undef = LV::xs(1);
        let ago = |k: usize| if hist.len() >= k { Some(&hist[hist.len() - k]) } else { None };
        let mut parts = vec![
            old.map(|q| b(v && !q)).unwrap_or(undef.clone()),
            old.map(|q| b(!v && q)).unwrap_or(undef.clone()),
            ago(2).map(|h| b(h.0)).unwrap_or(undef.clone()),
            ago(2).map(|h| h.1.clone()).unwrap_or(LV::xs(w)),
        ];
        // outputs during a reset are not documented
        let val = opt(&o);
        let (mut fw, mut cw) = (LV::xs(aw), LV::xs(aw));
        if !rst {
            if let Some(k) = &window {
                fw = match &val {
                    Some(x) => {
                        let mut k = k.clone();
                        k.insert(0, x.clone());
                        k.truncate(n);
                        some(&pack(&k))
                    }
                    None => none(n * w),
                };
            }
            if let Some(k) = &chunk {
                cw = match &val {
                    Some(x) if k.len() + 1 == n => {
                        let mut k = k.clone();
                        k.push(x.clone());
                        some(&pack(&k))
                    }
                    _ => none(n * w),
                };
            }
        }
        parts.push(fw);
        parts.push(cw);
        parts.push(match ago(depth) {
            Some(h) => match opt(&h.2) {
                Some(x) => some(&mk(&(u(&x) + 1u32), w)),
                None => none(w),
            },
            None => LV::xs(w + 1),
        });
        be.note(format!("cycle {t}: rst {rst} v {v} d {} o {} -> {}", d.to_bin(), o.to_bin(), got.to_bin()));
        let mut hi = got.w;
        let names = ["io::rising_edge", "io::falling_edge", "cdc::sync2_bool", "cdc::sync2", "Option::padded_sliding_window", "Option::chunks", "Option::pmap"];
        for (p, unit) in parts.iter().zip(names) {
            hi -= p.w;
            let g = got.slice(hi, p.w);
            if !agrees(p, &g) {
                return be.bad(out, &format!("std::{unit}"), "differs from its documentation", format!("cycle {t}: expected {} got {}", p.to_bin(), g.to_bin()));
            }
            out.evals += 1;
        }
        edge(&mut be, &["clk_i"]);
        if !rst {
            if let Some(x) = val {
                if let Some(k) = &mut window {
                    k.insert(0, x.clone());
                    k.truncate(n);
                }
                if let Some(k) = &mut chunk {
                    k.push(x);
                    if k.len() == n {
                        k.clear();
                    }
                }
            }
        }
        hist.push((v, d, o));
    }
    out.key(&("small", w, n, depth));
    out.stat("clocked unit runs", 1);
}

fn crossing(r: &mut Rng, out: &mut JobOut, steps: usize) {
    let w = *r.pick(&[1usize, 5, 16, 70]);
    let text = format!(
        "entity top(a: clock, b: clock, rst: bool, d: uint<{w}>, i: uint<{w}>, p: Option<uint<{w}>>) -> (uint<{w}>, Option<uint<{w}>>) {{
    let x = inst std::cdc::sync_wide$(source_clk: a, rst, input: d, init: i, dest_clk: b);
    let y = unsafe {{ inst std::cdc::handshake$(from_clk: a, rst, data: p, to_clk: b) }};
    (x, y)
}}\n"
    );
    let Some(mut be) = Bench::new(&text, out) else { return };
    let mode = *r.pick(&[0usize, 1, 4, 5]);
    let init = random(w, r);
    for c in ["a_i", "b_i"] {
        be.bit(c, false);
    }
    be.bit("rst_i", true);
    be.set("d_i", &LV::zeros(w));
    be.set("i_i", &init);
    be.set("p_i", &none(w));
    for _ in 0..6 {
        edge(&mut be, &["a_i", "b_i"]);
    }
    be.bit("rst_i", false);
    // what the source showed at its clock edges, and where the destination is in it
    let mut seen: Vec<BigUint> = vec![];
    let mut at: Option<usize> = None;
    let mut d = random(w, r);
    let mut held = 0;
    let mut pending: Option<LV> = None;
    let (mut gap, mut sent, mut received, mut changes, mut waits) = (30usize, 0u64, 0u64, 0u64, 0usize);
    for t in 0..steps {
        let settle_phase = (t / 200) % 2 == 1;
        if !settle_phase && r.chance(1, 3) {
            d = random(w, r);
            held = 0;
        }
        held += 1;
        // one pulse at a time, with enough distance
        gap += 1;
        let pulse = if gap > 60 && pending.is_none() && r.chance(1, 4) { Some(random(w, r)) } else { None };
        let (ca, cb) = clocks(mode, t, r);
        be.set("d_i", &d);
        be.set("p_i", &match (&pulse, ca) {
            (Some(v), true) => some(v),
            _ => none(w),
        });
        be.settle();
        let o = be.out();
        let x = o.slice(w + 1, w);
        let y = o.slice(0, w + 1);
        be.note(format!("step {t}: input {} pulse {:?} clocks {ca} {cb} output {}", d.to_bin(), pulse.as_ref().map(|p| p.to_bin()), o.to_bin()));
        let Some(xv) = x.to_biguint() else {
            return be.bad(out, "std::cdc::sync_wide", "undefined output", format!("step {t}: {}", x.to_bin()));
        };
        // the output is the initial value or something that was at the input, in order
        let from = at.unwrap_or(0);
        if at.is_none() && xv == u(&init) {
        } else if at.is_some_and(|k| seen[k] == xv) {
        } else {
            match (from..seen.len()).find(|k| seen[*k] == xv) {
                Some(k) => {
                    at = Some(k);
                    changes += 1;
                }
                None => return be.bad(out, "std::cdc::sync_wide", "shows a value that was not sent or is out of order", format!("step {t}: {}", x.to_bin())),
            }
        }
        if held > 150 && xv != u(&d) {
            return be.bad(out, "std::cdc::sync_wide", "does not show a value held for long", format!("step {t}: {}", x.to_bin()));
        }
        // the handshake: sampled at every edge of the receiver
        if cb {
            match opt(&y) {
                Some(v) => match pending.take() {
                    Some(p) if agrees(&p, &v) => received += 1,
                    p => {
                        return be.bad(out, "std::cdc::handshake", "delivers something that was not sent", format!("step {t}: {} instead of {:?}", y.to_bin(), p.map(|p| p.to_bin())));
                    }
                },
                None if y.slice(w, 1).has_x() => return be.bad(out, "std::cdc::handshake", "undefined output", format!("step {t}: {}", y.to_bin())),
                None => {}
            }
        }
        if pending.is_some() {
            waits += 1;
            if waits > 100 {
                return be.bad(out, "std::cdc::handshake", "loses a pulse", format!("step {t}"));
            }
        }
        if ca {
            seen.push(u(&d));
            if let Some(p) = pulse {
                pending = Some(p);
                sent += 1;
                gap = 0;
                waits = 0;
            }
        }
        let mut cl = vec![];
        if ca {
            cl.push("a_i");
        }
        if cb {
            cl.push("b_i");
        }
        edge(&mut be, &cl);
        out.evals += 1;
    }
    out.key(&("cdc", w, mode, changes, sent));
    out.stat("crossing runs", 1);
    out.stat("values seen through sync_wide", changes);
    out.stat("pulses sent through handshake", sent);
    out.stat("pulses received", received);
}

fn bram(r: &mut Rng, out: &mut JobOut, steps: usize) {
    let aw = r.range(1, 4);
    let n = 1usize << aw;
    let w = *r.pick(&[1usize, 7, 64, 80]);
    let old = r.bool();
    let read = if old { "inst(1) std::mem::read_read_port(b, ra, r)" } else { "r.inst(1) read(b, ra)" };
    let text = format!(
        "entity top(a: clock, b: clock, wa: uint<{aw}>, w: Option<uint<{w}>>, ra: uint<{aw}>) -> uint<{w}> {{
    let (p, r) = inst std::mem::dp_bram::<{aw}, uint<{w}>, {n}>(a, b);
    p.write(wa, w);
    {read}
}}\n"
    );
    let Some(mut be) = Bench::new(&text, out) else { return };
    be.bit("a_i", false);
    be.bit("b_i", false);
    let mut mem: Vec<LV> = vec![LV::xs(w); n];
    let mut last = LV::xs(w);
    let mode = r.below(6);
    for t in 0..steps {
        let (ca, cb) = clocks(mode, t, r);
        let (wa, ra) = (r.below(n), r.below(n));
        let v = random(w, r);
        let wr = r.bool();
        be.set("wa_i", &LV::from_u64(wa as u64, aw));
        be.set("ra_i", &LV::from_u64(ra as u64, aw));
        be.set("w_i", &if wr { some(&v) } else { none(w) });
        let mut cl = vec![];
        if ca {
            cl.push("a_i");
        }
        if cb {
            cl.push("b_i");
        }
        edge(&mut be, &cl);
        if cb {
            // the same address at the same time is undefined
            last = if ca && wr && wa == ra { LV::xs(w) } else { mem[ra].clone() };
        }
        if ca && wr {
            mem[wa] = v;
        }
        let o = be.out();
        be.note(format!("step {t}: write {wr} at {wa} read at {ra} clocks {ca} {cb} output {}", o.to_bin()));
        if !agrees(&last, &o) {
            return be.bad(out, "std::mem::dp_bram", "does not return what was written", format!("step {t}: expected {} got {}", last.to_bin(), o.to_bin()));
        }
        out.evals += 1;
    }
    out.key(&("bram", aw, w, mode));
    out.stat("memory runs", 1);
}

fn c16_run(ctx: &Ctx, job: usize, r: &mut Rng, out: &mut JobOut) {
    const PARTS: usize = 8;
    if job < PARTS {
        return documentation(out, job, PARTS);
    }
    let deep = if ctx.thorough { 4 } else { 1 };
    match job % 8 {
        0 | 1 => fifo(r, out, 900 * deep),
        2 => {
            small_units(r, out, 200 * deep);
            bram(r, out, 300 * deep)
        }
        3 => crossing(r, out, 1500 * deep),
        _ => combinational(r, out),
    }
}

pub fn c16() -> CheckDef {
    CheckDef {
        id: "C16",
        jobs: |t| if t { 20_000 } else { 200 },
        run: c16_run,
        rule: "workload: (a) every example with assertions in the documentation of the standard and core libraries; (b) about 65 library functions (arrays, numbers, conversions, Gray code, options, defaults) at random element types, widths (0, 1, around 32 and 64, up to 100) and lengths (0 to 13), called free or as methods, with random and edge values; (c) the FIFO with 2 to 16 slots under seven ways of interleaving its clocks and alternating pressure, edge detectors, synchronisers, sliding window, chunks, pmap, sync_wide, handshake and the dual-port memory. Oracle: a reference computation of each function on the input bits; for the FIFO an online monitor over the events at each clock edge (exactly once, in order, never from empty, never beyond capacity, count conservative, everything delivered and full released after draining); for crossings that only sent values appear, in order, held values arrive, and one pulse gives one pulse",
        assumptions: &["clock edges are simulated without metastability; edges that coincide sample the old values", "FIFO address width and number of elements agree, as its documentation demands", "Option::chunks is compared with the table in its documentation"],
        crash_is_violation: true,
    }
}
