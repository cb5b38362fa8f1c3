//! C11: no text makes the compiler panic, die or run for ever; a failed run reports an error and
//! leaves the requested files alone; every span lies in its file.
use crate::checks::form::corpus;
use crate::comp::{self, Opts, Outcome, Run, Src};
use crate::exec::source;
use crate::rng::Rng;
use crate::runner::{CheckDef, Ctx, JobOut};
use crate::spadelex::{lex, Tok, KEYWORDS, K};
use serde_json::json;

const PER_JOB: usize = 24;

/// what does a panic say, without the data in it
pub fn panic_key(m: &str) -> String {
    let (msg, loc) = m.rsplit_once(" at ").unwrap_or((m, ""));
    let file = loc.split(':').next().unwrap_or("").trim_start_matches("/repo/").trim_start_matches("/tmp/wt/");
    // the standard library's own files are named by the toolchain
    let file = if file.contains("/rustc/") || file.contains("registry") { file.rsplit('/').next().unwrap() } else { file };
    let mut t = String::new();
    let mut last = ' ';
    for c in msg.lines().next().unwrap_or("").chars() {
        if "{[(\"`'".contains(c) {
            break;
        }
        let c = if c.is_ascii_digit() { '#' } else { c };
        let c = if c == ' ' { '-' } else { c };
        if c == '#' && last == '#' || c == '-' && last == '-' {
            continue;
        }
        last = c;
        t.push(c);
    }
    let t: String = t.chars().take(60).collect();
    format!("{file}:{}", t.trim_end_matches(['-', ':']))
}

fn groups(t: &[Tok]) -> Vec<(usize, usize)> {
    let mut st: Vec<usize> = vec![];
    let mut v = vec![];
    for (i, k) in t.iter().enumerate() {
        if k.k != K::Punct {
            continue;
        }
        match k.t.as_str() {
            "(" | "[" | "{" => st.push(i),
            ")" | "]" | "}" => {
                if let Some(s) = st.pop() {
                    v.push((s, i + 1));
                }
            }
            _ => {}
        }
    }
    v
}

/// statements and items: pieces that end in `;` or a closing brace at one nesting level
fn pieces(t: &[Tok]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut starts = vec![0];
    for (i, k) in t.iter().enumerate() {
        match k.t.as_str() {
            "{" | "(" | "[" => starts.push(i + 1),
            "}" | ")" | "]" => {
                if starts.len() > 1 {
                    let s = starts.pop().unwrap();
                    if s < i {
                        v.push((s, i));
                    }
                }
                if k.t == "}" {
                    let l = starts.last_mut().unwrap();
                    v.push((*l, i + 1));
                    *l = i + 1;
                }
            }
            ";" | "," => {
                let l = starts.last_mut().unwrap();
                v.push((*l, i + 1));
                *l = i + 1;
            }
            _ => {}
        }
    }
    v
}

pub fn text(t: &[Tok]) -> String {
    let mut s = String::new();
    for k in t {
        s.push_str(&k.t);
        s.push(if k.k == K::Doc || k.t == ";" || k.t == "{" { '\n' } else { ' ' });
    }
    s
}

fn tok(k: K, t: &str) -> Tok {
    Tok { k, t: t.into(), at: (0, 0) }
}

const NUMBERS: [&str; 16] =
    ["0", "1", "2", "3", "7", "8", "31", "64", "65", "100", "0u8", "1i4", "0xff", "0b1", "255u", "18446744073709551616"];
const TYPES: [&str; 20] = [
    "bool", "clock", "()", "uint<8>", "int<8>", "uint<0>", "int<0>", "[bool; 0]", "[uint<4>; 3]", "(bool, uint<3>)",
    "Option<bool>", "inv &bool", "&uint<4>", "inv clock", "tri bool", "uint<{1 + 2}>", "_", "(inv bool, bool)",
    "Option<Option<()>>", "[[bool; 2]; 2]",
];
const EXPRS: [&str; 34] = [
    "true", "()", "(1, 2)", "[]", "[true; 3]", "x[0]", "x.0", "x.a", "f(1)", "inst f(x)", "inst(2) f(x)", "x.f()", "!x", "-x",
    "*x", "&x", "~x", "x::y", "if x {1} else {2}", "match x { _ => 1 }", "fn |x| { x }", "port", "inst new_mut_wire()",
    "unsafe { x }", "stage.valid", "stage(-1).x", "stage(l).x", "\"a\"", "'a'", "x[0..2]", "{ let a = 1; a }", "Some(x)", "None", "HIGHIMP",
];
const STMTS: [&str; 24] = [
    "let x = y;", "let wire x;", "decl x;", "set x = y;", "reg;", "reg*2;", "reg[true];", "'l", "assert true;",
    "reg(clk) r = r;", "reg(clk) r reset(rst: 0) = r;", "reg(clk) r initial(0) = r;", "let (a, b) = x;", "let [a, ..] = x;",
    "struct S { a: bool }", "enum E { A, B { x: bool } }", "fn f() -> bool { true }", "use lib::a::b;", "mod m { }", "trait T { fn t(self) -> bool; }",
    "impl T for bool { fn t(self) -> bool { self } }", "type A = bool;", "extern entity e(clk: clock);", "gen if true {1} else {2};",
];

fn pool(r: &mut Rng, toks: &[Tok]) -> Vec<Tok> {
    match r.below(12) {
        0 => vec![tok(K::Ident, *r.pick(&KEYWORDS))],
        1 => vec![tok(
            K::Punct,
            *r.pick(&[
                "(", ")", "[", "]", "{", "}", "<", ">", ",", ";", ":", "::", ".", "..", "->", "=>", "=", "==", "+", "-", "*", "/",
                "&", "|", "^", "!", "~", "#", "$", "@", "?", "`", ">>", "<<", "&&",
            ]),
        )],
        2 => vec![tok(K::Int, *r.pick(&NUMBERS))],
        3 => lex(*r.pick(&TYPES)).unwrap_or_default(),
        4 => lex(*r.pick(&EXPRS)).unwrap_or_default(),
        5 => lex(*r.pick(&STMTS)).unwrap_or_default(),
        6 | 7 => {
            let g = groups(toks);
            if g.is_empty() {
                return vec![];
            }
            let (a, b) = *r.pick(&g);
            toks[a..b].to_vec()
        }
        8 => {
            let g = pieces(toks);
            if g.is_empty() {
                return vec![];
            }
            let (a, b) = *r.pick(&g);
            toks[a..b].to_vec()
        }
        _ => vec![r.pick(toks).clone()],
    }
}

/// names are replaced by names of the same program most of the time
fn mutate(toks: &mut Vec<Tok>, r: &mut Rng) -> &'static str {
    if toks.is_empty() {
        toks.push(tok(K::Ident, "fn"));
    }
    let n = toks.len();
    let i = r.below(n);
    match r.below(14) {
        0 => {
            toks.remove(i);
            "a token removed"
        }
        1 => {
            let t = toks[i].clone();
            toks.insert(i, t);
            "a token repeated"
        }
        2 => {
            let j = r.below(n);
            toks.swap(i, j);
            "two tokens swapped"
        }
        3 => {
            let p = pool(r, toks);
            toks.splice(i..i, p);
            "something inserted"
        }
        4 => {
            let p = pool(r, toks);
            toks.splice(i..i + 1, p);
            "a token replaced"
        }
        5 | 6 | 7 => {
            let ids: Vec<usize> =
                (0..n).filter(|i| toks[*i].k == K::Ident && !KEYWORDS.contains(&toks[*i].t.as_str())).collect();
            if ids.len() > 1 {
                let (a, b) = (*r.pick(&ids), *r.pick(&ids));
                toks[a].t = toks[b].t.clone();
            }
            "a name replaced by another"
        }
        8 => {
            let is: Vec<usize> = (0..n).filter(|i| toks[*i].k == K::Int).collect();
            if !is.is_empty() {
                let a = *r.pick(&is);
                toks[a].t = r.pick(&NUMBERS).to_string();
            }
            "a number replaced"
        }
        9 | 10 => {
            let g = groups(toks);
            if !g.is_empty() {
                let (a, b) = *r.pick(&g);
                let p = match r.below(3) {
                    0 => vec![],
                    1 => {
                        let (c, d) = *r.pick(&g);
                        toks[c..d].to_vec()
                    }
                    _ => pool(r, toks),
                };
                toks.splice(a..b, p);
            }
            "a bracketed group replaced"
        }
        11 => {
            let g = pieces(toks);
            if !g.is_empty() {
                let (a, b) = *r.pick(&g);
                toks.drain(a..b);
            }
            "a statement removed"
        }
        12 => {
            let g = pieces(toks);
            if !g.is_empty() {
                let (a, b) = *r.pick(&g);
                let (c, _) = *r.pick(&g);
                let p = toks[a..b].to_vec();
                toks.splice(c..c, p);
            }
            "a statement copied"
        }
        _ => {
            // type after a colon
            let cs: Vec<usize> = (0..n.saturating_sub(1)).filter(|i| toks[*i].t == ":" || toks[*i].t == "->").collect();
            if !cs.is_empty() {
                let c = *r.pick(&cs);
                let mut e = c + 2;
                if e < n && toks[c + 1].k == K::Ident && toks[e].t == "<" {
                    let mut d = 0;
                    while e < n {
                        d += (toks[e].t == "<") as i32 - (toks[e].t == ">") as i32 - 2 * (toks[e].t == ">>") as i32;
                        e += 1;
                        if d <= 0 {
                            break;
                        }
                    }
                }
                let t = lex(*r.pick(&TYPES)).unwrap_or_default();
                toks.splice(c + 1..e, t);
            }
            "a type replaced"
        }
    }
}

fn garble(s: &str, r: &mut Rng) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 4) {
        let i = r.below(cs.len() + 1);
        let junk: Vec<char> = match r.below(10) {
            0 => vec!['\0'],
            1 => "/*".chars().collect(),
            2 => "*/".chars().collect(),
            3 => vec!['"'],
            4 => vec!['\''],
            5 => "é漢🦀\u{301}".chars().collect(),
            6 => vec!['\r'],
            7 => vec!['\u{feff}'],
            8 => vec![char::from_u32(r.below(0x2fff) as u32).unwrap_or(' ')],
            _ => vec![(r.below(127) as u8) as char],
        };
        match r.below(3) {
            0 => {
                cs.splice(i..i, junk);
            }
            1 if i < cs.len() => {
                cs.splice(i..i + 1, junk);
            }
            _ => cs.truncate(i),
        }
    }
    cs.into_iter().collect()
}

/// constructs nested n deep
fn nested(r: &mut Rng) -> (String, &'static str) {
    let n = r.range(5, 60);
    let kind = r.below(22);
    // the size of the type grows with its own depth
    let n = if kind == 7 || kind == 13 { n.min(7) } else { n };
    let rep = |a: &str, b: &str, c: &str| format!("{}{b}{}", a.repeat(n), c.repeat(n));
    let e = |x: String| format!("fn top(a: bool, b: uint<8>) -> bool {{ let x = {x}; true }}");
    let ty = |x: String| format!("fn top(a: {x}) -> bool {{ true }}");
    match kind {
        0 => (e(rep("(", "a", ")")), "parentheses"),
        1 => (e(rep("{", "a", "}")), "blocks"),
        2 => (e(rep("!", "a", "")), "negations"),
        3 => (e(rep("if a {", "a", "} else { a }")), "conditionals"),
        4 => (e(rep("match a { true => ", "a", ", _ => a }")), "matches"),
        5 => (e(rep("[", "a", "]")), "arrays"),
        6 => (e(rep("(", "a", ",)")), "tuples"),
        7 => (e(rep("Some(", "a", ")")), "options"),
        8 => (e(rep("a && ", "a", "")), "conjunctions"),
        9 => (e(rep("a == ", "a", "")), "comparisons"),
        10 => (e(format!("trunc({})", rep("(trunc(", "b", " + 1))"))), "sums"),
        11 => (ty(rep("(", "bool", ",)")), "tuple types"),
        12 => (ty(rep("[", "bool", "; 1]")), "array types"),
        13 => (ty(rep("Option<", "bool", " >")), "generic types"),
        14 => (rep("mod m {", "", "}"), "modules"),
        15 => (rep("/*", "x", "*/"), "comments"),
        16 => (e(rep("(", "", "")), "open parentheses"),
        17 => (e(rep("{", "", "")), "open braces"),
        18 => (e(rep("fn |x| {", "a", "}")), "lambdas"),
        19 => (format!("fn top(a: bool) -> bool {{ match a {{ {} => true, _ => false }} }}", rep("(", "a", ",)")), "patterns"),
        20 => (e(format!("a{}", ".0".repeat(n))), "fields"),
        _ => (e(rep("a(", "a", ")")), "calls"),
    }
}

/// small programs whose holes take sizes, literals, types and expressions at the edges of what is legal
const EDGES: &[&str] = &[
    "fn top() -> $T { $L }",
    "fn top(a: $T) -> $T { a }",
    "fn top(a: $T, b: $T) -> $T { a $O b }",
    "fn top(a: $T) -> bool { a $C $L }",
    "fn top(a: $T) -> $T { a $O $L }",
    "fn top(a: $T) -> $T { trunc(a $O $L) }",
    "fn top(a: $T) -> $T { zext(a) }",
    "fn top(a: $T) -> $T { sext(a) }",
    "fn top(a: $T) -> $T { concat(a, a) }",
    "fn top(a: $T) -> $T { trunc(concat(a, a)) }",
    "fn top(a: $T) -> bool { match a { $L => true, _ => false } }",
    "fn top(a: $T) -> bool { match a { $L => true, $L => false, x => x == $L } }",
    "fn top(a: [$T; $N]) -> $T { a[$L] }",
    "fn top(a: [$T; $N], i: $T) -> $T { a[i] }",
    "fn top(a: [$T; $N]) -> [$T; $N] { a[$L..$L] }",
    "fn top(a: $T) -> [$T; $N] { [a; $N] }",
    "fn top(a: $T) -> [$T; $N] { [a, a] }",
    "fn top(a: ($T, $T)) -> $T { a.$N }",
    "fn top(a: ($T, [$T; $N])) -> $T { let (x, [y]) = a; y }",
    "fn f<#uint N>(a: uint<N>) -> uint<N> { a } fn top(a: $T) -> $T { f::<$N>(a) }",
    "fn f<#uint N>() -> uint<{N + $N}> { $L } fn top() -> $T { f::<$N>() }",
    "fn f<#uint N>() -> uint<{N - $N}> { $L } fn top() -> $T { f::<$N>() }",
    "fn f<#uint N>() -> uint<{N $G $N}> { $L } fn top() -> $T { f::<$N>() }",
    "fn f<#int N>() -> int<8> { N } fn top() -> int<8> { f::<$N>() }",
    "fn f<#uint N>() -> uint<8> where N: {$N $G $N} { 0 } fn top() -> uint<8> { f() }",
    "fn f<#uint N>() -> uint<8> { gen if N $C $N { $L } else { $L } } fn top() -> uint<8> { f::<$N>() }",
    "entity top(clk: clock, rst: bool, a: $T) -> $T { reg(clk) x: $T reset(rst: $L) initial($L) = a; x }",
    "entity top(clk: clock, rst: bool, a: $T) -> $T { reg(clk) x reset(rst: $L) = trunc(x $O a); x }",
    "entity top(clk: clock, a: $T) -> $T { reg(clk) x: $T initial($E) = a; x }",
    "pipeline($N) top(clk: clock, a: $T) -> $T { reg*$N; a }",
    "pipeline($N) p(clk: clock, a: $T) -> $T { reg*$N; a } entity top(clk: clock, a: $T) -> $T { inst($N) p(clk, a) }",
    "pipeline(2) top(clk: clock, a: $T) -> $T { reg; let x = a; reg; stage(-$N).a }",
    "struct S<#uint N> { a: uint<#uint N>, b: $T } fn top(a: $T) -> bool { true }",
    "struct S { a: $T, b: [$T; $N] } fn top(s: S) -> $T { s.a }",
    "enum E { A { x: $T }, B { x: [$T; $N] }, C } fn top(e: E) -> $T { match e { E::A(x) => x, E::B([x]) => x, _ => $L } }",
    "enum E { A { x: $T } } fn top(e: E) -> $T { match e { E::A(x) => x } }",
    "use std::mem::clocked_memory; use std::mem::read_memory; entity top(clk: clock, a: uint<4>, d: $T) -> $T { let m: Memory<$T, $N> = inst clocked_memory(clk, [(true, a, d)]); inst read_memory(m, a) }",
    "use std::mem::clocked_memory_init; use std::mem::read_memory; entity top(clk: clock, a: uint<4>, d: $T) -> $T { let m: Memory<$T, $N> = inst clocked_memory_init(clk, [(true, a, d)], [$L, $L]); inst read_memory(m, a) }",
    "fn top(a: $T) -> $T { let x = $E; x }",
    "fn top(a: $T) -> $T { $E }",
    "fn top(a: $T) -> bool { $E $C $E }",
    "fn top(a: $T, b: bool) -> $T { if b { $E } else { a } }",
    "fn top(a: $T) -> $T { let f = fn |x| { $E }; f.call((a,)) }",
    "fn top(a: $T) -> uint<$N> { std::conv::bits_to_uint(std::conv::int_to_bits($E)) }",
    "fn top(a: $T) -> $T { assert a == $L; a }",
    "impl $T { fn f(self) -> $T { self } } fn top(a: $T) -> $T { a.f() }",
    "trait Z { fn f(self) -> $T; } impl Z for $T { fn f(self) -> $T { $E } } fn top(a: $T) -> $T { a.f() }",
    "fn top(a: inv $T) -> inv $T { a }",
    "entity top(a: inv $T) { set a = $L; }",
    "entity top(a: inv $T, b: $T) { set a = b $O $L; }",
    "fn top(a: $T) -> $T { let (x, y) = ($E, $L); x }",
    "fn top(a: $T) -> [$T; $N] { ['l a, a, $E] }",
    "fn top(a: [$T; $N], b: [$T; $N]) -> bool { a == b }",
    "fn top(a: [$T; $N], b: [$T; $N]) -> [$T; $N] { std::conv::concat_arrays(a, b) }",
    "fn top(a: $T) -> $T { std::ops::reduce_and([a == $L; $N]); a }",
    "fn top(a: [$T; $N]) -> bool { match a { [$L, ..] => true, _ => false } }",
    "fn top(a: [$T; $N]) -> uint<8> { match a { [$L, x] => 1, [x, $L] => 2, _ => 3 } }",
    "fn top(a: $T) -> $T { -a }",
    "fn top(a: $T) -> $T { -($L) }",
    "fn top(a: $T) -> $T { ~a }",
    "fn top(a: $T) -> $T { a << $L }",
    "fn top(a: $T) -> $T { a >>> $L }",
    "fn top(a: $T, b: $T) -> $T { trunc(a * b) }",
    "fn top(a: $T) -> $T { a / $L }",
    "fn top(a: $T) -> $T { a % $L }",
];
// larger vectors only use up time and memory
const SIZES: &[&str] =
    &["0", "1", "2", "3", "8", "31", "32", "33", "63", "64", "65", "127", "128", "129", "200", "1000", "5000", "-1", "-2"
];

fn edge_type(r: &mut Rng, d: usize) -> String {
    match r.below(if d == 0 { 8 } else { 14 }) {
        0..=2 => format!("uint<{}>", edge_size(r)),
        3..=5 => format!("int<{}>", edge_size(r)),
        6 => "bool".into(),
        7 => (*r.pick(&["bit", "()", "clock", "uint<8>", "tri<bool>"])).into(),
        8 => format!("[{}; {}]", edge_type(r, d - 1), edge_size(r)),
        9 => format!("({}, {})", edge_type(r, d - 1), edge_type(r, d - 1)),
        10 => format!("({},)", edge_type(r, d - 1)),
        11 => format!("Option<{}>", edge_type(r, d - 1)),
        12 => format!("inv {}", edge_type(r, d - 1)),
        _ => format!("Memory<{}, {}>", edge_type(r, d - 1), edge_size(r)),
    }
}

fn edge_size(r: &mut Rng) -> &'static str {
    if r.chance(1, 2) {
        SIZES[r.below(5)]
    } else {
        r.pick(&SIZES)
    }
}

fn edge_literal(r: &mut Rng) -> String {
    let n = match r.below(6) {
        0 | 1 => r.below(4).to_string(),
        2 => edge_size(r).to_string(),
        3 => {
            let k = *r.pick(&[1u32, 7, 8, 31, 32, 63, 64, 65, 127]);
            ((1u128 << k) + r.below(3) as u128 - 1).to_string()
        }
        4 => format!("0b{:b}", r.below(300)),
        _ => format!("0x{:x}", r.below(70000)),
    };
    let sign = if r.chance(1, 4) && !n.starts_with('-') { "-" } else { "" };
    let suffix = if r.chance(1, 4) { format!("{}{}", r.pick(&["u", "i"]), r.pick(&["0", "1", "2", "8", "32", "64", "65"])) } else { String::new() };
    format!("{sign}{n}{suffix}")
}

fn edge_expr(r: &mut Rng, d: usize) -> String {
    if d == 0 {
        return if r.bool() { "a".into() } else { edge_literal(r) };
    }
    let e = |r: &mut Rng| edge_expr(r, d - 1);
    match r.below(22) {
        0 => format!("({} {} {})", e(r), r.pick(&OPERATORS), e(r)),
        1 => format!("trunc({})", e(r)),
        2 => format!("zext({})", e(r)),
        3 => format!("sext({})", e(r)),
        4 => format!("concat({}, {})", e(r), e(r)),
        5 => format!("(-{})", e(r)),
        6 => format!("(~{})", e(r)),
        7 => format!("[{}; {}]", e(r), edge_size(r)),
        8 => format!("[{}, {}]", e(r), e(r)),
        9 => format!("({}, {})", e(r), e(r)),
        10 => format!("{}.{}", e(r), r.below(4)),
        11 => format!("{}[{}]", e(r), e(r)),
        12 => format!("{}[{}..{}]", e(r), edge_literal(r), edge_literal(r)),
        13 => format!("if {} == {} {{ {} }} else {{ {} }}", e(r), e(r), e(r), e(r)),
        14 => format!("match {} {{ {} => {}, _ => {} }}", e(r), edge_literal(r), e(r), e(r)),
        15 => format!("Some({})", e(r)),
        16 => format!("match {} {{ Some(x) => x, None => {} }}", e(r), e(r)),
        17 => format!("{{ let y: {} = {}; y }}", edge_type(r, 1), e(r)),
        18 => format!("std::conv::{}({})", r.pick(&["uint_to_bits", "int_to_bits", "bits_to_uint", "bits_to_int", "uint_to_int", "int_to_uint", "bool_to_uint", "unsafe::unsafe_cast"]), e(r)),
        19 => format!("{}.{}()", e(r), r.pick(&["to_uint", "to_int", "to_bits", "inner", "is_some", "bits"])),
        20 => "()".into(),
        _ => edge_expr(r, 0),
    }
}
const OPERATORS: &[&str] =
    &["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "^^", "+.", "-."];

/// programs which once crashed the compiler, or still do
const ONCE: &[&str] = &[
    "fn top(a: Memory<inv bool, 8>) -> bool { true }",
    "struct S { a: int<-1> } fn top(a: S) -> bool { true }",
    "enum S { A { a: [bool; -1] } } fn top(a: S) -> bool { true }",
    "fn top() -> int<0> { 1 }",
    "fn top() -> int<0> { -1 }",
    "fn top() -> int { 0 }",
    "trait T { fn f(self); } fn top<A: T<A>>(a: A) -> bool { true }",
    "fn top(x: uint<8>) -> uint<8> { std::x!(",
];

fn edges(r: &mut Rng) -> String {
    let t = *r.pick(&EDGES);
    // mostly one type and one size for the whole program, so that more of them are accepted
    let (ty, n) = (edge_type(r, 2), edge_size(r));
    let same = r.chance(3, 4);
    let mut s = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c != '$' {
            s.push(c);
            continue;
        }
        let x = match it.next() {
            Some('T') if same => ty.clone(),
            Some('T') => edge_type(r, 2),
            Some('N') if same => n.to_string(),
            Some('N') => edge_size(r).to_string(),
            Some('L') => edge_literal(r),
            Some('E') => edge_expr(r, 2),
            Some('O') => r.pick(&OPERATORS).to_string(),
            Some('C') => r.pick(&["==", "!=", "<", ">", "<=", ">="]).to_string(),
            Some('G') => r.pick(&["+", "-", "*", "/", "%", "==", "<"]).to_string(),
            _ => String::new(),
        };
        s.push_str(&x);
    }
    s
}

fn random_soup(r: &mut Rng) -> String {
    let c = corpus();
    let toks = lex(&c[r.below(c.len())].src).unwrap_or_default();
    let mut v = vec![];
    for _ in 0..r.range(1, 60) {
        if toks.is_empty() {
            break;
        }
        v.extend(pool(r, &toks));
    }
    text(&v)
}

fn base(r: &mut Rng, j: usize) -> String {
    let c = corpus();
    match r.below(8) {
        0 => format!("{}\n{}", c[r.below(c.len())].src, c[r.below(c.len())].src),
        1 => {
            let p = crate::checks::exprs::mixed_program(j, r);
            let st = crate::checks::exprs::style(j, r);
            source(&p, &st)
        }
        _ => c[r.below(c.len())].src.clone(),
    }
}

fn opts(r: &mut Rng) -> Opts {
    let mut passes = vec![];
    for p in ["enum_clock_gating", "split_compound_regs"] {
        if r.chance(1, 4) {
            passes.push(p.to_string());
        }
    }
    if r.chance(1, 40) {
        passes.push("no_such_pass".into());
    }
    Opts { passes, mir: r.bool(), wrapper: r.bool(), items: r.bool(), state: r.bool(), no_stdlib: r.chance(1, 12), no_verilog: false, sentinel: true }
}

/// what the run did wrong, with the name of the kind of violation
pub fn faults(run: &Run) -> Vec<(String, String)> {
    let mut v = vec![];
    let errors = run.diags.iter().filter(|d| d.error).count();
    match &run.outcome {
        Outcome::Panic(p) => {
            v.push((format!("panic:{}", panic_key(p)), format!("panicked: {}", p.lines().next().unwrap_or(""))));
            return v;
        }
        Outcome::Ok(_) => {
            if errors > 0 {
                v.push(("success-with-error".into(), format!("succeeded although it reported {}", run.first_error())));
            }
        }
        Outcome::Rejected => {
            // an unknown optimisation pass is reported without a location
            if errors == 0 && !run.rendered.contains("not a known optimization pass") {
                v.push(("failure-without-error".into(), "failed without reporting an error".into()));
            }
            // the compiler state is saved for failed runs too
            for o in run.outputs.iter().filter(|o| *o != "out.state") {
                v.push((format!("output-of-failed-run:{o}"), format!("failed but wrote {o}")));
            }
        }
    }
    if let Outcome::Ok(_) = run.outcome {
        for o in &run.missing {
            v.push((format!("no-output:{o}"), format!("succeeded but did not write {o}")));
        }
    }
    for d in &run.diags {
        for (k, (f, s, e, ok)) in d.spans.iter().enumerate() {
            if !ok {
                let name = d.files.get(k).cloned().unwrap_or_default();
                v.push((
                    format!("span:{}", panic_key(&d.message)),
                    format!("label {k} of {:?} is at bytes {s}..{e} of file {f} {name:?}, which has no such range", d.message),
                ));
            }
        }
    }
    v
}

/// the smallest token sequence found for which `still` holds
pub fn shrink_text(text: &str, tries: usize, still: &dyn Fn(&str) -> bool) -> String {
    let Some(mut t) = lex(text) else { return text.into() };
    if !still(&self::text(&t)) {
        return text.into();
    }
    let mut budget = tries;
    let mut n = t.len() / 2;
    while n >= 1 {
        let mut i = 0;
        let mut any = false;
        while i < t.len() && budget > 0 {
            let mut u = t.clone();
            u.drain(i..(i + n).min(t.len()));
            budget -= 1;
            if still(&self::text(&u)) {
                t = u;
                any = true;
            } else {
                i += n;
            }
        }
        if !any || n > 1 {
            n /= 2;
        }
        if budget == 0 {
            break;
        }
    }
    self::text(&t)
}

fn shrink(text: &str, o: &Opts, key: &str) -> String {
    shrink_text(text, 150, &|s: &str| {
        let run = comp::compile(&[Src::single(s)], o);
        faults(&run).iter().any(|f| f.0 == key)
    })
}

pub fn observe(src: &str, o: &Opts, how: &str, out: &mut JobOut) {
    crate::runner::current(src);
    let run = comp::compile(&[Src::single(src)], o);
    out.evals += 1;
    out.stat(&format!("{} ({how})", run.verdict()), 1);
    out.stat("diagnostics", run.diags.len() as u64);
    out.stat("spans checked", run.diags.iter().map(|d| d.spans.len()).sum::<usize>() as u64);
    if run.diags.iter().any(|d| d.bug) {
        out.stat("internal error reported as diagnostic", 1);
    }
    if let Some(d) = run.diags.iter().find(|d| d.error) {
        out.key(&panic_key(&d.message));
    } else {
        out.key(&"accepted");
    }
    let mut seen = vec![];
    for (k, w) in faults(&run) {
        if seen.contains(&k) {
            continue;
        }
        seen.push(k.clone());
        if crate::probes::listed_edit("C11", &k) {
            let k = format!("id={k} {w}");
            if out.known.len() < 50 {
                out.known.push(k);
            }
        } else {
            let small = if std::env::var("MON_NOSHRINK").is_ok() { src.into() } else { shrink(src, o, &k) };
            out.violation(format!("[{k}] {how}: {w}"), json!({"source": small, "original": src, "options": format!("{o:?}"), "rendered": run.rendered}));
        }
    }
}

pub fn c11() -> CheckDef {
    fn run(c: &Ctx, j: usize, r: &mut Rng, out: &mut JobOut) {
        if j == 0 {
            for s in ONCE {
                observe(s, &Opts { mir: true, sentinel: true, ..Default::default() }, "once crashed", out);
            }
        }
        for k in 0..PER_JOB {
            let _ = c;
            let o = opts(r);
            let only = std::env::var("MON_EDGES").is_ok();
            match if only { 8 } else { (k + j) % 10 } {
                8 | 9 => {
                    let s = edges(r);
                    observe(&s, &o, "edges of sizes and literals", out);
                }
                0 => {
                    let b = base(r, j);
                    let s = garble(&b, r);
                    observe(&s, &o, "bytes garbled", out);
                }
                1 => {
                    if r.bool() {
                        let (s, h) = nested(r);
                        observe(&s, &o, &format!("nested {h}"), out);
                    } else {
                        let s = random_soup(r);
                        observe(&s, &o, "token soup", out);
                    }
                }
                _ => {
                    let b = base(r, j);
                    let Some(mut t) = lex(&b) else { continue };
                    let mut how = "";
                    for _ in 0..*r.pick(&[1, 1, 1, 1, 2, 2, 4]) {
                        how = mutate(&mut t, r);
                    }
                    observe(&text(&t), &o, how, out);
                }
            }
        }
    }
    CheckDef {
        id: "C11",
        jobs: |t| if t { 8000 } else { 120 },
        run,
        rule: "every text terminates without a panic, with success and no error or with failure and at least one error; a failed run leaves the requested files as they were; a successful one writes them; every span of every diagnostic lies in its file on character boundaries",
        assumptions: &["distinct counts the different error messages provoked"],
        crash_is_violation: true,
    }
}
