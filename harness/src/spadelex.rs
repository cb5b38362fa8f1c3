//! A lexer for Spade source text, used to rewrite programs token by token. It is only needed to find
//! token boundaries: what each variant means is decided by the compiler under test.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum K {
    Ident,
    Int,
    Label,
    Str,
    Punct,
    Doc,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub k: K,
    pub t: String,
    /// byte range in the text
    pub at: (usize, usize),
}

const PUNCT: [&str; 58] = [
    ">>>", ">>.", "<<.", "==", "!=", "<=", ">=", ">>", "<<", "+.", "-.", "*.", "||", "&&", "^^", "=>", "->", "..",
    "::", "+", "-", "*", "/", "%", "<", ">", "&", "|", "?", "!", "^", "~", "`", "=", "(", ")", "{", "}", "[", "]",
    "@", ",", ".", ";", ":", "#", "$", "\u{37e}", "\\", "\"", "'", "€", "§", "´", "¨", "½", "¤", "£",
];

pub const KEYWORDS: [&str; 45] = [
    "true", "false", "LOW", "HIGH", "HIGHIMP", "reg", "let", "decl", "inst", "reset", "initial", "if", "else", "match",
    "set", "pipeline", "stage", "entity", "trait", "impl", "for", "macro", "fn", "enum", "struct", "wire", "mod",
    "type", "use", "as", "assert", "mut", "inv", "pub", "where", "gen", "extern", "unsafe", "self", "lib", "super",
    "port", "clock", "bool", "tri",
];

fn id_start(c: char) -> bool {
    c == '_' || c.is_alphabetic()
}
fn id_cont(c: char) -> bool {
    c == '_' || c.is_alphanumeric()
}

/// None: something in the text is not a token
pub fn lex(s: &str) -> Option<Vec<Tok>> {
    let mut out = vec![];
    let mut i = 0;
    let b = s.as_bytes();
    let take = |i: usize, f: &dyn Fn(char) -> bool| -> usize {
        let mut e = i;
        for c in s[i..].chars() {
            if !f(c) {
                break;
            }
            e += c.len_utf8();
        }
        e
    };
    while i < s.len() {
        let c = s[i..].chars().next().unwrap();
        if c == ' ' || c == '\n' || c == '\t' || c == '\r' {
            i += 1;
            continue;
        }
        if s[i..].starts_with("//") {
            let e = s[i..].find('\n').map(|n| i + n).unwrap_or(s.len());
            let doc = s[i..].starts_with("///") || s[i..].starts_with("//!");
            if doc {
                out.push(Tok { k: K::Doc, t: s[i..e].into(), at: (i, e) });
            }
            i = e;
            continue;
        }
        if s[i..].starts_with("/*") {
            let mut d = 1;
            i += 2;
            while d > 0 {
                if i + 2 > s.len() {
                    return None;
                }
                match &b[i..i + 2] {
                    b"/*" => {
                        d += 1;
                        i += 2;
                    }
                    b"*/" => {
                        d -= 1;
                        i += 2;
                    }
                    _ => i += 1,
                }
            }
            continue;
        }
        let (k, e) = if s[i..].starts_with("b\"") || s[i..].starts_with("b'") {
            let q = b[i + 1];
            let mut e = i + 2;
            while e < s.len() && b[e] != q {
                e += if b[e] == b'\\' { 2 } else { 1 };
            }
            if e >= s.len() {
                return None;
            }
            (K::Str, e + 1)
        } else if s[i..].starts_with("r#") && s[i + 2..].chars().next().is_some_and(id_start) {
            (K::Ident, take(i + 2, &id_cont))
        } else if id_start(c) {
            (K::Ident, take(i, &id_cont))
        } else if c.is_ascii_digit() {
            (K::Int, int_end(b, i))
        } else if c == '"' {
            match s[i + 1..].find('"') {
                Some(n) => (K::Str, i + n + 2),
                None => return None,
            }
        } else if c == '\'' && s[i + 1..].chars().next().is_some_and(id_cont) && s[i + 1..].chars().nth(1) == Some('\'') {
            // looks like a character
            (K::Str, i + 2 + s[i + 1..].chars().next().unwrap().len_utf8())
        } else if (c == '\'' || c == '@') && s[i + 1..].chars().next().is_some_and(id_start) {
            (K::Label, take(i + 1, &id_cont))
        } else {
            match PUNCT[..48].iter().find(|p| s[i..].starts_with(**p)) {
                Some(p) => (K::Punct, i + p.len()),
                None => return None,
            }
        };
        out.push(Tok { k, t: s[i..e].into(), at: (i, e) });
        i = e;
    }
    Some(out)
}

fn int_end(b: &[u8], i: usize) -> usize {
    let (start, hex, oct, bin) = match b.get(i..i + 3) {
        Some([b'0', b'x', c]) if c.is_ascii_hexdigit() => (i + 2, true, false, false),
        Some([b'0', b'o', c]) if (b'0'..=b'7').contains(c) => (i + 2, false, true, false),
        Some([b'0', b'b', c]) if (b'0'..=b'1').contains(c) => (i + 2, false, false, true),
        _ => (i, false, false, false),
    };
    let mut e = start;
    let ok = |c: u8| {
        c == b'_'
            || if hex {
                c.is_ascii_hexdigit()
            } else if oct {
                (b'0'..=b'7').contains(&c)
            } else if bin {
                c == b'0' || c == b'1'
            } else {
                c.is_ascii_digit()
            }
    };
    while e < b.len() && ok(b[e]) {
        e += 1;
    }
    if e < b.len() && b"uUiI".contains(&b[e]) {
        e += 1;
        while e < b.len() && b[e].is_ascii_digit() {
            e += 1;
        }
    }
    e
}

pub fn same(a: &[Tok], b: &[Tok]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.k == y.k && x.t == y.t)
}

const NASTY: [&str; 22] = [
    "", " ", "x", "*", "//", "\"", "say \"hi", "'", "b'", "b\"", "b\"\\", "fn f() {", "}", "#[", "é ∀ 語", "0b2 0x",
    "///", "`", "\\", "/* in */", "/* // */", "/* \" */ /* ' */",
];

/// text between two tokens which the language ignores
fn trivia(r: &mut Rng, hostile: bool) -> String {
    let mut o = String::new();
    for _ in 0..1 + r.below(2) {
        match r.below(if hostile { 9 } else { 4 }) {
            0 => o.push(' '),
            1 => o.push('\n'),
            2 => o.push('\t'),
            3 => o.push_str("\r\n"),
            4 | 5 => {
                let t = NASTY[r.below(NASTY.len())];
                // not documentation
                let sep = if t.starts_with('/') || t.starts_with('!') { " " } else { "" };
                o.push_str(&format!("//{sep}{t}\n"));
            }
            _ => {
                let mut t = String::new();
                for _ in 0..r.below(3) {
                    t.push_str(NASTY[r.below(NASTY.len())]);
                    t.push_str(if r.chance(1, 2) { "\n" } else { " " });
                }
                // keep `/` and `*` at the edges from forming another delimiter
                o.push_str(&format!("/* {t} */"));
            }
        }
    }
    o
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// as little white space as possible
    Minify,
    /// other white space
    White,
    /// comments everywhere
    Comments,
}

/// Numbers in another base, with separators, or the same
pub fn respell_int(t: &str, r: &mut Rng) -> String {
    let low = t.to_ascii_lowercase();
    let (num, suf) = match low.find(|c| c == 'u' || c == 'i') {
        Some(p) => (low[..p].to_string(), t[p..].to_string()),
        None => (low.clone(), String::new()),
    };
    let num = num.replace('_', "");
    let (digits, base) = match num.get(..2) {
        Some("0x") => (&num[2..], 16),
        Some("0o") => (&num[2..], 8),
        Some("0b") => (&num[2..], 2),
        _ => (&num[..], 10),
    };
    let Some(v) = num::BigUint::parse_bytes(digits.as_bytes(), base) else {
        return t.into();
    };
    let (pre, mut d) = match r.below(4) {
        0 => ("", v.to_str_radix(10)),
        1 => ("0x", v.to_str_radix(16)),
        2 => ("0o", v.to_str_radix(8)),
        _ => ("0b", v.to_str_radix(2)),
    };
    if r.chance(1, 4) {
        d = d.to_ascii_uppercase();
    }
    for _ in 0..r.below(3) {
        d.insert(0, '0');
    }
    if r.chance(1, 3) {
        let p = 1 + r.below(d.len());
        d.insert(p, '_');
        if r.chance(1, 3) {
            d.insert(p, '_');
        }
    }
    if r.chance(1, 6) {
        // a separator between and after all digits
        d = d.chars().filter(|c| *c != '_').flat_map(|c| [c, '_']).collect();
    }
    let suf = if r.chance(1, 3) { suf.to_ascii_uppercase() } else { suf };
    format!("{pre}{d}{suf}")
}

pub struct Rewrite {
    pub mode: Mode,
    pub ints: bool,
    pub raw: bool,
    pub docs: bool,
}

/// Another spelling of the tokens
pub fn respell(toks: &[Tok], w: &Rewrite, r: &mut Rng) -> Vec<Tok> {
    let mut out = vec![];
    let mut depth = 0i32;
    for (i, t) in toks.iter().enumerate() {
        let prev = i.checked_sub(1).map(|p| toks[p].t.as_str()).unwrap_or("");
        if w.docs && depth == 0 && t.k != K::Doc && ["", "}", ";"].contains(&prev) {
            let mut j = i;
            let mut d = 0;
            while j < toks.len() {
                match toks[j].t.as_str() {
                    "[" => d += 1,
                    "]" => d -= 1,
                    "#" | "pub" | "extern" | "unsafe" => {}
                    _ if d == 0 => break,
                    _ => {}
                }
                j += 1;
            }
            if toks.get(j).is_some_and(|t| ["fn", "entity", "pipeline", "struct", "enum"].contains(&t.t.as_str())) {
                for _ in 0..r.below(3) {
                    let t = NASTY[r.below(NASTY.len())];
                    out.push(Tok { k: K::Doc, t: format!("/// {t}"), at: (0, 0) });
                }
            }
        }
        match t.t.as_str() {
            "{" if t.k == K::Punct => depth += 1,
            "}" if t.k == K::Punct => depth -= 1,
            _ => {}
        }
        let mut n = t.clone();
        if w.ints && t.k == K::Int && prev != "." {
            n.t = respell_int(&t.t, r);
        }
        if w.raw && t.k == K::Ident && !t.t.starts_with("r#") && !KEYWORDS.contains(&t.t.as_str()) && r.chance(1, 4) {
            n.t = format!("r#{}", t.t);
        }
        out.push(n);
    }
    out
}

/// Text with these tokens. `at` of the result's tokens are their places in it.
pub fn render(toks: &[Tok], m: Mode, r: &mut Rng) -> Option<(String, Vec<Tok>)> {
    let mut o = String::new();
    if m != Mode::Minify && r.chance(1, 2) {
        o.push_str(&trivia(r, m == Mode::Comments));
    }
    let mut out = vec![];
    for (i, t) in toks.iter().enumerate() {
        let at = o.len();
        o.push_str(&t.t);
        out.push(Tok { at: (at, o.len()), ..t.clone() });
        if t.k == K::Doc {
            o.push('\n');
        }
        let Some(n) = toks.get(i + 1) else { break };
        match m {
            Mode::Minify => {
                let both = format!("{}{}", t.t, n.t);
                let ok = t.k != K::Doc && lex(&both).is_some_and(|l| same(&l, &[t.clone(), n.clone()]));
                // three tokens could still join: leave a space after punctuation that may grow
                let grow = t.k == K::Punct
                    && n.k == K::Punct
                    && toks.get(i + 2).is_some_and(|x| {
                        !lex(&format!("{}{}{}", t.t, n.t, x.t)).is_some_and(|l| same(&l, &[t.clone(), n.clone(), x.clone()]))
                    });
                if !ok || grow {
                    o.push(' ');
                }
            }
            Mode::White => {
                if r.chance(1, 8) {
                    o.push_str(&" ".repeat(1 + r.below(40)));
                } else {
                    o.push_str(&trivia(r, false));
                }
            }
            Mode::Comments => {
                if r.chance(1, 2) {
                    // a `/` must not touch the comment
                    if t.t == "/" || t.t == "*" || t.t == "\u{37e}" {
                        o.push(' ');
                    }
                    o.push_str(&trivia(r, true));
                    if !o.ends_with('\n') && r.chance(1, 2) && n.t != "/" && n.t != "*" {
                        // comments separate tokens
                        if !o.ends_with("*/") {
                            o.push(' ');
                        }
                    } else {
                        o.push(' ');
                    }
                } else {
                    o.push(' ');
                }
            }
        }
    }
    if r.chance(1, 3) && m == Mode::Comments {
        o.push_str("// no newline at the end");
    }
    // the rewriting itself must not have changed the tokens
    if !lex(&o).is_some_and(|l| same(&l, &out)) {
        return None;
    }
    Some((o, out))
}

/// Verilog without source locations and string contents
pub fn normalise(v: &str) -> String {
    let mut o = String::with_capacity(v.len());
    let b = v.as_bytes();
    let mut i = 0;
    let mut start = 0;
    while i < b.len() {
        if b[i] == b'(' && b.get(i + 1) == Some(&b'*') && b.get(i + 2) != Some(&b')') {
            o.push_str(&v[start..i]);
            i += 2;
            while i + 1 < b.len() && &b[i..i + 2] != b"*)" {
                i += 1;
            }
            i += 2;
            start = i;
        } else if b[i] == b'"' {
            o.push_str(&v[start..i]);
            o.push_str("\"\"");
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            i += 1;
            start = i;
        } else {
            i += 1;
        }
    }
    o.push_str(&v[start.min(v.len())..]);
    let l: Vec<&str> = o.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    l.join("\n")
}
