use crate::bits::{B, LV};
use num::bigint::BigUint;
use num::Num as _;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(String),
    Esc(String),
    Sys(String),
    Num { val: LV, signed: bool, fill: bool, sized: bool },
    Str(String),
    P(&'static str),
    Eof,
}

pub struct Lexed {
    pub toks: Vec<(T, usize)>,
}

const PUNCT: &[&str] = &[
    "<<<", ">>>", "===", "!==", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+:", "-:", "~&", "~|", "~^", "^~",
    "(", ")", "[", "]", "{", "}", ";", ",", ".", "#", "@", "=", "?", ":", "+", "-", "*", "/", "%", "<", ">", "&", "|",
    "^", "~", "!",
];

struct Lx<'a> {
    s: &'a [u8],
    i: usize,
    line: usize,
}

fn err<T>(line: usize, m: impl Into<String>) -> Result<T, String> {
    Err(format!("line {line}: {}", m.into()))
}

/// Tokenise with a minimal preprocessor. `defs` are predefined macro names.
pub fn lex(src: &str, defs: &[&str]) -> Result<Lexed, String> {
    let mut macros: HashMap<String, Option<Vec<(T, usize)>>> = HashMap::new();
    let mut fn_macros: HashSet<String> = HashSet::new();
    for d in defs {
        macros.insert(d.to_string(), Some(vec![]));
    }
    let mut lx = Lx { s: src.as_bytes(), i: 0, line: 1 };
    let mut out = vec![];
    // stack of (currently active, any branch taken)
    let mut conds: Vec<(bool, bool)> = vec![];
    loop {
        lx.ws()?;
        if lx.i >= lx.s.len() {
            break;
        }
        let active = conds.iter().all(|c| c.0);
        let c = lx.s[lx.i];
        if c == b'`' {
            lx.i += 1;
            let name = if lx.peek() == b'\\' { lx.escaped()? } else { lx.simple_id() };
            match name.as_str() {
                "ifdef" | "ifndef" => {
                    lx.hspace();
                    let m = lx.simple_id();
                    let d = macros.contains_key(&m);
                    let on = if name == "ifdef" { d } else { !d };
                    conds.push((on, on));
                }
                "else" => match conds.last_mut() {
                    Some(l) => {
                        l.0 = !l.1;
                        l.1 = true;
                    }
                    None => return err(lx.line, "`else without `ifdef"),
                },
                "endif" => {
                    if conds.pop().is_none() {
                        return err(lx.line, "`endif without `ifdef");
                    }
                }
                "define" => {
                    lx.hspace();
                    let m = if lx.peek() == b'\\' { lx.escaped()? } else { lx.simple_id() };
                    if lx.peek() == b'(' {
                        fn_macros.insert(m.clone());
                    }
                    // body to end of line honouring continuations
                    let start = lx.i;
                    while lx.i < lx.s.len() && lx.s[lx.i] != b'\n' {
                        if lx.s[lx.i] == b'\\' && lx.s.get(lx.i + 1) == Some(&b'\n') {
                            lx.i += 2;
                            lx.line += 1;
                        } else {
                            lx.i += 1;
                        }
                    }
                    if active {
                        if fn_macros.contains(&m) {
                            macros.insert(m, None);
                        } else {
                            let body = std::str::from_utf8(&lx.s[start..lx.i]).unwrap().to_string();
                            let b = lex(&body, &[])?;
                            macros.insert(m, Some(b.toks.into_iter().filter(|t| t.0 != T::Eof).collect()));
                        }
                    }
                }
                "undef" => {
                    lx.hspace();
                    let m = lx.simple_id();
                    macros.remove(&m);
                }
                "default_nettype" => {
                    lx.hspace();
                    lx.simple_id();
                }
                "timescale" | "include" | "resetall" => {
                    while lx.i < lx.s.len() && lx.s[lx.i] != b'\n' {
                        lx.i += 1;
                    }
                }
                _ if !active => {}
                m => match macros.get(m) {
                    Some(Some(b)) => out.extend(b.iter().map(|t| (t.0.clone(), lx.line))),
                    Some(None) => {
                        lx.hspace();
                        if lx.peek() != b'(' {
                            return err(lx.line, format!("macro `{m} needs arguments"));
                        }
                        let mut depth = 0;
                        while lx.i < lx.s.len() {
                            let c = lx.s[lx.i];
                            // an escaped identifier may contain parentheses
                            if c == b'(' {
                                depth += 1
                            } else if c == b')' {
                                depth -= 1
                            } else if c == b'\n' {
                                lx.line += 1
                            }
                            lx.i += 1;
                            if depth == 0 {
                                break;
                            }
                        }
                        if depth != 0 {
                            return err(lx.line, "unterminated macro arguments");
                        }
                    }
                    None => return err(lx.line, format!("undefined macro `{m}")),
                },
            }
            continue;
        }
        let line = lx.line;
        if !active {
            // skip one character or string
            if c == b'"' {
                lx.string()?;
            } else {
                lx.i += 1;
            }
            continue;
        }
        let t = lx.token()?;
        out.push((t, line));
    }
    if !conds.is_empty() {
        return err(lx.line, "unterminated `ifdef");
    }
    out.push((T::Eof, lx.line));
    Ok(Lexed { toks: out })
}

impl<'a> Lx<'a> {
    fn peek(&self) -> u8 {
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn hspace(&mut self) {
        while matches!(self.peek(), b' ' | b'\t') && self.i < self.s.len() {
            self.i += 1;
        }
    }
    fn ws(&mut self) -> Result<(), String> {
        loop {
            let c = self.peek();
            if self.i >= self.s.len() {
                return Ok(());
            }
            if c == b'\n' {
                self.line += 1;
                self.i += 1;
            } else if c.is_ascii_whitespace() {
                self.i += 1;
            } else if self.s[self.i..].starts_with(b"//") {
                while self.i < self.s.len() && self.peek() != b'\n' {
                    self.i += 1;
                }
            } else if self.s[self.i..].starts_with(b"/*") {
                let l = self.line;
                self.i += 2;
                loop {
                    if self.i >= self.s.len() {
                        return err(l, "unterminated comment");
                    }
                    if self.s[self.i..].starts_with(b"*/") {
                        self.i += 2;
                        break;
                    }
                    if self.peek() == b'\n' {
                        self.line += 1;
                    }
                    self.i += 1;
                }
            } else if self.s[self.i..].starts_with(b"(*") && self.s.get(self.i + 2) != Some(&b')') {
                let l = self.line;
                self.i += 2;
                loop {
                    if self.i >= self.s.len() {
                        return err(l, "unterminated attribute");
                    }
                    if self.s[self.i..].starts_with(b"*)") {
                        self.i += 2;
                        break;
                    }
                    if self.peek() == b'"' {
                        self.string()?;
                        continue;
                    }
                    if self.peek() == b'\n' {
                        self.line += 1;
                    }
                    self.i += 1;
                }
            } else {
                return Ok(());
            }
        }
    }
    fn simple_id(&mut self) -> String {
        let st = self.i;
        while self.peek().is_ascii_alphanumeric() || self.peek() == b'_' || self.peek() == b'$' {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).to_string()
    }
    fn escaped(&mut self) -> Result<String, String> {
        self.i += 1;
        let st = self.i;
        while self.i < self.s.len() && !self.peek().is_ascii_whitespace() {
            if !self.peek().is_ascii_graphic() {
                return err(self.line, "non-printable or non-ASCII character in escaped identifier");
            }
            self.i += 1;
        }
        if st == self.i {
            return err(self.line, "empty escaped identifier");
        }
        Ok(String::from_utf8_lossy(&self.s[st..self.i]).to_string())
    }
    fn string(&mut self) -> Result<String, String> {
        let l = self.line;
        self.i += 1;
        let mut out = vec![];
        loop {
            if self.i >= self.s.len() {
                return err(l, "unterminated string");
            }
            match self.peek() {
                b'"' => {
                    self.i += 1;
                    break;
                }
                b'\n' => return err(l, "newline in string"),
                b'\\' => {
                    // octal escapes such as \033 are legal
                    out.push(b'\\');
                    self.i += 1;
                    if self.peek() == b'\n' {
                        self.line += 1;
                    }
                    out.push(self.peek());
                    self.i += 1;
                }
                c => {
                    out.push(c);
                    self.i += 1;
                }
            }
        }
        Ok(String::from_utf8_lossy(&out).to_string())
    }
    fn based(&mut self, width: Option<usize>) -> Result<T, String> {
        // at the quote
        self.i += 1;
        let mut signed = false;
        if matches!(self.peek(), b's' | b'S') {
            signed = true;
            self.i += 1;
        }
        let base = self.peek().to_ascii_lowercase();
        self.i += 1;
        self.hspace();
        let st = self.i;
        while self.peek().is_ascii_alphanumeric() || matches!(self.peek(), b'_' | b'?') {
            self.i += 1;
        }
        let digits: String = String::from_utf8_lossy(&self.s[st..self.i]).replace('_', "").to_lowercase();
        if digits.is_empty() {
            return err(self.line, "based literal without digits");
        }
        let bits_per = match base {
            b'b' => 1,
            b'o' => 3,
            b'h' => 4,
            b'd' => 0,
            _ => return err(self.line, format!("bad literal base '{}'", base as char)),
        };
        let natural: LV = if bits_per == 0 {
            if matches!(digits.as_str(), "x" | "z" | "?") {
                if digits == "x" {
                    LV::xs(1)
                } else {
                    LV::zs(1)
                }
            } else {
                match BigUint::from_str_radix(&digits, 10) {
                    Ok(v) => {
                        let w = v.bits() as usize;
                        if let Some(w0) = width {
                            if w > w0 {
                                return err(self.line, format!("literal {digits} does not fit {w0} bits"));
                            }
                        }
                        // keep a leading zero so no x/z extension applies
                        LV::from_biguint(&v, w + 1)
                    }
                    Err(_) => return err(self.line, "bad decimal literal"),
                }
            }
        } else {
            let mut parts = vec![];
            for c in digits.chars() {
                let p = match c {
                    'x' => LV::xs(bits_per),
                    'z' | '?' => LV::zs(bits_per),
                    c => match c.to_digit(1 << bits_per) {
                        Some(d) => LV::from_u64(d as u64, bits_per),
                        None => return err(self.line, format!("bad digit {c}")),
                    },
                };
                parts.push(p);
            }
            LV::concat(&parts)
        };
        let msb = natural.bit(natural.w - 1);
        let fill = matches!(msb, B::X | B::Z);
        let w = width.unwrap_or_else(|| natural.w.max(32));
        if w == 0 {
            return err(self.line, "zero width literal");
        }
        if bits_per != 0 && natural.w > w {
            // more digits than width: only tolerated if the excess is zero
            if !natural.slice(w, natural.w - w).is_zero_val() {
                return err(self.line, format!("literal '{digits}' wider than its size {w}"));
            }
        }
        let val = natural.resize(w, fill);
        Ok(T::Num { val, signed, fill: fill && width.is_none(), sized: width.is_some() })
    }
    fn token(&mut self) -> Result<T, String> {
        let c = self.peek();
        if c == b'\\' {
            return Ok(T::Esc(self.escaped()?));
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            return Ok(T::Id(self.simple_id()));
        }
        if c == b'$' {
            self.i += 1;
            return Ok(T::Sys(self.simple_id()));
        }
        if c == b'"' {
            return Ok(T::Str(self.string()?));
        }
        if c.is_ascii_digit() {
            let st = self.i;
            while self.peek().is_ascii_digit() || self.peek() == b'_' {
                self.i += 1;
            }
            let d = String::from_utf8_lossy(&self.s[st..self.i]).replace('_', "");
            let save = self.i;
            self.hspace();
            if self.peek() == b'\'' {
                let w: usize = match d.parse() {
                    Ok(w) => w,
                    Err(_) => return err(self.line, "bad literal size"),
                };
                if w > 1 << 24 {
                    return err(self.line, "literal size too large");
                }
                return self.based(Some(w));
            }
            self.i = save;
            if self.peek().is_ascii_alphabetic() {
                return err(self.line, "identifier starts with a digit");
            }
            let v = BigUint::from_str_radix(&d, 10).unwrap();
            if v.bits() > 32 {
                return err(self.line, format!("unsized literal {d} does not fit 32 bits"));
            }
            return Ok(T::Num { val: LV::from_biguint(&v, 32), signed: true, fill: false, sized: false });
        }
        if c == b'\'' {
            let n = self.s.get(self.i + 1).copied().unwrap_or(0);
            if n == b'0' || n == b'1' {
                self.i += 2;
                // '0 / '1 fill literals: model as 1-bit fill (only 0 used)
                return Ok(T::Num { val: LV::from_u64((n - b'0') as u64, 32), signed: false, fill: false, sized: false });
            }
            return self.based(None);
        }
        for p in PUNCT {
            if self.s[self.i..].starts_with(p.as_bytes()) {
                self.i += p.len();
                return Ok(T::P(p));
            }
        }
        err(self.line, format!("unexpected character {:?}", c as char))
    }
}
