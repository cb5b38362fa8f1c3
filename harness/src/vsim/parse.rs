use super::ast::*;
use super::lex::{lex, T};

const KEYWORDS: &[&str] = &[
    "accept_on", "alias", "always", "always_comb", "always_ff", "always_latch", "and", "assert", "assign", "assume",
    "automatic", "before", "begin", "bind", "bins", "binsof", "bit", "break", "buf", "bufif0", "bufif1", "byte",
    "case", "casex", "casez", "cell", "chandle", "checker", "class", "clocking", "cmos", "config", "const",
    "constraint", "context", "continue", "cover", "covergroup", "coverpoint", "cross", "deassign", "default",
    "defparam", "design", "disable", "dist", "do", "edge", "else", "end", "endcase", "endchecker", "endclass",
    "endclocking", "endconfig", "endfunction", "endgenerate", "endgroup", "endinterface", "endmodule", "endpackage",
    "endprimitive", "endprogram", "endproperty", "endsequence", "endspecify", "endtable", "endtask", "enum", "event",
    "eventually", "expect", "export", "extends", "extern", "final", "first_match", "for", "force", "foreach",
    "forever", "fork", "forkjoin", "function", "generate", "genvar", "global", "highz0", "highz1", "if", "iff",
    "ifnone", "ignore_bins", "illegal_bins", "implements", "implies", "import", "incdir", "include", "initial",
    "inout", "input", "inside", "instance", "int", "integer", "interconnect", "interface", "intersect", "join",
    "join_any", "join_none", "large", "let", "liblist", "library", "local", "localparam", "logic", "longint",
    "macromodule", "matches", "medium", "modport", "module", "nand", "negedge", "nettype", "new", "nexttime", "nmos",
    "nor", "noshowcancelled", "not", "notif0", "notif1", "null", "or", "output", "package", "packed", "parameter",
    "pmos", "posedge", "primitive", "priority", "program", "property", "protected", "pull0", "pull1", "pulldown",
    "pullup", "pulsestyle_ondetect", "pulsestyle_onevent", "pure", "rand", "randc", "randcase", "randsequence",
    "rcmos", "real", "realtime", "ref", "reg", "reject_on", "release", "repeat", "restrict", "return", "rnmos",
    "rpmos", "rtran", "rtranif0", "rtranif1", "s_always", "s_eventually", "s_nexttime", "s_until", "s_until_with",
    "scalared", "sequence", "shortint", "shortreal", "showcancelled", "signed", "small", "soft", "solve", "specify",
    "specparam", "static", "string", "strong", "strong0", "strong1", "struct", "super", "supply0", "supply1",
    "sync_accept_on", "sync_reject_on", "table", "tagged", "task", "this", "throughout", "time", "timeprecision",
    "timeunit", "tran", "tranif0", "tranif1", "tri", "tri0", "tri1", "triand", "trior", "trireg", "type", "typedef",
    "union", "unique", "unique0", "unsigned", "until", "until_with", "untyped", "use", "uwire", "var", "vectored",
    "virtual", "void", "wait", "wait_order", "wand", "weak", "weak0", "weak1", "while", "wildcard", "wire", "with",
    "within", "wor", "xnor", "xor",
];

pub fn is_keyword(s: &str) -> bool {
    KEYWORDS.binary_search(&s).is_ok()
}

pub struct P {
    t: Vec<(T, usize)>,
    i: usize,
}

type R<X> = Result<X, String>;

pub fn parse(src: &str, defs: &[&str]) -> R<Vec<Module>> {
    debug_assert!(KEYWORDS.windows(2).all(|w| w[0] < w[1]));
    let l = lex(src, defs)?;
    let mut p = P { t: l.toks, i: 0 };
    let mut out = vec![];
    while p.cur() != &T::Eof {
        out.push(p.module()?);
    }
    Ok(out)
}

impl P {
    fn cur(&self) -> &T {
        &self.t[self.i].0
    }
    fn line(&self) -> usize {
        self.t[self.i].1
    }
    fn e<X>(&self, m: impl AsRef<str>) -> R<X> {
        Err(format!("line {}: {} (at {:?})", self.line(), m.as_ref(), self.cur()))
    }
    fn bump(&mut self) -> T {
        let t = self.t[self.i].0.clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.cur(), T::P(q) if *q == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        if self.is(p) {
            self.bump();
            true
        } else {
            false
        }
    }
    fn ex(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            Ok(())
        } else {
            self.e(format!("expected '{p}'"))
        }
    }
    fn iskw(&self, k: &str) -> bool {
        matches!(self.cur(), T::Id(q) if q == k)
    }
    fn eatkw(&mut self, k: &str) -> bool {
        if self.iskw(k) {
            self.bump();
            true
        } else {
            false
        }
    }
    fn exkw(&mut self, k: &str) -> R<()> {
        if self.eatkw(k) {
            Ok(())
        } else {
            self.e(format!("expected keyword '{k}'"))
        }
    }
    fn ident(&mut self) -> R<String> {
        match self.cur().clone() {
            T::Id(s) => {
                if is_keyword(&s) {
                    return self.e(format!("keyword '{s}' used as identifier"));
                }
                self.bump();
                Ok(s)
            }
            T::Esc(s) => {
                self.bump();
                Ok(s)
            }
            _ => self.e("expected identifier"),
        }
    }
    fn range_opt(&mut self) -> R<Option<(Expr, Expr)>> {
        if self.eat("[") {
            let a = self.expr()?;
            if self.eat("]") {
                // [N] == [0:N-1]
                return Ok(Some((
                    Expr::Bin("-", Box::new(a), Box::new(num(1))),
                    num(0),
                )));
            }
            self.ex(":")?;
            let b = self.expr()?;
            self.ex("]")?;
            Ok(Some((a, b)))
        } else {
            Ok(None)
        }
    }
    fn module(&mut self) -> R<Module> {
        let line = self.line();
        self.exkw("module")?;
        let name = self.ident()?;
        let mut params = vec![];
        if self.eat("#") {
            self.ex("(")?;
            loop {
                self.eatkw("parameter");
                for k in ["int", "integer", "logic", "bit"] {
                    self.eatkw(k);
                }
                let r = self.range_opt()?;
                let n = self.ident()?;
                let v = if self.eat("=") { self.expr()? } else { num(0) };
                params.push((n, r, v));
                if !self.eat(",") {
                    break;
                }
            }
            self.ex(")")?;
        }
        let mut ports = vec![];
        if self.eat("(") {
            if !self.is(")") {
                let mut last: Option<(Dir, Option<(Expr, Expr)>)> = None;
                loop {
                    let dir = match self.cur() {
                        T::Id(s) if s == "input" => Some(Dir::In),
                        T::Id(s) if s == "output" => Some(Dir::Out),
                        T::Id(s) if s == "inout" => Some(Dir::InOut),
                        _ => None,
                    };
                    let (d, range) = if let Some(d) = dir {
                        self.bump();
                        for k in ["wire", "logic", "reg"] {
                            self.eatkw(k);
                        }
                        let r = self.range_opt()?;
                        last = Some((d, r.clone()));
                        (d, r)
                    } else {
                        match last.clone() {
                            Some(l) => l,
                            None => return self.e("expected port direction"),
                        }
                    };
                    let n = self.ident()?;
                    ports.push(Port { dir: d, name: n, range });
                    if !self.eat(",") {
                        break;
                    }
                }
            }
            self.ex(")")?;
        }
        self.ex(";")?;
        let mut items = vec![];
        loop {
            let l = self.line();
            if self.eatkw("endmodule") {
                break;
            }
            if self.eat(";") {
                continue;
            }
            self.item(l, &mut items)?;
        }
        Ok(Module { name, params, ports, items, line, attrs: vec![] })
    }
    fn item(&mut self, l: usize, items: &mut Vec<(Item, usize)>) -> R<()> {
        let kw = match self.cur() {
            T::Id(s) => s.clone(),
            _ => String::new(),
        };
        match kw.as_str() {
            "logic" | "reg" | "wire" => {
                self.bump();
                self.eatkw("signed");
                let range = self.range_opt()?;
                loop {
                    let name = self.ident()?;
                    let unpacked = self.range_opt()?;
                    items.push((Item::Decl { name: name.clone(), range: range.clone(), unpacked, kind: kw.clone() }, l));
                    if self.eat("=") {
                        let e = self.expr()?;
                        if kw == "wire" {
                            items.push((Item::Assign(Expr::Id(name), e), l));
                        } else {
                            items.push((Item::Initial(Stmt::Assign { lhs: Expr::Id(name), rhs: e, nb: false }), l));
                        }
                    }
                    if !self.eat(",") {
                        break;
                    }
                }
                self.ex(";")
            }
            "localparam" => {
                self.bump();
                let range = self.range_opt()?;
                let name = self.ident()?;
                self.ex("=")?;
                let val = self.expr()?;
                self.ex(";")?;
                items.push((Item::Localparam { name, range, val }, l));
                Ok(())
            }
            "assign" => {
                self.bump();
                let lhs = self.lvalue()?;
                self.ex("=")?;
                let rhs = self.expr()?;
                self.ex(";")?;
                items.push((Item::Assign(lhs, rhs), l));
                Ok(())
            }
            "always_comb" => {
                self.bump();
                let s = self.stmt()?;
                items.push((Item::Always(Trigger::Comb, s), l));
                Ok(())
            }
            "always" | "always_ff" | "always_latch" => {
                self.bump();
                if kw == "always_latch" {
                    let s = self.stmt()?;
                    items.push((Item::Always(Trigger::Comb, s), l));
                    return Ok(());
                }
                self.ex("@")?;
                let trig = if self.eat("*") {
                    Trigger::Comb
                } else {
                    self.ex("(")?;
                    if self.eat("*") {
                        self.ex(")")?;
                        Trigger::Comb
                    } else if self.iskw("posedge") || self.iskw("negedge") {
                        let mut v = vec![];
                        loop {
                            let pos = if self.eatkw("posedge") {
                                true
                            } else {
                                self.exkw("negedge")?;
                                false
                            };
                            v.push((pos, self.expr()?));
                            if !(self.eatkw("or") || self.eat(",")) {
                                break;
                            }
                        }
                        self.ex(")")?;
                        Trigger::Posedge(v)
                    } else {
                        let mut v = vec![];
                        loop {
                            v.push(self.expr()?);
                            if !(self.eatkw("or") || self.eat(",")) {
                                break;
                            }
                        }
                        self.ex(")")?;
                        Trigger::Change(v)
                    }
                };
                let s = self.stmt()?;
                items.push((Item::Always(trig, s), l));
                Ok(())
            }
            "initial" => {
                self.bump();
                let s = self.stmt()?;
                items.push((Item::Initial(s), l));
                Ok(())
            }
            _ => {
                let module = self.ident()?;
                let mut params = vec![];
                if self.eat("#") {
                    self.ex("(")?;
                    while !self.is(")") {
                        self.ex(".")?;
                        let n = self.ident()?;
                        self.ex("(")?;
                        let e = self.expr()?;
                        self.ex(")")?;
                        params.push((n, e));
                        if !self.eat(",") {
                            break;
                        }
                    }
                    self.ex(")")?;
                }
                let name = self.ident()?;
                self.ex("(")?;
                let mut conns = vec![];
                while !self.is(")") {
                    self.ex(".")?;
                    let n = self.ident()?;
                    self.ex("(")?;
                    let e = if self.is(")") { None } else { Some(self.expr()?) };
                    self.ex(")")?;
                    conns.push((n, e));
                    if !self.eat(",") {
                        break;
                    }
                }
                self.ex(")")?;
                self.ex(";")?;
                items.push((Item::Instance { module, params, name, conns }, l));
                Ok(())
            }
        }
    }
    fn lvalue(&mut self) -> R<Expr> {
        let e = self.primary()?;
        fn ok(e: &Expr) -> bool {
            match e {
                Expr::Id(_) => true,
                Expr::Index(b, _) | Expr::Range(b, _, _) | Expr::PartUp(b, _, _) | Expr::PartDown(b, _, _) => ok(b),
                Expr::Concat(v) => v.iter().all(ok),
                _ => false,
            }
        }
        if ok(&e) {
            Ok(e)
        } else {
            self.e("expression is not a legal assignment target")
        }
    }
    fn stmt(&mut self) -> R<Stmt> {
        let kw = match self.cur() {
            T::Id(s) => s.clone(),
            _ => String::new(),
        };
        match kw.as_str() {
            "begin" => {
                self.bump();
                if self.eat(":") {
                    self.ident()?;
                }
                let mut v = vec![];
                while !self.eatkw("end") {
                    v.push(self.stmt()?);
                }
                Ok(Stmt::Block(v))
            }
            "if" => {
                self.bump();
                self.ex("(")?;
                let c = self.expr()?;
                self.ex(")")?;
                let t = self.stmt()?;
                let e = if self.eatkw("else") { Some(Box::new(self.stmt()?)) } else { None };
                Ok(Stmt::If(c, Box::new(t), e))
            }
            "priority" | "unique" | "unique0" => {
                self.bump();
                self.stmt()
            }
            "case" | "casez" | "casex" => {
                self.bump();
                self.ex("(")?;
                let sel = self.expr()?;
                self.ex(")")?;
                let mut items = vec![];
                let mut default = None;
                while !self.eatkw("endcase") {
                    if self.eatkw("default") {
                        self.eat(":");
                        default = Some(Box::new(self.stmt()?));
                    } else {
                        let mut labels = vec![self.expr()?];
                        while self.eat(",") {
                            labels.push(self.expr()?);
                        }
                        self.ex(":")?;
                        let s = self.stmt()?;
                        items.push((labels, s));
                    }
                }
                Ok(Stmt::Case { kind: kw, sel, items, default })
            }
            "assert" => {
                self.bump();
                self.ex("(")?;
                let e = self.expr()?;
                self.ex(")")?;
                if self.eatkw("else") {
                    self.stmt()?;
                } else {
                    self.ex(";")?;
                }
                Ok(Stmt::Assert(e))
            }
            "for" | "while" | "repeat" | "forever" | "wait" => self.e("unsupported statement"),
            _ => {
                if self.eat(";") {
                    return Ok(Stmt::Null);
                }
                if self.eat("#") {
                    match self.bump() {
                        T::Num { .. } => {}
                        _ => return self.e("expected delay"),
                    }
                    if self.eat(";") {
                        return Ok(Stmt::Null);
                    }
                    return self.stmt();
                }
                if let T::Sys(n) = self.cur().clone() {
                    self.bump();
                    if self.eat("(") {
                        if !self.is(")") {
                            loop {
                                self.expr()?;
                                if !self.eat(",") {
                                    break;
                                }
                            }
                        }
                        self.ex(")")?;
                    }
                    self.ex(";")?;
                    return Ok(Stmt::Sys(n));
                }
                let lhs = self.lvalue()?;
                let nb = if self.eat("<=") {
                    true
                } else {
                    self.ex("=")?;
                    false
                };
                let rhs = self.expr()?;
                self.ex(";")?;
                Ok(Stmt::Assign { lhs, rhs, nb })
            }
        }
    }
    pub fn expr(&mut self) -> R<Expr> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.ex(":")?;
            let b = self.expr()?;
            return Ok(Expr::Tern(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn bin(&mut self, lvl: usize) -> R<Expr> {
        const L: &[&[&str]] = &[
            &["||"],
            &["&&"],
            &["|"],
            &["^", "~^", "^~"],
            &["&"],
            &["===", "!==", "==", "!="],
            &["<=", ">=", "<", ">"],
            &[">>>", "<<<", "<<", ">>"],
            &["+", "-"],
            &["*", "/", "%"],
        ];
        if lvl == L.len() {
            return self.unary();
        }
        let mut l = self.bin(lvl + 1)?;
        'o: loop {
            for op in L[lvl] {
                if self.is(op) {
                    self.bump();
                    let r = self.bin(lvl + 1)?;
                    l = Expr::Bin(op, Box::new(l), Box::new(r));
                    continue 'o;
                }
            }
            return Ok(l);
        }
    }
    fn unary(&mut self) -> R<Expr> {
        for op in ["~&", "~|", "~^", "^~", "!", "~", "-", "+", "&", "|", "^"] {
            if self.is(op) {
                self.bump();
                let e = self.unary()?;
                return Ok(Expr::Un(op, Box::new(e)));
            }
        }
        self.primary()
    }
    fn primary(&mut self) -> R<Expr> {
        let mut e = match self.cur().clone() {
            T::Num { val, signed, fill, sized } => {
                self.bump();
                return Ok(Expr::Num { val, signed, fill, sized });
            }
            T::Str(s) => {
                self.bump();
                return Ok(Expr::Str(s));
            }
            T::Sys(s) => {
                self.bump();
                if s == "time" {
                    return Ok(num(0));
                }
                self.ex("(")?;
                let mut args = vec![self.expr()?];
                while self.eat(",") {
                    args.push(self.expr()?);
                }
                self.ex(")")?;
                return match s.as_str() {
                    "signed" => Ok(Expr::Signed(Box::new(args.remove(0)))),
                    "unsigned" => Ok(Expr::Unsigned(Box::new(args.remove(0)))),
                    _ => self.e(format!("unsupported system function ${s}")),
                };
            }
            T::P("(") => {
                self.bump();
                let e = self.expr()?;
                self.ex(")")?;
                // a parenthesised expression cannot be indexed in Verilog
                return Ok(e);
            }
            T::P("{") => {
                self.bump();
                if self.eat("}") {
                    return Ok(Expr::Concat(vec![]));
                }
                let first = self.expr()?;
                if self.eat("{") {
                    let mut v = vec![];
                    if !self.is("}") {
                        loop {
                            v.push(self.expr()?);
                            if !self.eat(",") {
                                break;
                            }
                        }
                    }
                    self.ex("}")?;
                    self.ex("}")?;
                    return Ok(Expr::Repl(Box::new(first), v));
                }
                let mut v = vec![first];
                while self.eat(",") {
                    v.push(self.expr()?);
                }
                self.ex("}")?;
                return Ok(Expr::Concat(v));
            }
            _ => Expr::Id(self.ident()?),
        };
        while self.eat("[") {
            let a = self.expr()?;
            if self.eat(":") {
                let b = self.expr()?;
                self.ex("]")?;
                e = Expr::Range(Box::new(e), Box::new(a), Box::new(b));
            } else if self.eat("+:") {
                let b = self.expr()?;
                self.ex("]")?;
                e = Expr::PartUp(Box::new(e), Box::new(a), Box::new(b));
            } else if self.eat("-:") {
                let b = self.expr()?;
                self.ex("]")?;
                e = Expr::PartDown(Box::new(e), Box::new(a), Box::new(b));
            } else {
                self.ex("]")?;
                e = Expr::Index(Box::new(e), Box::new(a));
            }
        }
        Ok(e)
    }
}

pub fn num(n: u64) -> Expr {
    Expr::Num { val: crate::bits::LV::from_u64(n, 32), signed: true, fill: false, sized: false }
}
