//! C07: inverted wires are set exactly once and carry what was set.
//!
//! A program creates wires, packs them (with forward values) into a random nested value, sends that value
//! through random plumbing and sets or reads each leaf at the far end. What comes out of each wire has to
//! be what was put in at the other end. Each program is also tried with one use missing or one too many.
use crate::bits::{B, LV};
use crate::comp::{self, Opts, Src};
use crate::exec::{compile_text, run_vectors, Vector};
use crate::rng::Rng;
use crate::runner::{CheckDef, Ctx, JobOut};
use crate::vsim::sim::structural_check;
use serde_json::json;

/// the type of a leaf with its width
type Leaf = (String, usize);

#[derive(Clone)]
enum Shape {
    F(Leaf),
    I(Leaf),
    Tup(Vec<Shape>),
    St(usize),
    Arr(Box<Shape>, usize),
}

/// a value of a shape: leaves are numbered
#[derive(Clone)]
enum Node {
    F(usize),
    I(usize),
    Tup(Vec<Node>),
    St(usize, Vec<Node>),
    Arr(Vec<Node>),
}

struct Gen<'a> {
    r: &'a mut Rng,
    structs: Vec<Vec<Shape>>,
    /// type of each leaf, and whether it is inverted
    leaves: Vec<(Leaf, bool)>,
    units: Vec<Vec<String>>,
    /// lines that use a linear value up: unit, line
    uses: Vec<(usize, usize)>,
    /// (unit, line after which it is used up, expression, type)
    dead: Vec<(usize, usize, String, String)>,
    n: usize,
}

fn has_inv(g: &Gen, s: &Shape) -> bool {
    match s {
        Shape::F(_) => false,
        Shape::I(_) => true,
        Shape::Tup(v) => v.iter().any(|x| has_inv(g, x)),
        Shape::St(k) => g.structs[*k].clone().iter().any(|x| has_inv(g, x)),
        Shape::Arr(x, n) => *n > 0 && has_inv(g, x),
    }
}

impl Gen<'_> {
    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{p}{}", self.n)
    }
    fn leaf(&mut self) -> Leaf {
        match self.r.below(8) {
            0 => ("bool".into(), 1),
            1 => {
                let w = self.r.range(2, 9);
                (format!("int<{w}>"), w)
            }
            2 => {
                let w = self.r.range(1, 5);
                (format!("(uint<{w}>, bool)"), w + 1)
            }
            3 => {
                let (w, n) = (self.r.range(1, 4), self.r.range(1, 3));
                (format!("[uint<{w}>; {n}]"), w * n)
            }
            4 => {
                let w = self.r.range(1, 4);
                (format!("Option<uint<{w}>>"), w + 1)
            }
            5 => {
                let w = self.r.range(33, 70);
                (format!("uint<{w}>"), w)
            }
            _ => {
                let w = self.r.range(1, 9);
                (format!("uint<{w}>"), w)
            }
        }
    }
    fn shape(&mut self, d: usize) -> Shape {
        let k = if d == 0 { 0 } else { self.r.below(6) };
        match k {
            0 | 1 => {
                let l = self.leaf();
                if self.r.chance(3, 5) {
                    Shape::I(l)
                } else {
                    Shape::F(l)
                }
            }
            2 | 3 => {
                let n = self.r.range(1, 3);
                Shape::Tup((0..n).map(|_| self.shape(d - 1)).collect())
            }
            4 => {
                if !self.structs.is_empty() && self.r.chance(1, 3) {
                    return Shape::St(self.r.below(self.structs.len()));
                }
                let n = self.r.range(1, 3);
                let f: Vec<Shape> = (0..n).map(|_| self.shape(d - 1)).collect();
                self.structs.push(f);
                Shape::St(self.structs.len() - 1)
            }
            _ => {
                let s = self.shape(d - 1);
                let n = self.r.range(1, 3);
                Shape::Arr(Box::new(s), n)
            }
        }
    }
    fn node(&mut self, s: &Shape) -> Node {
        match s {
            Shape::F(l) | Shape::I(l) => {
                let inv = matches!(s, Shape::I(_));
                self.leaves.push((l.clone(), inv));
                let k = self.leaves.len() - 1;
                if inv {
                    Node::I(k)
                } else {
                    Node::F(k)
                }
            }
            Shape::Tup(v) => Node::Tup(v.iter().map(|x| self.node(x)).collect()),
            Shape::St(k) => {
                let f = self.structs[*k].clone();
                Node::St(*k, f.iter().map(|x| self.node(x)).collect())
            }
            Shape::Arr(x, n) => Node::Arr((0..*n).map(|_| self.node(x)).collect()),
        }
    }
    fn ty(&self, n: &Node) -> String {
        match n {
            Node::F(k) => self.leaves[*k].0 .0.clone(),
            Node::I(k) => format!("inv {}", self.leaves[*k].0 .0),
            Node::Tup(v) => format!("({},)", v.iter().map(|x| self.ty(x)).collect::<Vec<_>>().join(", ")),
            Node::St(k, _) => format!("S{k}"),
            Node::Arr(v) => format!("[{}; {}]", self.ty(&v[0]), v.len()),
        }
    }
    fn shape_ty(&self, s: &Shape) -> String {
        match s {
            Shape::F(l) => l.0.clone(),
            Shape::I(l) => format!("inv {}", l.0),
            Shape::Tup(v) => format!("({},)", v.iter().map(|x| self.shape_ty(x)).collect::<Vec<_>>().join(", ")),
            Shape::St(k) => format!("S{k}"),
            Shape::Arr(x, n) => format!("[{}; {}]", self.shape_ty(x), n),
        }
    }
    fn inverted(n: &Node) -> bool {
        match n {
            Node::F(_) => false,
            Node::I(_) => true,
            Node::Tup(v) | Node::St(_, v) | Node::Arr(v) => v.iter().any(Gen::inverted),
        }
    }
    fn leaves_of(n: &Node, o: &mut Vec<usize>) {
        match n {
            Node::F(k) | Node::I(k) => o.push(*k),
            Node::Tup(v) | Node::St(_, v) | Node::Arr(v) => v.iter().for_each(|x| Gen::leaves_of(x, o)),
        }
    }
    /// build a value from an expression for each leaf
    fn build(&mut self, n: &Node, leaf: &dyn Fn(usize) -> String) -> String {
        match n {
            Node::F(k) | Node::I(k) => leaf(*k),
            Node::Tup(v) => format!("({},)", v.iter().map(|x| self.build(x, leaf)).collect::<Vec<_>>().join(", ")),
            Node::Arr(v) => format!("[{}]", v.iter().map(|x| self.build(x, leaf)).collect::<Vec<_>>().join(", ")),
            Node::St(k, v) => {
                let a: Vec<String> = v.iter().map(|x| self.build(x, leaf)).collect();
                if self.r.bool() {
                    format!("S{k}({})", a.join(", "))
                } else {
                    let mut f: Vec<String> = a.iter().enumerate().map(|(i, x)| format!("m{i}: {x}")).collect();
                    self.r.shuffle(&mut f);
                    format!("S{k}$({})", f.join(", "))
                }
            }
        }
    }
    /// a pattern that binds all leaves as prefix + number
    fn pattern(&mut self, n: &Node, p: &str) -> String {
        match n {
            Node::F(k) | Node::I(k) => format!("{p}{k}"),
            Node::Tup(v) => format!("({},)", v.iter().map(|x| self.pattern(x, p)).collect::<Vec<_>>().join(", ")),
            Node::Arr(v) => format!("[{}]", v.iter().map(|x| self.pattern(x, p)).collect::<Vec<_>>().join(", ")),
            Node::St(k, v) => {
                let a: Vec<String> = v.iter().map(|x| self.pattern(x, p)).collect();
                if self.r.bool() {
                    format!("S{k}({})", a.join(", "))
                } else {
                    let mut f: Vec<String> = a.iter().enumerate().map(|(i, x)| format!("m{i}: {x}")).collect();
                    self.r.shuffle(&mut f);
                    format!("S{k}$({})", f.join(", "))
                }
            }
        }
    }
    /// bind all leaves of `e` by a mix of patterns and projections
    fn split(&mut self, u: usize, e: &str, n: &Node, p: &str) {
        match n {
            Node::F(k) | Node::I(k) => {
                let l = self.units[u].len();
                self.units[u].push(format!("let {p}{k} = {e};"));
                if Gen::inverted(n) {
                    self.dead.push((u, l, e.to_string(), self.ty(n)));
                }
            }
            _ if self.r.chance(1, 3) => {
                let pat = self.pattern(n, p);
                let l = self.units[u].len();
                self.units[u].push(format!("let {pat} = {e};"));
                if Gen::inverted(n) {
                    self.dead.push((u, l, e.to_string(), self.ty(n)));
                }
            }
            Node::Tup(v) | Node::St(_, v) | Node::Arr(v) => {
                let l0 = self.units[u].len();
                for (i, x) in v.iter().enumerate() {
                    let q = match n {
                        Node::Tup(_) => format!("{e}.{i}"),
                        Node::St(..) => format!("{e}.m{i}"),
                        _ => format!("{e}[{i}]"),
                    };
                    if self.r.chance(1, 4) && Gen::inverted(x) {
                        let t = self.fresh("t");
                        self.units[u].push(format!("let {t} = {q};"));
                        self.dead.push((u, self.units[u].len() - 1, q, self.ty(x)));
                        self.split(u, &t, x, p);
                    } else {
                        self.split(u, &q, x, p);
                    }
                }
                if Gen::inverted(n) && self.units[u].len() > l0 {
                    self.dead.push((u, self.units[u].len() - 1, e.to_string(), self.ty(n)));
                }
            }
        }
    }
    fn hop(&mut self, v: &str, n: &Node) -> String {
        let t = self.ty(n);
        let o = self.fresh("v");
        let inv = Gen::inverted(n);
        let mut lines: Vec<String> = vec![];
        match self.r.below(13) {
            0 => lines.push(format!("let {o} = {v};")),
            1 => {
                let h = self.fresh("h");
                let k = self.r.bool();
                self.units.push(vec![format!("{} {h}(p: {t}) -> {t} {{", if k { "fn" } else { "entity" }), "p".into(), "}".into()]);
                lines.push(format!("let {o} = {}{h}({v});", if k { "" } else { "inst " }));
            }
            2 => lines.push(format!("let {o} = inst gid({v});")),
            3 => lines.push(format!("let {o}: {t} = gfn::<{t}>({v});")),
            4 => {
                let (a, b) = (self.fresh("a"), self.fresh("a"));
                lines.push(format!("let ({a}, {b}): ({t}, inv {t}) = port();"));
                lines.push(format!("set {b} = {v};"));
                lines.push(format!("let {o} = {a};"));
            }
            5 | 6 => {
                let p = self.fresh("d") + "_";
                let pos = self.units[0].len();
                self.split(0, v, n, &p);
                let _ = pos;
                let e = self.build(n, &|k| format!("{p}{k}"));
                lines.push(format!("let {o} = {e};"));
            }
            7 => lines.push(format!("let {o} = ({v}, true).0;")),
            8 => lines.push(format!("let {o} = {{ let q = {v}; q }};")),
            9 => lines.push(format!("let {o} = Wrap$(w: {v}, z: true).w;")),
            10 => lines.push(format!("let {o} = Wrap({v}, true).unwrap_();")),
            11 => {
                let h = self.fresh("h");
                let p = self.fresh("d") + "_";
                self.units.push(vec![format!("entity {h}(p: {t}) -> {t} {{")]);
                let u = self.units.len() - 1;
                self.split(u, "p", n, &p);
                let e = self.build(n, &|k| format!("{p}{k}"));
                self.units[u].push(e);
                self.units[u].push("}".into());
                lines.push(format!("let {o} = inst {h}({v});"));
            }
            _ => lines.push(format!("let [{o}] = [{v}];")),
        }
        for l in lines {
            self.units[0].push(l);
        }
        if inv {
            self.dead.push((0, self.units[0].len() - 1, v.to_string(), t));
        }
        o
    }
    /// set and read all leaves
    fn finish(&mut self, u: usize, e: &str, n: &Node) {
        match n {
            Node::I(k) => {
                self.units[u].push(format!("set {e} = x{k};"));
                let l = self.units[u].len() - 1;
                self.uses.push((u, l));
                let t = self.ty(n);
                self.dead.push((u, l, e.to_string(), t));
            }
            Node::F(k) => self.units[u].push(format!("let o{k} = {e};")),
            Node::Tup(v) | Node::St(_, v) | Node::Arr(v) => {
                if u == 0 && self.r.chance(1, 4) {
                    // in a unit of its own
                    let mut ls = vec![];
                    Gen::leaves_of(n, &mut ls);
                    let h = self.fresh("sink");
                    let mut ps = vec![format!("p: {}", self.ty(n))];
                    let mut args = vec![e.to_string()];
                    let (mut ret, mut rt) = (vec![], vec![]);
                    for k in ls {
                        if self.leaves[k].1 {
                            ps.push(format!("x{k}: {}", self.leaves[k].0 .0));
                            args.push(format!("x{k}"));
                        } else {
                            ret.push(format!("o{k}"));
                            rt.push(self.leaves[k].0 .0.clone());
                        }
                    }
                    let (ret, rt) = if ret.is_empty() { ("true".into(), "bool".to_string()) } else { (format!("({},)", ret.join(", ")), format!("({},)", rt.join(", "))) };
                    self.units.push(vec![format!("entity {h}({}) -> {rt} {{", ps.join(", "))]);
                    let s = self.units.len() - 1;
                    self.finish(s, "p", n);
                    self.units[s].push(ret.clone());
                    self.units[s].push("}".into());
                    let lhs = if rt == "bool" { self.fresh("_z") } else { ret };
                    self.units[0].push(format!("let {lhs} = inst {h}({});", args.join(", ")));
                    if Gen::inverted(n) {
                        let l = self.units[0].len() - 1;
                        if rt == "bool" {
                            self.uses.push((0, l));
                        }
                        let t = self.ty(n);
                        self.dead.push((0, l, e.to_string(), t));
                    }
                    return;
                }
                if self.r.chance(1, 4) {
                    let p = self.fresh("d") + "_";
                    self.split(u, e, n, &p);
                    let mut ls = vec![];
                    Gen::leaves_of(n, &mut ls);
                    self.r.shuffle(&mut ls);
                    for k in ls {
                        let m = if self.leaves[k].1 { Node::I(k) } else { Node::F(k) };
                        self.finish(u, &format!("{p}{k}"), &m);
                    }
                    return;
                }
                let mut order: Vec<usize> = (0..v.len()).collect();
                self.r.shuffle(&mut order);
                for i in order {
                    let q = match n {
                        Node::Tup(_) => format!("{e}.{i}"),
                        Node::St(..) => format!("{e}.m{i}"),
                        _ => format!("{e}[{i}]"),
                    };
                    self.finish(u, &q, &v[i]);
                }
                if Gen::inverted(n) {
                    let l = self.units[u].len() - 1;
                    let t = self.ty(n);
                    self.dead.push((u, l, e.to_string(), t));
                }
            }
        }
    }
    fn print(&self) -> String {
        let mut o = String::new();
        for (k, f) in self.structs.iter().enumerate() {
            let f: Vec<String> = f.iter().enumerate().map(|(i, s)| format!("m{i}: {}", self.shape_ty(s))).collect();
            o.push_str(&format!("struct S{k} {{ {} }}\n", f.join(", ")));
        }
        o.push_str("struct Wrap<T> { w: T, z: bool }\nimpl<T> Wrap<T> { fn unwrap_(self) -> T { self.w } }\n");
        o.push_str("entity gid<T>(p: T) -> T { p }\nfn gfn<T>(p: T) -> T { p }\n");
        for u in self.units.iter().skip(1).chain(self.units.first()) {
            for l in u {
                o.push_str(l);
                o.push('\n');
            }
        }
        o
    }
}

fn rejected(what: &str, text: &str, base: &str, out: &mut JobOut) {
    let run = comp::compile(&[Src::single(text)], &Opts::default());
    out.evals += 1;
    if run.verdict() == "rejected" {
        out.key(&text);
        out.stat(&format!("rejected: {what}"), 1);
    } else {
        out.violation(format!("program with {what} is {}", run.verdict()), json!({"source": text, "control": base, "rendered": run.rendered}));
    }
}

fn round(deep: bool, r: &mut Rng, out: &mut JobOut) {
    let depth = r.range(1, if deep { 4 } else { 3 });
    let mut g = Gen { r, structs: vec![], leaves: vec![], units: vec![vec![]], uses: vec![], dead: vec![], n: 0 };
    let mut s = g.shape(depth);
    if !has_inv(&g, &s) {
        let l = g.leaf();
        s = Shape::Tup(vec![Shape::I(l), s]);
    }
    let n = g.node(&s);
    if g.leaves.len() > 24 {
        out.stat("programs too large", 1);
        return;
    }
    let mut head = vec![];
    let mut ret = vec![];
    let mut rt = vec![];
    let mut body = vec![];
    for (k, (l, inv)) in g.leaves.clone().iter().enumerate() {
        head.push(format!("x{k}: {}", l.0));
        if *inv {
            match g.r.below(3) {
                0 => {
                    body.push(format!("let q{k}: ({0}, inv {0}) = port();", l.0));
                    body.push(format!("let (f{k}, b{k}) = q{k};"));
                }
                1 => {
                    body.push(format!("let (f{k}, bb{k}): ({0}, inv {0}) = port();", l.0));
                    body.push(format!("let (g{k}, b{k}) = bb{k}.inspect();"));
                    ret.push(format!("g{k}"));
                    rt.push((l.clone(), k));
                }
                _ => body.push(format!("let (f{k}, b{k}): ({0}, inv {0}) = port();", l.0)),
            }
            ret.push(format!("f{k}"));
        } else {
            ret.push(format!("o{k}"));
        }
        rt.push((l.clone(), k));
    }
    g.units[0] = vec![format!(
        "entity top({}) -> ({},) {{",
        head.join(", "),
        rt.iter().map(|x| x.0 .0.clone()).collect::<Vec<_>>().join(", ")
    )];
    g.units[0].extend(body);
    let inv: Vec<bool> = g.leaves.iter().map(|l| l.1).collect();
    let e = g.build(&n, &|k| if inv[k] { format!("b{k}") } else { format!("x{k}") });
    g.units[0].push(format!("let v = {e};"));
    let mut v = "v".to_string();
    for _ in 0..g.r.range(0, if deep { 7 } else { 4 }) {
        v = g.hop(&v, &n);
    }
    g.finish(0, &v, &n);
    g.units[0].push(format!("({},)", ret.join(", ")));
    g.units[0].push("}".into());
    let text = g.print();
    let c = compile_text(&text, &Opts::default());
    out.evals += 1;
    if c.run.verdict() != "accepted" {
        out.violation(format!("correct program is {}: {}", c.run.verdict(), c.run.first_error()), json!({"source": text, "rendered": c.run.rendered}));
        return;
    }
    let Some(d) = c.design else {
        out.violation("emitted Verilog has a syntax error", json!({"source": text, "error": format!("{:?}", c.syntax_error)}));
        return;
    };
    out.key(&text);
    out.sample(text.clone());
    if let Some(i) = structural_check(&d).into_iter().find(|i| i.kind != "select-out-of-range") {
        out.violation(format!("{}: {}", i.kind, i.msg), json!({"source": text}));
        return;
    }
    let ports: Vec<String> = (0..g.leaves.len()).map(|k| format!("x{k}")).collect();
    let vs: Vec<Vector> = (0..8)
        .map(|_| {
            let ins: Vec<LV> = g
                .leaves
                .iter()
                .map(|((_, w), _)| {
                    let mut v = LV::zeros(*w);
                    for i in 0..*w {
                        if g.r.bool() {
                            v.set_bit(i, B::B1);
                        }
                    }
                    v
                })
                .collect();
            let want = LV::concat(&rt.iter().map(|(_, k)| ins[*k].clone()).collect::<Vec<_>>());
            Vector { ins, want, asserts_failed: false }
        })
        .collect();
    out.stat("values observed", (vs.len() * rt.len()) as u64);
    if let Some(m) = run_vectors(&d, "top", &ports, &vs) {
        out.violation(format!("{}: a wire does not carry the value it was set to", m.what), json!({"source": text, "detail": m.detail}));
        return;
    }
    out.evals += vs.len() as u64;
    // one use missing, one too many
    let edit = |u: usize, f: &dyn Fn(&mut Vec<String>)| {
        let mut units = g.units.clone();
        f(&mut units[u]);
        let h = Gen { r: &mut Rng::new(0), structs: g.structs.clone(), leaves: vec![], units, uses: vec![], dead: vec![], n: 0 };
        h.print()
    };
    let mut rr = Rng::new(g.leaves.len() as u64 * 7919 + g.n as u64 + text.len() as u64 * 31);
    let m = if deep { 4 } else { 2 };
    for _ in 0..m {
        if !g.uses.is_empty() {
            let (u, l) = *rr.pick(&g.uses);
            let t = edit(u, &|x| {
                x.remove(l);
            });
            rejected("an inverted wire that is not set", &t, &text, out);
        }
        let sets: Vec<(usize, usize)> = g.uses.iter().copied().filter(|(u, l)| g.units[*u][*l].starts_with("set")).collect();
        if !sets.is_empty() {
            let (u, l) = *rr.pick(&sets);
            let t = edit(u, &|x| {
                let s = x[l].clone();
                x.insert(l + 1, s)
            });
            rejected("an inverted wire set twice", &t, &text, out);
        }
        if !g.dead.is_empty() {
            let (u, l, e, ty) = rr.pick(&g.dead).clone();
            let t = edit(u, &|x| x.insert(l + 1, format!("let zz = inst eat({e});")));
            let t = format!("extern entity eat(p: {ty}) -> bool;\n{t}");
            rejected("a value used after it was consumed", &t, &text, out);
            let t = edit(u, &|x| x.insert(l, format!("let zz = inst eat({e});")));
            let t = format!("extern entity eat(p: {ty}) -> bool;\n{t}");
            rejected("a value consumed before its use", &t, &text, out);
        }
        let k = rr.below(g.leaves.len());
        let lt = g.leaves[k].0 .0.clone();
        let (what, extra) = match rr.below(6) {
            0 => ("an unused port", format!("let (ff, bb): ({lt}, inv {lt}) = port();")),
            1 => ("a discarded port", format!("let (ff, _): ({lt}, inv {lt}) = port();")),
            2 => ("a half used array", format!("let (ff, bb): ({lt}, inv {lt}) = port();\nlet (fg, bc): ({lt}, inv {lt}) = port();\nlet ar = [bb, bc];\nset ar[1] = x{k};")),
            3 => ("a half used tuple", format!("let (ff, bb): ({lt}, inv {lt}) = port();\nlet (fg, bc): ({lt}, inv {lt}) = port();\nlet ar = ((bb, bc), true);\nset ar.0.0 = x{k};")),
            4 => ("a wire copied into an array", format!("let (ff, bb): ({lt}, inv {lt}) = port();\nlet ar = [bb; 2];\nset ar[0] = x{k};\nset ar[1] = x{k};")),
            _ => ("an array element set twice", format!("let (ff, bb): ({lt}, inv {lt}) = port();\nlet (fg, bc): ({lt}, inv {lt}) = port();\nlet ar = [bb, bc];\nset ar[1] = x{k};\nset ar[0] = x{k};\nlet c = ar;\nset c[1] = x{k};")),
        };
        let t = edit(0, &|x| x.insert(1, extra.clone()));
        rejected(what, &t, &text, out);
    }
}

fn run(c: &Ctx, _j: usize, r: &mut Rng, out: &mut JobOut) {
    round(c.thorough, r, out);
}

pub fn c07() -> CheckDef {
    CheckDef {
        id: "C07",
        jobs: |t| if t { 20_000 } else { 140 },
        run,
        rule: "workload: random nested values of tuples, structs and arrays with forward and inverted leaves (numbers, tuples, arrays, options) sent through random plumbing (bindings, functions, entities, generic units, methods, wrappers, ports of the whole value set from the other side, taking apart by patterns and projections and putting together again, inspect), each leaf set or read at the far end, there or in another unit. Oracle: what comes out of each wire is bit for bit what went in at the other end, and each net has one driver; the same program with one set dropped or doubled, one consumed value or part of it used again, or an extra wire unused, half used or copied is rejected",
        assumptions: &["projections of `inv` of an aggregate are not part of the language; such wires are set as a whole"],
        crash_is_violation: true,
    }
}
