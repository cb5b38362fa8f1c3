//! C17: names denote the visible lexical definition; hidden, unknown and repeated names are rejected.
use crate::bits::LV;
use crate::comp::{self, Opts, Src};
use crate::rng::Rng;
use crate::runner::{CheckDef, Ctx, JobOut};
use crate::vsim::sim::Sim;
use serde_json::json;
use std::collections::HashSet;

// ---- module trees ----

#[derive(Clone, Copy, PartialEq, Debug)]
enum Vis {
    Priv,
    AtSelf,
    Super,
    Lib,
    Pub,
}
impl Vis {
    fn text(self) -> &'static str {
        match self {
            Vis::Priv => "",
            Vis::AtSelf => "pub(self) ",
            Vis::Super => "pub(super) ",
            Vis::Lib => "pub(lib) ",
            Vis::Pub => "pub ",
        }
    }
    fn random(r: &mut Rng) -> Vis {
        [Vis::Pub, Vis::Priv, Vis::Super, Vis::Lib, Vis::AtSelf][r.weighted(&[9, 5, 3, 3, 1])]
    }
}

#[derive(Clone, Debug)]
enum Kind {
    Mod(usize),
    Fun(u64),
    Struct(u64),
    Enum(u64),
    Trait(u64),
    Alias(Vec<String>),
}

#[derive(Clone, Debug)]
struct Entry {
    name: String,
    vis: Vis,
    kind: Kind,
}

#[derive(Clone, Debug, Default)]
struct Module {
    name: String,
    parent: Option<usize>,
    lib_root: bool,
    file: bool,
    entries: Vec<Entry>,
    /// texts of the functions which use names
    users: Vec<String>,
}

#[derive(Clone, Debug, Default)]
struct Tree {
    mods: Vec<Module>,
    next: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Res {
    Mod(usize),
    Item(usize, usize),
    Variant(usize, usize, usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Why {
    Unknown,
    Hidden,
}

const NAMES: &[&str] = &["foo", "bar", "baz", "qux", "ping", "m", "n", "proj", "dep"];

impl Tree {
    fn lib_of(&self, mut m: usize) -> usize {
        loop {
            if self.mods[m].lib_root {
                return m;
            }
            match self.mods[m].parent {
                Some(p) => m = p,
                None => return m,
            }
        }
    }
    fn within(&self, mut m: usize, a: usize) -> bool {
        loop {
            if m == a {
                return true;
            }
            match self.mods[m].parent {
                Some(p) => m = p,
                None => return false,
            }
        }
    }
    fn visible(&self, vis: Vis, owner: usize, from: usize) -> bool {
        let scope = match vis {
            Vis::Pub => return true,
            Vis::Priv | Vis::AtSelf => owner,
            Vis::Super => self.mods[owner].parent.unwrap_or(owner),
            Vis::Lib => self.lib_of(owner),
        };
        self.within(from, scope)
    }
    fn find(&self, m: usize, n: &str) -> Option<usize> {
        self.mods[m].entries.iter().position(|e| e.name == n)
    }
    /// what the path written in module m denotes
    fn resolve(&self, path: &[String], m: usize, hide: bool, seen: &mut Vec<(usize, usize)>) -> Result<Res, Why> {
        let mut at = 0;
        let mut cur = match path[0].as_str() {
            "lib" => {
                at = 1;
                self.lib_of(m)
            }
            "self" => {
                at = 1;
                m
            }
            "super" => {
                let mut c = m;
                while path.get(at).is_some_and(|s| s == "super") {
                    c = self.mods[c].parent.ok_or(Why::Unknown)?;
                    at += 1;
                }
                c
            }
            h => {
                if self.find(m, h).is_some() {
                    m
                } else {
                    0
                }
            }
        };
        let mut res = Res::Mod(cur);
        for s in &path[at..] {
            match res {
                Res::Mod(c) => cur = c,
                Res::Item(o, i) => {
                    let Kind::Enum(_) = self.mods[o].entries[i].kind else { return Err(Why::Unknown) };
                    let k = ["A", "B"].iter().position(|v| v == s).ok_or(Why::Unknown)?;
                    res = Res::Variant(o, i, k);
                    continue;
                }
                Res::Variant(..) => return Err(Why::Unknown),
            }
            let i = self.find(cur, s).ok_or(Why::Unknown)?;
            let e = &self.mods[cur].entries[i];
            if hide && !self.visible(e.vis, cur, m) {
                return Err(Why::Hidden);
            }
            res = match &e.kind {
                Kind::Mod(c) => Res::Mod(*c),
                Kind::Alias(p) => {
                    if seen.contains(&(cur, i)) {
                        return Err(Why::Unknown);
                    }
                    seen.push((cur, i));
                    let x = self.resolve(p, cur, hide, seen);
                    seen.pop();
                    let x = x?;
                    // what an alias stands for has to be visible as well
                    if hide {
                        let (o, vis) = match x {
                            Res::Mod(c) => match self.mods[c].parent {
                                Some(p) => (p, self.mods[p].entries[self.find(p, &self.mods[c].name).unwrap()].vis),
                                None => (0, Vis::Pub),
                            },
                            Res::Item(o, i) | Res::Variant(o, i, _) => (o, self.mods[o].entries[i].vis),
                        };
                        if !self.visible(vis, o, m) {
                            return Err(Why::Hidden);
                        }
                    }
                    x
                }
                _ => Res::Item(cur, i),
            };
        }
        Ok(res)
    }
    fn res(&self, path: &[String], m: usize) -> Result<Res, Why> {
        self.resolve(path, m, true, &mut vec![])
    }
    fn add(&mut self, m: usize, name: &str, vis: Vis, kind: Kind) -> bool {
        if self.find(m, name).is_some() {
            return false;
        }
        self.mods[m].entries.push(Entry { name: name.into(), vis, kind });
        true
    }
    fn add_mod(&mut self, parent: usize, name: &str, vis: Vis, file: bool, lib_root: bool) -> Option<usize> {
        let id = self.mods.len();
        if !self.add(parent, name, vis, Kind::Mod(id)) {
            return None;
        }
        self.mods.push(Module { name: name.into(), parent: Some(parent), file, lib_root, ..Default::default() });
        Some(id)
    }
    fn unique(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    fn item(&mut self, r: &mut Rng) -> Kind {
        let k = self.unique();
        match r.weighted(&[5, 3, 3, 2]) {
            0 => Kind::Fun(k),
            1 => Kind::Struct(k),
            2 => Kind::Enum(k),
            _ => Kind::Trait(k),
        }
    }
    /// a path which leads somewhere, not caring about visibility
    fn walk(&self, m: usize, r: &mut Rng) -> Option<Vec<String>> {
        let mut path: Vec<String> = vec![];
        let mut cur = match r.weighted(&[3, 3, 1, 4, 4]) {
            0 => {
                path.push("lib".into());
                self.lib_of(m)
            }
            1 => {
                let mut c = m;
                for _ in 0..r.range(1, 3) {
                    if let Some(p) = self.mods[c].parent {
                        path.push("super".into());
                        c = p;
                    }
                }
                if path.is_empty() {
                    return None;
                }
                c
            }
            2 => {
                path.push("self".into());
                m
            }
            3 => m,
            _ => 0,
        };
        for step in 0..5 {
            let es = &self.mods[cur].entries;
            if es.is_empty() {
                return None;
            }
            let mut e = r.pick(es);
            if r.bool() {
                // prefer to go on
                let c: Vec<&Entry> =
                    es.iter().filter(|e| matches!(e.kind, Kind::Mod(_) | Kind::Alias(_))).collect();
                if !c.is_empty() && step < 3 {
                    e = *r.pick(&c);
                }
            }
            path.push(e.name.clone());
            match self.resolve(&path, m, false, &mut vec![]).ok()? {
                Res::Mod(c) => cur = c,
                Res::Item(o, i) => {
                    if matches!(self.mods[o].entries[i].kind, Kind::Enum(_)) && r.chance(1, 3) {
                        path.push(["A", "B"][r.below(2)].into());
                    }
                    return Some(path);
                }
                _ => return Some(path),
            }
        }
        None
    }

    fn random(r: &mut Rng) -> Tree {
        let mut t = Tree { mods: vec![Module::default()], next: 100 };
        let plain = r.chance(1, 3);
        if plain {
            t.mods[0].lib_root = true;
            t.mods[0].file = true;
        } else {
            t.add_mod(0, "proj", Vis::Pub, true, true);
        }
        for l in ["dep", "aux"] {
            if r.chance(if plain { 1 } else { 2 }, 3) {
                t.add_mod(0, l, Vis::Pub, true, true);
            }
        }
        let nmods = r.range(2, 9);
        for _ in 0..nmods {
            let cands: Vec<usize> = (0..t.mods.len()).filter(|m| *m != 0 || plain).collect();
            let p = *r.pick(&cands);
            let file = t.mods[p].file && r.bool();
            let n = *r.pick(NAMES);
            t.add_mod(p, n, Vis::random(r), file, false);
        }
        for m in 0..t.mods.len() {
            if m == 0 && !plain {
                continue;
            }
            for _ in 0..r.range(1, 4) {
                let k = t.item(r);
                let n = *r.pick(NAMES);
                t.add(m, n, Vis::random(r), k);
            }
        }
        // aliases, also of aliases
        for _ in 0..r.range(2, 12) {
            let m = r.below(t.mods.len());
            if m == 0 && !plain {
                continue;
            }
            let Some(p) = t.walk(m, r) else { continue };
            let p = if r.chance(1, 3) && p.len() > 1 { p[..p.len() - 1].to_vec() } else { p };
            if matches!(p.last().unwrap().as_str(), "lib" | "self" | "super") {
                continue;
            }
            if t.res(&p, m).is_err() {
                continue;
            }
            let n = if r.bool() { p.last().unwrap().clone() } else { r.pick(NAMES).to_string() };
            t.add(m, &n, Vis::random(r), Kind::Alias(p));
        }
        // new names may have changed what other aliases mean
        loop {
            let mut bad = None;
            for m in 0..t.mods.len() {
                for (i, e) in t.mods[m].entries.iter().enumerate() {
                    if let Kind::Alias(p) = &e.kind {
                        if t.resolve(p, m, true, &mut vec![(m, i)]).is_err() {
                            bad = Some((m, i));
                        }
                    }
                }
            }
            match bad {
                Some((m, i)) => {
                    t.mods[m].entries.remove(i);
                }
                None => break,
            }
        }
        t
    }

    fn entry_text(&self, e: &Entry, r: &mut Rng, ind: &str, out: &mut String) {
        let (v, n) = (e.vis.text(), &e.name);
        let s = match &e.kind {
            Kind::Mod(c) if self.mods[*c].lib_root => return,
            Kind::Mod(c) if self.mods[*c].file => format!("{v}mod {n};"),
            Kind::Mod(c) => {
                out.push_str(&format!("{ind}{v}mod {n} {{\n"));
                self.body(*c, r, &format!("{ind}    "), out);
                format!("}}")
            }
            Kind::Fun(k) => format!("{v}fn {n}() -> uint<16> {{ {k} }}"),
            Kind::Struct(k) => {
                format!("{v}struct {n} {{ v: bool }}\n{ind}impl {n} {{ fn id(self) -> uint<16> {{ {k} }} }}")
            }
            Kind::Enum(k) => {
                format!("{v}enum {n} {{ A, B {{ x: bool }} }}\n{ind}impl {n} {{ fn id(self) -> uint<16> {{ {k} }} }}")
            }
            Kind::Trait(k) => format!(
                "{v}trait {n} {{ fn tid{k}(self) -> uint<16>; }}\n{ind}impl {n} for bool {{ fn tid{k}(self) -> uint<16> {{ {k} }} }}"
            ),
            Kind::Alias(p) => {
                let same = p.last() == Some(n);
                let path = p.join("::");
                if same && r.bool() {
                    format!("{v}use {path};")
                } else if p.len() > 1 && r.chance(1, 3) {
                    let k = r.range(1, p.len() - 1);
                    let tail = p[k..].join("::");
                    let a = if same { String::new() } else { format!(" as {n}") };
                    format!("{v}use {}::{{{tail}{a}}};", p[..k].join("::"))
                } else {
                    format!("{v}use {path} as {n};")
                }
            }
        };
        out.push_str(&format!("{ind}{s}\n"));
    }
    fn body(&self, m: usize, r: &mut Rng, ind: &str, out: &mut String) {
        for e in &self.mods[m].entries {
            self.entry_text(e, r, ind, out);
        }
        for u in &self.mods[m].users {
            out.push_str(&format!("{ind}{u}\n"));
        }
    }
    fn path_of(&self, m: usize) -> Vec<String> {
        match self.mods[m].parent {
            None => vec![],
            Some(p) => {
                let mut v = self.path_of(p);
                v.push(self.mods[m].name.clone());
                v
            }
        }
    }
    fn sources(&self, r: &mut Rng) -> Vec<Src> {
        let mut v = vec![];
        for m in 0..self.mods.len() {
            if !(self.mods[m].file) {
                continue;
            }
            let mut text = String::new();
            self.body(m, r, "", &mut text);
            let ns = self.path_of(m);
            let lib = self.path_of(self.lib_of(m));
            let file = if self.mods[m].lib_root {
                format!("{}/main.spade", if lib.is_empty() { "src".to_string() } else { lib.join("/") })
            } else {
                format!("{}.spade", ns.join("/"))
            };
            v.push(Src { ns, base: lib, file, text });
        }
        r.shuffle(&mut v);
        v
    }

    /// a function which uses what the path denotes; None if there is no such use
    fn user(&self, n: usize, p: &str, k: &Res, r: &mut Rng) -> Option<String> {
        let head = format!("pub fn u{n}() -> uint<16>");
        Some(match k {
            Res::Mod(_) => return None,
            Res::Variant(_, _, 0) => format!("{head} {{ let s = {p}; s.id() }}"),
            Res::Variant(..) => match r.below(2) {
                0 => format!("{head} {{ let s = {p}(true); match s {{ {p}(_) => s.id(), _ => 0 }} }}"),
                _ => format!("{head} {{ let s = {p}$(x: false); if let {p}(false) = s {{ s.id() }} else {{ 0 }} }}"),
            },
            Res::Item(o, i) => match self.mods[*o].entries[*i].kind {
                Kind::Fun(_) => match r.below(3) {
                    0 => format!("{head} {{ {p}() }}"),
                    1 => format!("{head} {{ let f = 5; let g: uint<16> = if f == 5u8 {{ {p}() }} else {{ 1 }}; g }}"),
                    _ => format!("{head} {{ (fn |x| {{ if x {{ {p}() }} else {{ 0 }} }}).call((true,)) }}"),
                },
                Kind::Struct(_) => match r.below(4) {
                    0 => format!("{head} {{ let s: {p} = {p}(true); s.id() }}"),
                    1 => format!("{head} {{ let s: Option<{p}> = Some({p}$(v: true)); s.unwrap_or({p}(false)).id() }}"),
                    2 => format!("{head} {{ let {p}(x) = h{n}({p}(true)); {p}(x).id() }} fn h{n}(q: {p}) -> {p} {{ q }}"),
                    _ => format!("{head} {{ let s: [({p}, bool); 2] = [({p}(true), false); 2]; s[1].0.id() }}"),
                },
                Kind::Enum(_) => match r.below(2) {
                    0 => format!(
                        "{head} {{ let s: {p} = {p}::B(true); match s {{ {p}::A => 0, {p}::B(_) => s.id() }} }}"
                    ),
                    _ => format!("{head} {{ h{n}({p}::A) }} fn h{n}(q: {p}) -> uint<16> {{ if let {p}::A = q {{ q.id() }} else {{ 0 }} }}"),
                },
                Kind::Trait(k) => match r.below(2) {
                    0 => format!("{head} {{ h{n}(true) }} fn h{n}<X>(q: X) -> uint<16> where X: {p} {{ q.tid{k}() }}"),
                    _ => format!("{head} {{ h{n}(true) }} fn h{n}<X: {p}>(q: X) -> uint<16> {{ q.tid{k}() }}"),
                },
                _ => return None,
            },
        })
    }
    fn want(&self, k: &Res) -> u64 {
        let (Res::Item(o, i) | Res::Variant(o, i, _)) = k else { unreachable!() };
        match self.mods[*o].entries[*i].kind {
            Kind::Fun(k) | Kind::Struct(k) | Kind::Enum(k) | Kind::Trait(k) => k,
            _ => unreachable!(),
        }
    }
    fn user_mods(&self) -> Vec<usize> {
        (0..self.mods.len()).filter(|m| *m != 0 || self.mods[0].lib_root).collect()
    }
}

fn show(srcs: &[Src]) -> String {
    srcs.iter().map(|s| format!("// {},{},{}\n{}", s.base.join("::"), s.ns.join("::"), s.file, s.text)).collect::<Vec<_>>().join("\n")
}

fn get_const(d: &crate::vsim::Design, top: &str) -> Result<LV, String> {
    let mut issues = vec![];
    let mut s = Sim::new(d, top, &mut issues)?;
    s.settle().map_err(|e| format!("{e:?}"))?;
    Ok(s.get("output__"))
}

/// the tree with one violation, and what it is
fn violate(t: &Tree, r: &mut Rng) -> Option<(Tree, String)> {
    let mut t = t.clone();
    let ms = t.user_mods();
    let m = *r.pick(&ms);
    match r.below(6) {
        // a path to a hidden item
        0 | 1 => {
            for _ in 0..60 {
                let m = *r.pick(&ms);
                let Some(p) = t.walk(m, r) else { continue };
                if t.res(&p, m) != Err(Why::Hidden) {
                    continue;
                }
                let k = t.resolve(&p, m, false, &mut vec![]).ok()?;
                let path = p.join("::");
                if r.chance(1, 4) {
                    let n = format!("al{}", r.below(10));
                    t.mods[m].users.push(format!("use {path} as {n};"));
                    return Some((t, format!("use of hidden {path}")));
                }
                let Some(u) = t.user(9000, &path, &k, r) else { continue };
                t.mods[m].users.push(u);
                return Some((t, format!("hidden {path}")));
            }
            None
        }
        // an unknown name somewhere in the path
        2 => {
            for _ in 0..30 {
                let Some(mut p) = t.walk(m, r) else { continue };
                let Ok(k) = t.res(&p, m) else { continue };
                let i = r.below(p.len());
                if matches!(p[i].as_str(), "lib" | "self" | "super" | "A" | "B") {
                    continue;
                }
                match r.below(3) {
                    0 => p[i] = "nowhere".into(),
                    1 => p[i] = r.pick(NAMES).to_string(),
                    _ => {
                        if p.len() < 2 {
                            continue;
                        }
                        p.remove(i);
                    }
                }
                if t.res(&p, m) != Err(Why::Unknown) {
                    continue;
                }
                let path = p.join("::");
                let Some(u) = t.user(9000, &path, &k, r) else { continue };
                t.mods[m].users.push(u);
                return Some((t, format!("unknown {path}")));
            }
            None
        }
        // two items of one name
        3 => {
            if t.mods[m].entries.is_empty() {
                return None;
            }
            let e = r.pick(&t.mods[m].entries).clone();
            if matches!(&e.kind, Kind::Mod(c) if t.mods[*c].lib_root) {
                return None;
            }
            let k = if r.chance(1, 3) {
                let Some(p) = t.walk(m, r) else { return None };
                if t.res(&p, m).is_err() {
                    return None;
                }
                Kind::Alias(p)
            } else if r.chance(1, 4) {
                let id = t.mods.len();
                t.mods.push(Module { name: e.name.clone(), parent: Some(m), ..Default::default() });
                Kind::Mod(id)
            } else {
                t.item(r)
            };
            let at = r.below(t.mods[m].entries.len() + 1);
            t.mods[m].entries.insert(at, Entry { name: e.name.clone(), vis: Vis::random(r), kind: k });
            Some((t, format!("two definitions of {}", e.name)))
        }
        // an item of the wrong kind
        4 => {
            for _ in 0..40 {
                let Some(p) = t.walk(m, r) else { continue };
                let p = if r.chance(1, 3) { p[..p.len() - 1].to_vec() } else { p };
                if p.is_empty() || matches!(p.last().unwrap().as_str(), "lib" | "self" | "super") {
                    continue;
                }
                let Ok(k) = t.res(&p, m) else { continue };
                let path = p.join("::");
                let class = match k {
                    Res::Mod(_) => 0,
                    Res::Variant(..) => 1,
                    Res::Item(o, i) => match t.mods[o].entries[i].kind {
                        Kind::Fun(_) => 2,
                        Kind::Struct(_) => 3,
                        Kind::Enum(_) => 4,
                        _ => 5,
                    },
                };
                let (cls, u) = match r.below(4) {
                    0 => (vec![0, 4, 5, 1, 3], format!("pub fn u9000() -> uint<16> {{ {path}() }}")),
                    1 => (vec![0, 1, 2, 5], format!("pub fn u9000(x: {path}) -> uint<16> {{ 0 }}")),
                    2 => (vec![0, 1, 2, 3, 4], format!("pub fn u9000<T>(x: T) -> uint<16> where T: {path} {{ 0 }}")),
                    _ => (vec![0, 2, 3, 4, 5], format!("pub fn u9000() -> uint<16> {{ let x = {path}; 0 }}")),
                };
                if !cls.contains(&class) {
                    continue;
                }
                t.mods[m].users.push(u.clone());
                return Some((t, format!("wrong kind: {k:?} used in {u}")));
            }
            None
        }
        // a cycle of aliases
        _ => {
            let n = r.range(1, 3);
            let mut used = HashSet::new();
            let ms: Vec<usize> = (0..n).map(|_| *r.pick(&ms)).collect();
            let names: Vec<String> = (0..n).map(|i| format!("cyc{i}")).collect();
            for i in 0..n {
                let j = (i + 1) % n;
                let mut p = t.path_of(ms[j]);
                if p.is_empty() || ms[i] == ms[j] {
                    p = vec!["self".into()];
                    if ms[i] != ms[j] {
                        return None;
                    }
                }
                // the absolute path has to mean what it says here
                let target = t.resolve(&p, ms[i], true, &mut vec![]);
                if target != Ok(Res::Mod(ms[j])) {
                    return None;
                }
                p.push(names[j].clone());
                used.insert(i);
                t.mods[ms[i]].entries.push(Entry { name: names[i].clone(), vis: Vis::Pub, kind: Kind::Alias(p) });
            }
            t.mods[ms[0]].users.push("pub fn u9000() -> uint<16> { self::cyc0() }".into());
            Some((t, format!("{n} aliases in a cycle")))
        }
    }
}

fn trees(nbad: usize, r: &mut Rng, out: &mut JobOut) {
    let t = Tree::random(r);
    let mut good = t.clone();
    let mut uses = vec![];
    let ms = t.user_mods();
    for _ in 0..120 {
        let m = *r.pick(&ms);
        let Some(p) = t.walk(m, r) else { continue };
        let Ok(k) = t.res(&p, m) else { continue };
        let n = uses.len();
        let path = p.join("::");
        let Some(u) = t.user(n, &path, &k, r) else { continue };
        good.mods[m].users.push(u);
        uses.push((m, n, path, k));
        if uses.len() >= 40 {
            break;
        }
    }
    let srcs = good.sources(r);
    let run = comp::compile(&srcs, &Opts::default());
    out.evals += 1;
    if run.verdict() != "accepted" {
        out.violation(
            format!("program whose names all resolve {}: {}", run.verdict(), run.first_error()),
            json!({"source": show(&srcs), "rendered": run.rendered}),
        );
        return;
    }
    out.key(&show(&srcs));
    out.stat("correct module trees", 1);
    out.stat("files", srcs.len() as u64);
    match crate::vsim::Design::parse(&[&run.ok().unwrap().verilog]) {
        Err(e) => out.violation(format!("the Verilog does not parse: {e}"), json!({"source": show(&srcs)})),
        Ok(d) => {
            for (m, n, path, k) in &uses {
                let mut top = t.path_of(*m);
                top.push(format!("u{n}"));
                let want = t.want(k);
                out.evals += 1;
                out.stat("uses of items simulated", 1);
                match get_const(&d, &top.join("::")) {
                    Ok(v) if v.to_u64() == Some(want) => {}
                    got => out.violation(
                        format!("{path} in {}: denotes {want} but the hardware has {:?}", top.join("::"), got.map(|v| v.to_bin())),
                        json!({"source": show(&srcs)}),
                    ),
                }
            }
        }
    }
    for _ in 0..nbad {
        let Some((b, what)) = violate(&t, r) else { continue };
        let srcs = b.sources(r);
        let run = comp::compile(&srcs, &Opts::default());
        out.evals += 1;
        if run.verdict() != "rejected" {
            out.violation(
                format!("program with {what} is {}", run.verdict()),
                json!({"source": show(&srcs), "rendered": run.rendered}),
            );
            continue;
        }
        if run.diags.iter().filter(|d| d.error).all(|d| d.bug) {
            out.stat("rejected with an internal error", 1);
        }
        out.key(&show(&srcs));
        out.stat(&format!("rejected: {}", what.split(' ').next().unwrap()), 1);
    }
}

// ---- bindings inside units ----

type Id = usize;

#[derive(Clone, Debug)]
enum X {
    Num(u8),
    /// variable, read that many stages earlier
    Var(Id, usize),
    Bin(&'static str, Box<X>, Box<X>),
    If(Box<C>, Box<X>, Box<X>),
    IfLet(Id, Box<C>, Box<X>, Box<X>, Box<X>),
    Block(Vec<S>, Box<X>),
    /// arms: literal or binding, with a guard; the last arm binds
    Match(Box<X>, Vec<(Option<u8>, Option<Id>, Option<C>, X)>),
    /// pairs: (x, y) matched by (a, literal), (literal, a), (a, b)
    Pair(Box<X>, Box<X>, Vec<(PP, PP, X)>),
    Call(Id, Vec<X>),
    Now(Vec<Id>, Box<X>, Vec<X>),
    Unit(usize, Vec<X>),
}
#[derive(Clone, Debug)]
enum PP {
    Lit(u8),
    Bind(Id),
    At(Id, u8),
    Wild,
}
#[derive(Clone, Debug)]
struct C(&'static str, Box<X>, Box<X>);

#[derive(Clone, Debug)]
enum S {
    Let(Id, X),
    Tuple(Vec<Id>, Vec<X>),
    Array(Vec<Id>, Vec<X>),
    Fn(Id, Vec<Id>, X),
    Stage,
}

struct U {
    name: String,
    params: Vec<Id>,
    body: Vec<S>,
    out: X,
    stages: usize,
}

struct G<'a> {
    r: &'a mut Rng,
    names: Vec<String>,
    /// visible variables: id and the stage they are from
    vars: Vec<(Id, usize)>,
    fns: Vec<(Id, usize)>,
    units: Vec<usize>,
    stage: usize,
    top: bool,
}

const VARS: &[&str] = &["a", "b", "c", "d"];
const FNS: &[&str] = &["f", "g"];

impl G<'_> {
    fn id(&mut self, pool: &[&str]) -> Id {
        let n = self.r.pick(pool).to_string();
        self.names.push(n);
        self.names.len() - 1
    }
    fn fresh(&mut self, n: usize) -> Vec<Id> {
        loop {
            let mut v: Vec<String> = (0..n).map(|_| self.r.pick(VARS).to_string()).collect();
            let all = v.clone();
            v.sort();
            v.dedup();
            if v.len() == n {
                return all
                    .into_iter()
                    .map(|s| {
                        self.names.push(s);
                        self.names.len() - 1
                    })
                    .collect();
            }
        }
    }
    /// the variables which are not shadowed
    fn visible(&self, fns: bool) -> Vec<(Id, usize)> {
        let v = if fns { &self.fns } else { &self.vars };
        let mut out: Vec<(Id, usize)> = vec![];
        for (i, s) in v.iter().rev() {
            if !out.iter().any(|o| self.names[o.0] == self.names[*i]) {
                out.push((*i, *s));
            }
        }
        out
    }
    fn leaf(&mut self) -> X {
        let v = self.visible(false);
        if v.is_empty() || self.r.chance(1, 6) {
            return X::Num(self.r.below(256) as u8);
        }
        let (i, s) = *self.r.pick(&v);
        let back = if self.stage > s && self.r.chance(1, 3) { self.r.range(1, self.stage - s) } else { 0 };
        X::Var(i, back)
    }
    fn scoped<T>(&mut self, ids: &[Id], f: impl FnOnce(&mut Self) -> T) -> T {
        let (n, m) = (self.vars.len(), self.fns.len());
        let s = self.stage;
        self.vars.extend(ids.iter().map(|i| (*i, s)));
        let x = f(self);
        self.vars.truncate(n);
        self.fns.truncate(m);
        x
    }
    fn args(&mut self, n: usize, d: usize) -> Vec<X> {
        (0..n).map(|_| self.expr(d)).collect()
    }
    fn cond(&mut self, d: usize) -> C {
        let op = *self.r.pick(&["<", "==", "!=", ">="]);
        C(op, Box::new(self.expr(d)), Box::new(self.leaf()))
    }
    fn expr(&mut self, d: usize) -> X {
        if d == 0 {
            return self.leaf();
        }
        let d = d - 1;
        match self.r.weighted(&[3, 6, 3, 2, 4, 3, 3, 3, 3, 2]) {
            0 => self.leaf(),
            1 => {
                let op = *self.r.pick(&["+.", "-.", "^", "*."]);
                X::Bin(op, Box::new(self.expr(d)), Box::new(self.expr(d)))
            }
            2 => {
                let c = self.cond(d);
                X::If(Box::new(c), Box::new(self.block(d)), Box::new(self.block(d)))
            }
            3 => {
                let c = self.cond(d);
                let v = self.expr(d);
                let i = self.id(VARS);
                let t = self.scoped(&[i], |g| g.block(d));
                let e = self.block(d);
                X::IfLet(i, Box::new(c), Box::new(v), Box::new(t), Box::new(e))
            }
            4 => self.block(d),
            5 => {
                let s = self.expr(d);
                let n = self.r.below(3);
                let mut arms: Vec<_> = (0..n)
                    .map(|_| {
                        let lit = self.r.bool().then(|| self.r.below(8) as u8);
                        let i = (lit.is_none() || self.r.bool()).then(|| self.id(VARS));
                        let ids: Vec<Id> = i.into_iter().collect();
                        self.scoped(&ids, |g| {
                            let c = (lit.is_none() || g.r.chance(1, 3)).then(|| g.cond(d));
                            (lit, i, c, g.expr(d))
                        })
                    })
                    .collect();
                let i = self.id(VARS);
                let x = self.scoped(&[i], |g| g.expr(d));
                arms.push((None, Some(i), None, x));
                X::Match(Box::new(s), arms)
            }
            6 => {
                let (x, y) = (self.expr(d), self.expr(d));
                let n = self.r.below(3);
                let mut arms: Vec<_> = (0..n + 1)
                    .map(|k| {
                        let ids = self.fresh(2);
                        let p: Vec<PP> = ids
                            .iter()
                            .map(|i| {
                                if k == n {
                                    return if self.r.chance(1, 4) { PP::Wild } else { PP::Bind(*i) };
                                }
                                let l = self.r.below(4) as u8;
                                [PP::Lit(l), PP::Bind(*i), PP::At(*i, l), PP::Wild][self.r.below(4)].clone()
                            })
                            .collect();
                        let bound: Vec<Id> =
                            p.iter().filter_map(|p| if let PP::Bind(i) | PP::At(i, _) = p { Some(*i) } else { None }).collect();
                        let e = self.scoped(&bound, |g| g.expr(d));
                        (p[0].clone(), p[1].clone(), e)
                    })
                    .collect();
                // arms after one that always matches are useless but fine
                if self.r.chance(1, 8) {
                    let e = self.leaf();
                    arms.push((PP::Wild, PP::Wild, e));
                }
                X::Pair(Box::new(x), Box::new(y), arms)
            }
            7 => {
                let f = self.visible(true);
                if f.is_empty() {
                    return self.leaf();
                }
                let (i, n) = *self.r.pick(&f);
                X::Call(i, self.args(n, d))
            }
            8 => {
                let n = self.r.range(1, 2);
                let ps = self.fresh(n);
                let (top, stage) = (self.top, self.stage);
                self.top = false;
                let b = self.scoped(&ps, |g| {
                    // values are captured as they are here
                    for v in g.vars.iter_mut() {
                        v.1 = stage;
                    }
                    g.expr(d)
                });
                self.top = top;
                X::Now(ps, Box::new(b), self.args(n, d))
            }
            _ => {
                if self.units.is_empty() {
                    return self.leaf();
                }
                let u = self.r.below(self.units.len());
                let n = self.units[u];
                X::Unit(u, self.args(n, d))
            }
        }
    }
    fn stmt(&mut self, d: usize) -> S {
        match self.r.weighted(&[6, 3, 2, 2]) {
            0 => {
                let e = self.expr(d);
                let i = self.id(VARS);
                let s = self.stage;
                self.vars.push((i, s));
                S::Let(i, e)
            }
            1 | 2 => {
                let n = self.r.range(2, 3);
                let e = self.args(n, d);
                let ids = self.fresh(n);
                let s = self.stage;
                self.vars.extend(ids.iter().map(|i| (*i, s)));
                if self.r.bool() {
                    S::Tuple(ids, e)
                } else {
                    S::Array(ids, e)
                }
            }
            _ => {
                let n = self.r.range(1, 2);
                let ps = self.fresh(n);
                let stage = self.stage;
                let old = self.vars.clone();
                let b = self.scoped(&ps, |g| {
                    for v in g.vars.iter_mut() {
                        v.1 = stage;
                    }
                    g.expr(d)
                });
                self.vars = old;
                let i = self.id(FNS);
                self.fns.push((i, n));
                S::Fn(i, ps, b)
            }
        }
    }
    fn block(&mut self, d: usize) -> X {
        let n = self.r.below(4);
        self.scoped(&[], |g| {
            let s = (0..n).map(|_| g.stmt(d)).collect();
            X::Block(s, Box::new(g.expr(d)))
        })
    }
    fn unit(&mut self, name: &str, depth: usize) -> U {
        let n = self.r.range(1, 3);
        let params = self.fresh(n);
        self.vars = params.iter().map(|i| (*i, 0)).collect();
        self.fns.clear();
        self.stage = 0;
        let mut body = vec![];
        for k in 0..=depth {
            for _ in 0..self.r.range(1, 4) {
                body.push(self.stmt(2));
            }
            if k < depth {
                body.push(S::Stage);
                self.stage += 1;
                // functions capture values of one stage
                self.fns.clear();
            }
        }
        let out = self.expr(3);
        U { name: name.into(), params, body, out, stages: depth }
    }
}

struct P<'a> {
    names: &'a [String],
    units: &'a [U],
}
impl P<'_> {
    fn n(&self, i: Id) -> &str {
        &self.names[i]
    }
    fn list(&self, v: &[Id]) -> String {
        v.iter().map(|i| self.n(*i)).collect::<Vec<_>>().join(", ")
    }
    fn xs(&self, v: &[X]) -> String {
        v.iter().map(|i| self.x(i)).collect::<Vec<_>>().join(", ")
    }
    fn c(&self, c: &C) -> String {
        format!("({}) {} ({})", self.x(&c.1), c.0, self.x(&c.2))
    }
    fn braces(&self, x: &X) -> String {
        match x {
            X::Block(..) => self.x(x),
            _ => format!("{{ {} }}", self.x(x)),
        }
    }
    fn pp(&self, p: &PP) -> String {
        match p {
            PP::Lit(v) => format!("{v}"),
            PP::Bind(i) => self.n(*i).into(),
            PP::At(i, v) => format!("{} @ {v}", self.n(*i)),
            PP::Wild => "_".into(),
        }
    }
    fn x(&self, x: &X) -> String {
        match x {
            X::Num(v) => format!("{v}u8"),
            X::Var(i, 0) => self.n(*i).into(),
            X::Var(i, k) => format!("stage(-{k}).{}", self.n(*i)),
            X::Bin(o, a, b) => format!("({} {o} {})", self.x(a), self.x(b)),
            X::If(c, a, b) => format!("if {} {} else {}", self.c(c), self.braces(a), self.braces(b)),
            X::IfLet(i, c, v, a, b) => format!(
                "if let Some({}) = (if {} {{ Some({}) }} else {{ None }}) {} else {}",
                self.n(*i),
                self.c(c),
                self.x(v),
                self.braces(a),
                self.braces(b)
            ),
            X::Block(s, e) => {
                format!("{{ {} {} }}", s.iter().map(|s| self.s(s)).collect::<Vec<_>>().join(" "), self.x(e))
            }
            X::Match(s, arms) => {
                let a = arms
                    .iter()
                    .map(|(l, i, c, e)| {
                        let p = match (l, i) {
                            (Some(l), Some(i)) => format!("{} @ {l}", self.n(*i)),
                            (Some(l), None) => format!("{l}"),
                            (None, Some(i)) => self.n(*i).into(),
                            _ => "_".into(),
                        };
                        let g = c.as_ref().map(|c| format!(" if {}", self.c(c))).unwrap_or_default();
                        format!("{p}{g} => {}", self.x(e))
                    })
                    .collect::<Vec<_>>();
                format!("match {} {{ {} }}", self.x(s), a.join(", "))
            }
            X::Pair(a, b, arms) => {
                let v = arms
                    .iter()
                    .map(|(p, q, e)| format!("({}, {}) => {}", self.pp(p), self.pp(q), self.x(e)))
                    .collect::<Vec<_>>();
                format!("match ({}, {}) {{ {} }}", self.x(a), self.x(b), v.join(", "))
            }
            X::Call(i, a) => format!("{}.call(({},))", self.n(*i), self.xs(a)),
            X::Now(p, b, a) => format!("(fn |{}| {{ {} }}).call(({},))", self.list(p), self.x(b), self.xs(a)),
            X::Unit(u, a) => format!("{}({})", self.units[*u].name, self.xs(a)),
        }
    }
    fn s(&self, s: &S) -> String {
        match s {
            S::Let(i, e) => format!("let {} = {};", self.n(*i), self.x(e)),
            S::Tuple(i, e) => format!("let ({}) = ({});", self.list(i), self.xs(e)),
            S::Array(i, e) => format!("let [{}] = [{}];", self.list(i), self.xs(e)),
            S::Fn(i, p, b) => {
                // the call makes the types of unused ones known
                let z = vec!["0u8"; p.len()].join(", ");
                let f = self.n(*i);
                format!("let {f} = fn |{}| {{ {} }}; let _ = {f}.call(({z},));", self.list(p), self.x(b))
            }
            S::Stage => "reg;".into(),
        }
    }
    fn unit(&self, u: &U) -> String {
        let mut ps: Vec<String> = u.params.iter().map(|i| format!("{}: uint<8>", self.n(*i))).collect();
        let kw = if u.stages > 0 {
            ps.insert(0, "clk: clock".into());
            format!("pipeline({})", u.stages)
        } else {
            "fn".into()
        };
        let body = u.body.iter().map(|s| format!("    {}\n", self.s(s))).collect::<String>();
        format!("{kw} {}({}) -> uint<8> {{\n{body}    {}\n}}\n", u.name, ps.join(", "), self.x(&u.out))
    }
}

type Env = std::collections::HashMap<Id, u8>;
struct Ev<'a> {
    units: &'a [U],
    /// functions: parameters, body, captured
    fns: std::cell::RefCell<std::collections::HashMap<Id, (Vec<Id>, X, Env)>>,
}
impl Ev<'_> {
    fn c(&self, c: &C, e: &mut Env) -> bool {
        let (a, b) = (self.x(&c.1, e), self.x(&c.2, e));
        match c.0 {
            "<" => a < b,
            "==" => a == b,
            "!=" => a != b,
            _ => a >= b,
        }
    }
    fn pp(&self, p: &PP, v: u8, e: &mut Env) -> bool {
        match p {
            PP::Lit(l) => *l == v,
            PP::Bind(i) => {
                e.insert(*i, v);
                true
            }
            PP::At(i, l) => {
                e.insert(*i, v);
                *l == v
            }
            PP::Wild => true,
        }
    }
    fn apply(&self, p: &[Id], b: &X, mut env: Env, a: Vec<u8>) -> u8 {
        env.extend(p.iter().copied().zip(a));
        self.x(b, &mut env)
    }
    fn x(&self, x: &X, e: &mut Env) -> u8 {
        match x {
            X::Num(v) => *v,
            X::Var(i, _) => e[i],
            X::Bin(o, a, b) => {
                let (a, b) = (self.x(a, e), self.x(b, e));
                match *o {
                    "+." => a.wrapping_add(b),
                    "-." => a.wrapping_sub(b),
                    "*." => a.wrapping_mul(b),
                    _ => a ^ b,
                }
            }
            X::If(c, a, b) => {
                if self.c(c, e) {
                    self.x(a, e)
                } else {
                    self.x(b, e)
                }
            }
            X::IfLet(i, c, v, a, b) => {
                if self.c(c, e) {
                    let v = self.x(v, e);
                    e.insert(*i, v);
                    self.x(a, e)
                } else {
                    self.x(b, e)
                }
            }
            X::Block(s, r) => {
                s.iter().for_each(|s| self.s(s, e));
                self.x(r, e)
            }
            X::Match(s, arms) => {
                let v = self.x(s, e);
                for (l, i, c, r) in arms {
                    if l.is_some_and(|l| l != v) {
                        continue;
                    }
                    if let Some(i) = i {
                        e.insert(*i, v);
                    }
                    if c.as_ref().is_none_or(|c| self.c(c, e)) {
                        return self.x(r, e);
                    }
                }
                unreachable!()
            }
            X::Pair(a, b, arms) => {
                let (a, b) = (self.x(a, e), self.x(b, e));
                for (p, q, r) in arms {
                    if self.pp(p, a, e) && self.pp(q, b, e) {
                        return self.x(r, e);
                    }
                }
                unreachable!()
            }
            X::Call(i, a) => {
                let a = a.iter().map(|a| self.x(a, e)).collect();
                let (p, b, env) = self.fns.borrow()[i].clone();
                self.apply(&p, &b, env, a)
            }
            X::Now(p, b, a) => {
                let a = a.iter().map(|a| self.x(a, e)).collect();
                self.apply(p, b, e.clone(), a)
            }
            X::Unit(u, a) => {
                let a = a.iter().map(|a| self.x(a, e)).collect();
                self.unit(&self.units[*u], a)
            }
        }
    }
    fn s(&self, s: &S, e: &mut Env) {
        match s {
            S::Let(i, x) => {
                let v = self.x(x, e);
                e.insert(*i, v);
            }
            S::Tuple(i, x) | S::Array(i, x) => {
                let v: Vec<u8> = x.iter().map(|x| self.x(x, e)).collect();
                e.extend(i.iter().copied().zip(v));
            }
            S::Fn(i, p, b) => {
                self.fns.borrow_mut().insert(*i, (p.clone(), b.clone(), e.clone()));
            }
            S::Stage => {}
        }
    }
    fn unit(&self, u: &U, a: Vec<u8>) -> u8 {
        let mut e: Env = u.params.iter().copied().zip(a).collect();
        u.body.iter().for_each(|s| self.s(s, &mut e));
        self.x(&u.out, &mut e)
    }
}

/// every expression with the variables bound around it
fn visit(x: &mut X, sc: &mut Vec<Id>, f: &mut dyn FnMut(&mut X, &[Id])) {
    let n = sc.len();
    match x {
        X::Num(_) | X::Var(..) => {}
        X::Bin(_, a, b) => {
            visit(a, sc, f);
            visit(b, sc, f);
        }
        X::If(c, a, b) => {
            visit(&mut c.1, sc, f);
            visit(&mut c.2, sc, f);
            visit(a, sc, f);
            visit(b, sc, f);
        }
        X::IfLet(i, c, v, a, b) => {
            visit(&mut c.1, sc, f);
            visit(&mut c.2, sc, f);
            visit(v, sc, f);
            visit(b, sc, f);
            sc.push(*i);
            visit(a, sc, f);
        }
        X::Block(s, e) => {
            s.iter_mut().for_each(|s| visit_s(s, sc, f));
            visit(e, sc, f);
        }
        X::Match(s, arms) => {
            visit(s, sc, f);
            for (_, i, c, e) in arms {
                sc.truncate(n);
                sc.extend(i.iter());
                if let Some(c) = c {
                    visit(&mut c.1, sc, f);
                    visit(&mut c.2, sc, f);
                }
                visit(e, sc, f);
            }
        }
        X::Pair(a, b, arms) => {
            visit(a, sc, f);
            visit(b, sc, f);
            for (p, q, e) in arms {
                sc.truncate(n);
                for p in [p, q] {
                    if let PP::Bind(i) | PP::At(i, _) = p {
                        sc.push(*i);
                    }
                }
                visit(e, sc, f);
            }
        }
        X::Call(_, a) | X::Unit(_, a) => a.iter_mut().for_each(|a| visit(a, sc, f)),
        X::Now(p, b, a) => {
            a.iter_mut().for_each(|a| visit(a, sc, f));
            sc.extend(p.iter());
            visit(b, sc, f);
        }
    }
    sc.truncate(n);
    f(x, sc);
}
fn visit_s(s: &mut S, sc: &mut Vec<Id>, f: &mut dyn FnMut(&mut X, &[Id])) {
    match s {
        S::Let(i, x) => {
            visit(x, sc, f);
            sc.push(*i);
        }
        S::Tuple(i, x) | S::Array(i, x) => {
            x.iter_mut().for_each(|x| visit(x, sc, f));
            sc.extend(i.iter());
        }
        S::Fn(_, p, b) => {
            let n = sc.len();
            sc.extend(p.iter());
            visit(b, sc, f);
            sc.truncate(n);
        }
        S::Stage => {}
    }
}
fn visit_u(u: &mut U, f: &mut dyn FnMut(&mut X, &[Id])) {
    let mut sc = u.params.clone();
    u.body.iter_mut().for_each(|s| visit_s(s, &mut sc, f));
    visit(&mut u.out, &mut sc, f);
}

fn binders(u: &mut U) -> Vec<Id> {
    let mut all: HashSet<Id> = u.params.iter().copied().collect();
    visit_u(u, &mut |_, sc| all.extend(sc.iter()));
    let mut v: Vec<Id> = all.into_iter().collect();
    v.sort();
    v
}

fn scopes(nbad: usize, r: &mut Rng, out: &mut JobOut) {
    let nunits = 5;
    let mut units: Vec<U> = vec![];
    let mut names = vec![];
    for k in 0..nunits {
        let arities = units.iter().filter(|u| u.stages == 0).map(|u| u.params.len()).collect();
        let depth = if k + 2 >= nunits { r.range(1, 3) } else { 0 };
        let mut g = G { r, names, vars: vec![], fns: vec![], units: arities, stage: 0, top: true };
        let u = g.unit(&format!("u{k}"), depth);
        names = g.names;
        units.push(u);
    }
    let text = |units: &[U], names: &[String]| -> String {
        let p = P { names, units };
        units.iter().map(|u| p.unit(u)).collect()
    };
    let good = text(&units, &names);
    let run = comp::compile(&[Src::single(&good)], &Opts::default());
    out.evals += 1;
    if run.verdict() != "accepted" {
        out.violation(
            format!("program whose variables are all bound {}: {}", run.verdict(), run.first_error()),
            json!({"source": good, "rendered": run.rendered}),
        );
        return;
    }
    out.key(&good);
    out.stat("programs with shadowing", 1);
    let d = match crate::vsim::Design::parse(&[&run.ok().unwrap().verilog]) {
        Ok(d) => d,
        Err(e) => {
            out.violation(format!("the Verilog does not parse: {e}"), json!({"source": good}));
            return;
        }
    };
    for u in &units {
        let ev = Ev { units: &units, fns: Default::default() };
        let mut issues = vec![];
        let mut s = match Sim::new(&d, &u.name, &mut issues) {
            Ok(s) => s,
            Err(e) => {
                out.violation(format!("elaborate: {e}"), json!({"source": good}));
                return;
            }
        };
        for _ in 0..10 {
            let a: Vec<u8> = u.params.iter().map(|_| if r.bool() { r.below(256) as u8 } else { r.below(6) as u8 }).collect();
            for (i, v) in u.params.iter().zip(&a) {
                s.set(&format!("{}_i", names[*i]), &LV::from_u64(*v as u64, 8));
            }
            let mut fail = None;
            for k in 0..=u.stages {
                if u.stages > 0 {
                    s.set("clk_i", &LV::from_bool(false));
                    fail = fail.or(s.settle().err());
                    if k < u.stages {
                        s.set("clk_i", &LV::from_bool(true));
                    }
                }
                fail = fail.or(s.settle().err());
            }
            let want = ev.unit(u, a.clone()) as u64;
            let got = s.get("output__");
            out.evals += 1;
            if fail.is_some() || got.to_u64() != Some(want) {
                out.violation(
                    format!("{}{a:?} is {want} but the hardware has {}", u.name, got.to_bin()),
                    json!({"source": good}),
                );
                break;
            }
            out.stat("values compared", 1);
        }
    }
    for _ in 0..nbad {
        let k = r.below(units.len());
        let bs = binders(&mut units[k]);
        let b = *r.pick(&bs);
        let mut n = 0;
        visit_u(&mut units[k], &mut |x, sc| {
            if matches!(x, X::Var(i, 0) if *i != b) && !sc.contains(&b) {
                n += 1;
            }
        });
        if n == 0 {
            continue;
        }
        let at = r.below(n);
        let mut old = None;
        let mut c = 0;
        visit_u(&mut units[k], &mut |x, sc| {
            if matches!(x, X::Var(i, 0) if *i != b) && !sc.contains(&b) {
                if c == at {
                    old = Some(x.clone());
                    *x = X::Var(b, 0);
                }
                c += 1;
            }
        });
        let name = std::mem::replace(&mut names[b], "zz".into());
        let bad = text(&units, &names);
        names[b] = name;
        let mut c = 0;
        visit_u(&mut units[k], &mut |x, sc| {
            if let X::Var(i, 0) = x {
                if *i == b && !sc.contains(&b) {
                    c += 1;
                    *x = old.clone().unwrap();
                }
            }
        });
        assert_eq!(c, 1);
        let run = comp::compile(&[Src::single(&bad)], &Opts::default());
        out.evals += 1;
        if run.verdict() != "rejected" {
            out.violation(
                format!("program which uses zz outside of its scope is {}", run.verdict()),
                json!({"source": bad, "rendered": run.rendered}),
            );
        } else {
            out.key(&bad);
            out.stat("rejected: variable out of scope", 1);
        }
    }
}

pub fn c17() -> CheckDef {
    fn run(c: &Ctx, j: usize, r: &mut Rng, out: &mut JobOut) {
        let ts = crate::templates::parse(include_str!("../../templates/names.txt"));
        if j < ts.len() {
            return crate::templates::test("C17", &ts[j], 0, 1, r, out);
        }
        let n = if c.thorough { 6 } else { 3 };
        if j % 3 == 0 {
            scopes(n, r, out)
        } else {
            trees(2 * n, r, out)
        }
    }
    CheckDef {
        id: "C17",
        jobs: |t| if t { 9000 } else { 200 },
        run,
        rule: "in generated module trees every use that the reference resolver resolves is accepted and has the value of the item it resolves to, every program with one violating use or definition is rejected; in generated nested scopes every variable use has the value of the innermost visible definition and out of scope uses are rejected",
        assumptions: &["the reference resolver states the rules of name lookup", "an alias makes visible what its target makes visible to the place of the use"],
        crash_is_violation: true,
    }
}
