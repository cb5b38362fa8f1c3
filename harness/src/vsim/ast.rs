use crate::bits::LV;

#[derive(Clone, Debug)]
pub enum Expr {
    /// literal. `unsized_` literals are at least 32 bits and may extend x/z fills.
    Num { val: LV, signed: bool, fill: bool, sized: bool },
    Str(String),
    Id(String),
    Index(Box<Expr>, Box<Expr>),
    Range(Box<Expr>, Box<Expr>, Box<Expr>),
    PartUp(Box<Expr>, Box<Expr>, Box<Expr>),
    PartDown(Box<Expr>, Box<Expr>, Box<Expr>),
    Concat(Vec<Expr>),
    Repl(Box<Expr>, Vec<Expr>),
    Un(&'static str, Box<Expr>),
    Bin(&'static str, Box<Expr>, Box<Expr>),
    Tern(Box<Expr>, Box<Expr>, Box<Expr>),
    Signed(Box<Expr>),
    Unsigned(Box<Expr>),
}

#[derive(Clone, Debug)]
pub enum Stmt {
    Block(Vec<Stmt>),
    If(Expr, Box<Stmt>, Option<Box<Stmt>>),
    Assign { lhs: Expr, rhs: Expr, nb: bool },
    Case { kind: String, sel: Expr, items: Vec<(Vec<Expr>, Stmt)>, default: Option<Box<Stmt>> },
    Assert(Expr),
    Sys(String),
    Null,
}

#[derive(Clone, Debug, PartialEq, Eq, Copy)]
pub enum Dir {
    In,
    Out,
    InOut,
}

#[derive(Clone, Debug)]
pub struct Port {
    pub dir: Dir,
    pub name: String,
    pub range: Option<(Expr, Expr)>,
}

#[derive(Clone, Debug)]
pub enum Trigger {
    Comb,
    Posedge(Vec<(bool, Expr)>),
    Change(Vec<Expr>),
}

#[derive(Clone, Debug)]
pub enum Item {
    Decl { name: String, range: Option<(Expr, Expr)>, unpacked: Option<(Expr, Expr)>, kind: String },
    Localparam { name: String, range: Option<(Expr, Expr)>, val: Expr },
    Assign(Expr, Expr),
    Always(Trigger, Stmt),
    Initial(Stmt),
    Instance { module: String, params: Vec<(String, Expr)>, name: String, conns: Vec<(String, Option<Expr>)> },
}

#[derive(Clone, Debug)]
pub struct Module {
    pub name: String,
    pub params: Vec<(String, Option<(Expr, Expr)>, Expr)>,
    pub ports: Vec<Port>,
    pub items: Vec<(Item, usize)>,
    pub line: usize,
    pub attrs: Vec<String>,
}
