//! A small four-valued event-driven simulator and structural checker for the Verilog the compiler emits.
//! Written from the IEEE 1364/1800 rules for the constructs used; shares no code with the compiler.
pub mod ast;
pub mod lex;
pub mod parse;
pub mod sim;

use ast::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Issue {
    pub kind: &'static str,
    pub module: String,
    pub msg: String,
}

pub struct Design {
    pub modules: HashMap<String, Module>,
    pub order: Vec<String>,
    pub issues: Vec<Issue>,
}

impl Design {
    /// Parse Verilog text. Syntax errors are returned as Err, duplicate modules as issues.
    pub fn parse(srcs: &[&str]) -> Result<Design, String> {
        let mut d = Design { modules: HashMap::new(), order: vec![], issues: vec![] };
        for s in srcs {
            for m in parse::parse(s, &[])? {
                if d.modules.contains_key(&m.name) {
                    d.issues.push(Issue {
                        kind: "duplicate-module",
                        module: m.name.clone(),
                        msg: format!("module '{}' defined twice", m.name),
                    });
                    continue;
                }
                d.order.push(m.name.clone());
                d.modules.insert(m.name.clone(), m);
            }
        }
        Ok(d)
    }
}
