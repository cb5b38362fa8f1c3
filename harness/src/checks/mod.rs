use crate::runner::CheckDef;
pub mod consts;
pub mod determ;
pub mod exhaust;
pub mod exprs;
pub mod form;
pub mod names;
pub mod ports;
pub mod robust;
pub mod stdlib;
pub mod seq;
pub mod typing;
pub mod wellformed;

pub fn all() -> Vec<CheckDef> {
    vec![exprs::c01(), exprs::c02(), exprs::c03(), exprs::c06(), seq::c04(), seq::c05(), seq::c08(), form::c13(), determ::c10(), typing::c12(), names::c17(), robust::c11(), consts::c18(), wellformed::c09(), stdlib::c16(), ports::c07()]
}
