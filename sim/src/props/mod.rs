//! The properties, one module each.

use crate::common::{Ctx, Res};

pub mod conc;
pub mod drive;
pub mod effort;
pub mod errs;
pub mod fault;
pub mod lex;
pub mod lines;
pub mod mem;
pub mod parts;
pub mod repl;
pub mod whole;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub run: fn(&mut Ctx) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

pub static ALL: &[&Prop] = &[&lines::C01, &lines::C02, &whole::C03, &whole::C12, &whole::C13, &errs::C04, &errs::C05, &errs::C08, &errs::C15, &fault::C06, &fault::C07, &fault::C11, &conc::C09, &repl::C10, &drive::C16, &drive::C17, &lex::C14, &mem::C18, &effort::C19];

pub fn find(id: &str) -> &'static Prop {
    ALL.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {}", id))
}
