use crate::interp::*;
use crate::ir::*;
use crate::types::*;
use crate::val::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::rc::Rc;

pub mod cli;
pub mod conv;
pub mod driver;
pub mod flow;
pub mod lex;
pub mod mac;
pub mod parse;
pub mod pure;

pub fn find_root(name: &str) -> Option<u32> {
    for f in rustc_public::local_crate().fn_defs() {
        if crate::models::last_seg(&f.name().to_string()) == name {
            let i = Instance::resolve(f, &GenericArgs(vec![])).ok()?;
            return Some(intern_fn(i));
        }
    }
    None
}

pub fn main(cmd: &[String]) {
    match cmd[0].as_str() {
        "dump" => {
            let id = find_root(&cmd[1]).expect("root");
            let b = body(id).unwrap();
            println!("{} {}", b.name, b.blocks.len());
        }
        "cli" => cli::run(&cmd[1]),
        "conv" => conv::run(&cmd[1], false),
        "flow" => conv::run(&cmd[1], true),
        "lex" => lex::run(&cmd[1]),
        "mac" => mac::run(&cmd[1]),
        "parse" => parse::run(&cmd[1], false),
        "pure" => pure::run(&cmd[1]),
        "shape" => parse::run(&cmd[1], true),
        o => panic!("unknown command {o}"),
    }
}
