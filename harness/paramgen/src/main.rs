//! C16, C17, C18: the parts of poseidon-paramgen that compile.
#![allow(non_snake_case, dead_code, unused_imports)]
include!(concat!(env!("OUT_DIR"), "/pg/root.rs"));
mod check_alpha;
mod check_constants;
mod check_rounds;
mod fields;
mod tables;

fn main() {
    let mut c = vcore::run::Check::from_args();
    match c.id.as_str() {
        "C16" => check_alpha::run(&mut c),
        "C17" => check_rounds::run(&mut c),
        "C18" => check_constants::run(&mut c),
        _ => panic!("unknown property"),
    }
    c.finish()
}
