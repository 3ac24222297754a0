//! C23: poseidon-paramgen as a whole, with the const arguments of its signatures erased (build.rs).
#![allow(non_snake_case, dead_code, unused_imports)]
include!(concat!(env!("OUT_DIR"), "/pg/root.rs"));
mod big;
mod check;
mod emitted;
#[path = "../../paramgen/src/fields.rs"]
mod fields;

fn main() {
    let mut c = vcore::run::Check::from_args();
    match c.id.as_str() {
        "C23" => check::run(&mut c),
        _ => panic!("unknown property"),
    }
    c.finish()
}
