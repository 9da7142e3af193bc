//! Conformance harness for C07.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../common.rs"]
mod common;
#[path = "../c07.rs"]
mod c07;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C07" => c07::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
