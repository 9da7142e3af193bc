//! Conformance harness for C19.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../common.rs"]
mod common;
#[macro_use]
#[path = "../c02.rs"]
mod c02;
#[path = "../c19.rs"]
mod c19;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C19" => c19::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
