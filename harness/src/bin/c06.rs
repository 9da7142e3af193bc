//! Conformance harness for C06.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../common.rs"]
mod common;
#[path = "../c06.rs"]
mod c06;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C06" => c06::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
