//! Conformance harness for C21.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../common.rs"]
mod common;
#[path = "../c21.rs"]
mod c21;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C21" => c21::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
