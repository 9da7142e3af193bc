//! Conformance harness for C05.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../common.rs"]
mod common;
#[path = "../c05.rs"]
mod c05;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C05" => c05::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
