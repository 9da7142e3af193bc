//! Conformance harness for C20.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../common.rs"]
mod common;
#[macro_use]
#[path = "../c02.rs"]
mod c02;
#[path = "../c20.rs"]
mod c20;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C20" => c20::run(&a, &tr),
        "C20w" => c20::worker(&a, &tr),
        _ => std::process::exit(77),
    }
}
