//! Conformance harness for C03.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../common.rs"]
mod common;
#[path = "../c03.rs"]
mod c03;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C03" => c03::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
