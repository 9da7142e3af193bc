//! Conformance harness for C12.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../c12.rs"]
mod c12;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C12" => c12::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
