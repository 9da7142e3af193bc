//! Conformance harness for C15.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../c15.rs"]
mod c15;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C15" => c15::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
