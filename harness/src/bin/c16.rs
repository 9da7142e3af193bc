//! Conformance harness for C16.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../c16.rs"]
mod c16;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C16" => c16::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
