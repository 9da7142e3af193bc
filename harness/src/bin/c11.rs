//! Conformance harness for C11.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../c11.rs"]
mod c11;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C11" => c11::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
