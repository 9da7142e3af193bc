//! Conformance harness for C17.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../c17.rs"]
mod c17;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C17" => c17::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
