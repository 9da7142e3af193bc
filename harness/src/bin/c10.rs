//! Conformance harness for C10.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../c08.rs"]
mod c08;
#[path = "../c10.rs"]
mod c10;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C10" => c10::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
