//! Conformance harness for C08.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../c08.rs"]
mod c08;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C08" => c08::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
