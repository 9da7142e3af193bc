//! Conformance harness for C09.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../c09.rs"]
mod c09;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C09" => c09::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
