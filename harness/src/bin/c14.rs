//! Conformance harness for C14.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../c14.rs"]
mod c14;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C14" => c14::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
