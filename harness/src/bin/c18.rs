//! Conformance harness for C18.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../c18.rs"]
mod c18;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C18" => c18::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
