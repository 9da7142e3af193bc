//! Conformance harness for C23.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../common.rs"]
mod common;
#[path = "../c23.rs"]
mod c23;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C23" => c23::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
