//! Conformance harness for C04.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../c04.rs"]
mod c04;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "C04" => c04::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
