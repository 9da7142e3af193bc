//! Conformance harness for C14, of the library built with its feature `nightly`.
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../c14.rs"]
mod c14;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "nightly" => c14::nightly(&a, &tr),
        _ => std::process::exit(77),
    }
}
