//! Conformance harness for C11 and C12, of the library built with its default feature `concrete-ntt` (over a stand-in).
#![allow(dead_code, unused_macros)]
use harness::*;
#[path = "../fields.rs"]
mod fields;
#[path = "../c11.rs"]
mod c11;
#[path = "../cn.rs"]
mod cn;

fn main() {
    let a = args();
    let tr = Tr::new(&a.out);
    match a.sub.as_str() {
        "ntt" => cn::run(&a, &tr),
        "ring" => c11::run(&a, &tr),
        _ => std::process::exit(77),
    }
}
