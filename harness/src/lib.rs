//! Shared parts of the conformance harness: command line, trace writer, panic capture, randomness.
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha12Rng;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};


pub struct Args {
    pub sub: String,
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub inputs: Vec<String>,
}

pub fn args() -> Args {
    let mut it = std::env::args().skip(1);
    let mut a = Args { sub: it.next().unwrap_or_default(), seed: 1, thorough: false, out: String::new(), inputs: vec![] };
    while let Some(k) = it.next() {
        let v = it.next().unwrap_or_default();
        match k.as_str() {
            "--seed" => a.seed = v.parse().unwrap(),
            "--tier" => a.thorough = v == "thorough",
            "--out" => a.out = v,
            "--in" => a.inputs.push(v),
            _ => std::process::exit(77),
        }
    }
    // panics of the code under test are data; keep stderr quiet
    if std::env::var("HARNESS_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    a
}

pub type R = ChaCha12Rng;
pub fn rng(seed: u64, stream: u64) -> R {
    let mut r = ChaCha12Rng::seed_from_u64(seed);
    r.set_stream(stream);
    r
}

/// Behaviours generated by TLC: one JSON value per line.
pub fn behaviours(path: &str) -> Vec<Value> {
    std::fs::read_to_string(path).unwrap().lines().filter(|l| !l.is_empty()).map(|l| serde_json::from_str(l).unwrap()).collect()
}

/// The trace: one JSON object per line, "op" first, flushed line by line so that a crash loses nothing.
pub struct Tr {
    w: RefCell<BufWriter<File>>,
}

impl Tr {
    pub fn new(path: &str) -> Self {
        Tr { w: RefCell::new(BufWriter::with_capacity(1 << 16, File::create(path).unwrap())) }
    }
    fn put(&self, op: &str, v: Value) {
        let mut w = self.w.borrow_mut();
        let s = serde_json::to_string(&v).unwrap();
        let rest = s.trim_start_matches('{');
        let sep = if rest.starts_with('}') { "" } else { "," };
        writeln!(w, "{{\"op\":\"{op}\"{sep}{rest}").unwrap();
    }
    pub fn begin(&self, v: Value) {
        self.put("begin", v);
        self.flush();
    }
    pub fn ev(&self, op: &str, v: Value) {
        self.put(op, v);
    }
    pub fn flush(&self) {
        self.w.borrow_mut().flush().unwrap();
    }
    /// Runs code under test. A panic becomes an event that no specification accepts, and None.
    pub fn run<T>(&self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.flush();
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(x) => Some(x),
            Err(e) => {
                self.ev("panic", json!({"in": what, "msg": panic_text(e)}));
                None
            }
        }
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        self.flush();
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
    s.unwrap_or_default().chars().filter(|c| c.is_ascii() && *c != '"' && *c != '\\').take(200).collect()
}

pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

/// Little-endian base-2^15 limbs without leading zeros (Arith.tla's big naturals).
pub fn limbs(mut x: u128) -> Vec<u32> {
    let mut r = vec![];
    while x != 0 {
        r.push((x & 0x7fff) as u32);
        x >>= 15;
    }
    r
}

/// An integer a specification can read as a plain number; anything at or above 2^31-1 becomes -1.
pub fn int(x: u64) -> i64 {
    if x >= 0x7fff_ffff { -1 } else { x as i64 }
}
pub fn ints<T: Copy + Into<u64>>(v: &[T]) -> Vec<i64> {
    v.iter().map(|x| int((*x).into())).collect()
}

pub fn pick<'a, T>(r: &mut R, v: &'a [T]) -> &'a T {
    &v[r.gen_range(0..v.len())]
}
