//! Derived prime fields.
use algebra::{AsFrom, Field, FheField, PrimeField};
use crate::fields::*;
use harness::*;
use num_traits::Pow;
use rand::Rng;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn l(x: u128) -> Value {
    json!(limbs(x))
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub trait Fld: FheField + PrimeField + Serialize + DeserializeOwned + Pow<<Self as Field>::Value, Output = Self> + 'static
where <Self as Field>::Value: AsFrom<u64> + Serialize {}
impl<T> Fld for T where T: FheField + PrimeField + Serialize + DeserializeOwned + Pow<<T as Field>::Value, Output = T> + 'static, <T as Field>::Value: AsFrom<u64> + Serialize {}

fn val(r: &mut R, n: u128) -> u128 {
    (match r.gen_range(0..8) {
        0 => r.gen_range(0..3),
        1 => n - 1 - r.gen_range(0..3u128.min(n)),
        2 => n / 2 + r.gen_range(0..3),
        3 => 1u128 << r.gen_range(0..64),
        _ => r.gen(),
    }) % n
}

macro_rules! asg {
    ($x:expr, |$t:ident| $e:expr) => {{ let mut $t = $x; $e; $t }};
}

pub fn field<F: Fld>(tr: &Tr, r: &mut R, name: &str, rounds: usize)
where
    <F as Field>::Value: AsFrom<u64> + Serialize,
{
    let m = m128::<F>();
    let w = std::mem::size_of::<F::Value>() as u32 * 8;
    let words = 1u128 << w;
    let raw = |x: u128| <F::Value as AsFrom<u64>>::as_from(x as u64);
    let mk = |x: u128| F::new(raw(x));
    let n = |x: F| v64(x) as u128;
    tr.begin(json!({"kind": name, "m": l(m), "w": w}));
    tr.ev("const", json!({"zero": l(n(F::ZERO)), "one": l(n(F::ONE)), "neg": l(n(F::NEG_ONE)),
        "zero2": l(n(F::zero())), "one2": l(n(F::one())), "neg2": l(n(F::neg_one())), "def": l(n(F::default())),
        "set": [l(n(asg!(F::ONE, |t| t.set_zero()))), l(n(asg!(F::ZERO, |t| t.set_one()))), l(n(asg!(F::ZERO, |t| t.set_neg_one())))]}));
    let call = |f: &str, x: u128, y: u128, z: u128, g: &dyn Fn() -> Vec<F>| {
        if let Some(o) = tr.run(f, g) {
            let o: Vec<_> = o.into_iter().map(|v| limbs(v64(v) as u128)).collect();
            tr.ev("call", json!({"f": f, "a": l(x), "b": l(y), "c": l(z), "outs": o}));
        }
    };
    for i in 0..rounds {
        if i % 50 == 49 { tr.begin(json!({"kind": name, "m": l(m), "w": w})); }
        let (xv, yv, zv) = (val(r, m), val(r, m), val(r, m));
        let (x, y, z) = (mk(xv), mk(yv), mk(zv));
        call("add", xv, yv, 0, &|| vec![x + y, x + &y, asg!(x, |t| t += y), asg!(x, |t| t += &y)]);
        call("sub", xv, yv, 0, &|| vec![x - y, x - &y, asg!(x, |t| t -= y), asg!(x, |t| t -= &y)]);
        call("mul", xv, yv, 0, &|| vec![x * y, x * &y, asg!(x, |t| t *= y), asg!(x, |t| t *= &y)]);
        call("neg", xv, 0, 0, &|| vec![-x]);
        if yv != 0 {
            call("div", xv, yv, 0, &|| vec![x / y, x / &y, asg!(x, |t| t /= y), asg!(x, |t| t /= &y)]);
            call("inv", yv, 0, 0, &|| vec![y.inv()]);
        }
        // fused and lazily reduced forms; an accumulator may itself be lazily reduced
        call("fma", xv, yv, zv, &|| vec![z.add_mul(x, y), asg!(z, |t| t.add_mul_assign(x, y))]);
        let lz = val(r, 2 * m);
        let zl = F::lazy_new(raw(lz));
        call("fmalazy", xv, yv, lz, &|| vec![zl.add_mul_fast(x, y), asg!(zl, |t| t.add_mul_assign_fast(x, y))]);
        call("fmalazy", xv, yv, zv, &|| vec![z.add_mul_fast(x, y), asg!(z, |t| t.add_mul_assign_fast(x, y))]);
        call("mullazy", xv, yv, 0, &|| vec![x.mul_fast(y), asg!(x, |t| t.mul_assign_fast(y))]);
        let e = match r.gen_range(0..5) { 0 => val(r, words), 1 => m - 1, 2 => m - 2, 3 => r.gen_range(0..20), _ => r.gen::<u128>() } % words;
        call("pow", xv, e, 0, &|| vec![x.pow(raw(e))]);
        // any word becomes its residue
        let big = if r.gen_bool(0.3) { (m * r.gen_range(0..4u128) + r.gen_range(0..3)) % words } else { val(r, words) };
        call("new", big, 0, 0, &|| vec![F::new(raw(big))]);
        // relations between equal and unequal values built in different ways
        let y2 = match r.gen_range(0..4) { 0 => x, 1 => x + F::ONE - F::ONE, 2 => x * F::ONE + F::ZERO, _ => y };
        for (p, q) in [(x, y), (x, y2), (y2, x)] {
            let cmp = |o: Ordering| o as i32;
            tr.ev("rel", json!({"a": l(n(p)), "b": l(n(q)), "eq": p == q, "ne": p != q, "lt": p < q, "le": p <= q, "gt": p > q, "ge": p >= q,
                "cmp": cmp(p.cmp(&q)), "pcmp": p.partial_cmp(&q).map_or(9, cmp), "max": l(n(p.max(q))), "min": l(n(p.min(q))),
                "hash": hash(&p) == hash(&q), "isz": p.is_zero(), "iso": p.is_one(), "isn": p.is_neg_one()}));
        }
        // serialisation
        if let Some((b, t, d, back, backj)) = tr.run("serialise", || {
            let b = bincode::serialize(&x).unwrap();
            let t = serde_json::to_string(&x).unwrap();
            let back: F = bincode::deserialize(&b).unwrap();
            let backj: F = serde_json::from_str(&t).unwrap();
            (b, t, format!("{x}"), back, backj)
        }) {
            let dg = |s: &str| s.bytes().map(|c| c as i32 - 48).collect::<Vec<_>>();
            tr.ev("ser", json!({"a": l(xv), "bytes": b, "digits": dg(&t), "disp": dg(&d), "back": [l(n(back)), l(n(backj))]}));
        }
        if let Some(v) = tr.run("deserialise", || {
            let mut le = (big as u64).to_le_bytes().to_vec();
            le.truncate(w as usize / 8);
            [bincode::deserialize::<F>(&le).unwrap(), serde_json::from_str::<F>(&big.to_string()).unwrap()]
        }) {
            tr.ev("call", json!({"f": "new", "a": l(big), "b": l(0), "c": l(0), "outs": [l(n(v[0])), l(n(v[1]))]}));
        }
    }
    // ---- small primes: every pair of elements
    if m <= 257 {
        tr.begin(json!({"kind": name, "m": l(m), "w": w, "exhaustive": true}));
        let mi = m as u32;
        let row = |f: &str, x: u32, c: u32, from: u32, cnt: u32, g: &dyn Fn(u32) -> F| {
            if let Some(o) = tr.run(f, || (from..from + cnt).map(|y| v64(g(y)) as i64).collect::<Vec<_>>()) {
                tr.ev("row", json!({"f": f, "m": mi, "a": x, "c": c, "from": from, "n": cnt, "out": o}));
            }
        };
        let el = |y: u32| mk(y as u128);
        row("new", 0, 0, 0, words.min(1000) as u32, &|y| el(y));
        row("neg", 0, 0, 0, mi, &|y| -el(y));
        row("inv", 0, 0, 1, mi - 1, &|y| el(y).inv());
        for xv in 0..mi {
            let x = el(xv);
            let c = r.gen_range(0..mi);
            row("add", xv, 0, 0, mi, &|y| x + el(y));
            row("sub", xv, 0, 0, mi, &|y| x - el(y));
            row("mul", xv, 0, 0, mi, &|y| x * el(y));
            row("div", xv, 0, 1, mi - 1, &|y| x / el(y));
            row("mullazy", xv, 0, 0, mi, &|y| x.mul_fast(el(y)));
            row("fma", xv, c, 0, mi, &|y| el(c).add_mul(x, el(y)));
            row("fmalazy", xv, c + mi, 0, mi, &|y| F::lazy_new(raw((c + mi) as u128)).add_mul_fast(x, el(y)));
            row("pow", xv, 0, 0, mi.min(256), &|y| x.pow(raw(y as u128)));
        }
    }
}

pub fn run(a: &Args, tr: &Tr) {
    let mut r = rng(a.seed, 15);
    macro_rules! all { ($($n:ident)*) => {$( field::<$n>(tr, &mut r, stringify!($n), if a.thorough { 600 } else { 70 }); )*} }
    all!(B2 B3 B17 B41 B61 H17 H97 H193 H257 H7681 H15361 H16381 W17 W97 W257 W7681 W12289 WBIG WTOP
        Q17 Q257 Q12289 Q132 Q50 QBIG QTOP DefaultFieldU32 DefaultQks);
}
