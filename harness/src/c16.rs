//! GCD, inverses, primality, roots of unity, bit reversal.
use algebra::derive::{DecomposableField, FheField, Prime as PrimeDerive};
use algebra::modulus::BarrettModulus;
use algebra::reduce::{InvReduce, InvReduceAssign, TryInvReduce};
use algebra::utils::{ExtendedGCD, Prime, ReverseLsbs};
use algebra::derive::Field as FieldD;
use algebra::{AsFrom, NTTField, PrimeField};
use crate::fields::*;
use harness::*;
use rand::Rng;
use serde_json::{json, Value};

fn l(x: u128) -> Value {
    json!(limbs(x))
}
fn s(x: i128) -> Value {
    json!([x < 0, limbs(x.unsigned_abs())])
}
fn val(r: &mut R, n: u128) -> u128 {
    (match r.gen_range(0..8) {
        0 => r.gen_range(0..9),
        1 => n - 1 - r.gen_range(0..9u128.min(n)),
        2 => n / 2 + r.gen_range(0..3),
        3 => (1u128 << r.gen_range(0..64)) + r.gen_range(0..2),
        4 | 5 => r.gen::<u128>() >> r.gen_range(0..128),
        _ => r.gen(),
    }) % n
}
fn egcd(a: u128, b: u128) -> u128 {
    if b == 0 { a } else { egcd(b, a % b) }
}
/// Deterministic for everything below 3.3e24; only steers the choice of candidates.
fn prime(n: u128) -> bool {
    if n < 2 { return false; }
    for p in [2u128, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if n % p == 0 { return n == p; }
    }
    [2u128, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37].iter().all(|&a| strong(n, a))
}
fn powm(mut a: u128, mut e: u128, n: u128) -> u128 {
    let mut x = 1;
    a %= n;
    while e > 0 {
        if e & 1 == 1 { x = x * a % n; }
        a = a * a % n;
        e >>= 1;
    }
    x
}
fn strong(n: u128, a: u128) -> bool {
    let t = (n - 1).trailing_zeros();
    let mut x = powm(a, (n - 1) >> t, n);
    if x == 1 || x == n - 1 { return true; }
    for _ in 1..t {
        x = x * x % n;
        if x == n - 1 { return true; }
    }
    false
}

macro_rules! words { ($a:expr, $tr:expr, $r:expr, $($t:ident $st:ident)*) => {$({
    let (a, tr): (&Args, &Tr) = ($a, $tr);
    let w = $t::BITS;
    let top = 1u128 << w;
    let half = 1u128 << (w - 2);          // range in which the Bezout coefficients are exact
    tr.begin(json!({"kind": "gcd", "w": w}));
    let both = |x: u128, y: u128| {
        if let Some((g, c, n)) = tr.run("gcd", || ((x as $t).gcd(y as $t), (x as $t).coprime(y as $t), (x as $t).not_coprime(y as $t))) {
            tr.ev("gcd", json!({"a": l(x), "b": l(y), "g": l(g as u128), "co": c, "nco": n}));
        }
        if x > 0 && y > 0 && x < half && y < half {
            if let Some((p, q, g)) = tr.run("extended_gcd", || <$t as ExtendedGCD>::extended_gcd(x as $t, y as $t)) {
                tr.ev("egcd", json!({"a": l(x), "b": l(y), "p": s(p as i128), "q": s(q as i128), "g": l(g as u128)}));
            }
        }
        if x > 1 && x < half && y < x {
            // y modulo x
            let (m, v) = (x as $t, y as $t);
            if let Some(o) = tr.run("try_inv_reduce", || v.try_inv_reduce(m).map_err(|e| e.to_string())) {
                let (ok, i, t) = match o { Ok(i) => (true, i as u128, vec![]), Err(e) => (false, 0, nums(&e)) };
                tr.ev("tryinv", json!({"m": l(x), "v": l(y), "ok": ok, "i": l(i), "names": t}));
            }
            if egcd(x, y) == 1 {
                let bm = BarrettModulus::<$t>::new(m);
                if let Some(o) = tr.run("inv_reduce", || {
                    let mut q = v;
                    q.inv_reduce_assign(bm);
                    [v.inv_reduce(m) as u128, v.inv_reduce(bm) as u128, q as u128]
                }) {
                    for i in o { tr.ev("tryinv", json!({"m": l(x), "v": l(y), "ok": true, "i": l(i), "names": Vec::<Value>::new()})); }
                }
            }
        }
    };
    if w == 8 {
        for x in 0..64u128 { tr.begin(json!({"kind": "gcd", "w": w})); for y in 0..64u128 { both(x, y); } }
        // the full word range of the plain gcd
        for x in (0..256u128).step_by(if a.thorough { 1 } else { 5 }) {
            tr.begin(json!({"kind": "gcd", "w": w}));
            for y in 0..256u128 { if x >= 64 || y >= 64 { both(x, y); } }
        }
    } else {
        let rounds = if a.thorough { 12000 } else { 1200 };
        for i in 0..rounds {
            if i % 100 == 99 { tr.begin(json!({"kind": "gcd", "w": w})); }
            let lim = if $r.gen_bool(0.8) { half } else { top };
            let (mut x, mut y) = (val($r, lim), val($r, lim));
            match $r.gen_range(0..6) {
                0 => {                            // a large common factor
                    let f = 1 + ($r.gen::<u128>() % lim >> $r.gen_range(1..w));
                    x = (x / f).max(1) * f; y = (y / f).max(1) * f;
                    if x >= lim { x = f } if y >= lim { y = f }
                }
                1 => { let k = $r.gen_range(0..w - 2); x = (x >> k) << k; y = (y >> k) << k; }
                2 => { y = x; }
                3 => {                            // neighbours of a ratio of consecutive Fibonacci numbers
                    let (mut p, mut q) = (1u128, 1 + $r.gen_range(0..3u128));
                    while p + q < lim && $r.gen_bool(0.97) { let n = p + q; p = q; q = n; }
                    x = q; y = p;
                }
                _ => {}
            }
            both(x, y);
            both(y, x);
        }
    }
})*} }

/// The numbers in an error text.
fn nums(t: &str) -> Vec<Value> {
    t.split(|c: char| !c.is_ascii_digit()).filter(|p| !p.is_empty()).filter_map(|p| p.parse::<u128>().ok()).map(l).collect()
}

macro_rules! reverse { ($a:expr, $tr:expr, $r:expr, $($t:ident)*) => {$({
    let w = $t::BITS;
    $tr.begin(json!({"kind": "reverse", "w": w}));
    let one = |bits: u32, x: u128| {
        if let Some(y) = $tr.run("reverse_lsbs", || (x as $t).reverse_lsbs(bits)) {
            $tr.ev("rev", json!({"x": l(x), "bits": bits, "y": l(y as u128)}));
        }
    };
    for bits in 0..w {
        if w == 8 { for x in 0..256 { one(bits, x); } } else {
            let k = if $a.thorough { 60 } else { 8 };
            for _ in 0..k { let x = val($r, u128::MAX) & (!0u128 >> (128 - w)); one(bits, x); }
            one(bits, 1); one(bits, !0u128 >> (128 - w)); one(bits, 1u128 << bits); one(bits, 0);
        }
    }
})*} }

macro_rules! primality { ($a:expr, $tr:expr, $r:expr, $($t:ident)*) => {$({
    let (a, tr): (&Args, &Tr) = ($a, $tr);
    let w = $t::BITS;
    let lim = 1u128 << (w - 2);
    let test = |n: u128, k: usize| BarrettModulus::<$t>::new(n as $t).probably_prime(k);
    // ---- whole ranges
    if w <= 16 {
        for from in (2..lim).step_by(512) {
            tr.begin(json!({"kind": "prime", "w": w}));
            let to = (from + 512).min(lim);
            if let Some(o) = tr.run("probably_prime", || (from..to).map(|n| test(n, 20)).collect::<Vec<_>>()) {
                tr.ev("primes", json!({"from": from as u64, "out": o}));
            }
            // primes must be accepted whatever the number of rounds
            for k in [1usize, 3] {
                let ps: Vec<u128> = (from..to).filter(|n| prime(*n)).collect();
                if let Some(o) = tr.run("probably_prime", || ps.iter().filter(|n| !test(**n, k)).map(|n| *n as u64).collect::<Vec<_>>()) {
                    tr.ev("refused", json!({"ns": o, "count": ps.len()}));
                }
            }
        }
    }
    // ---- selected candidates
    let mut c: Vec<u128> = vec![];
    // Carmichael numbers, strong pseudoprimes to small bases, products and squares of primes, near limits
    c.extend([561u128, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101,
        294409, 399001, 410041, 56052361, 118901521, 172947529, 1299963601, 4562359201, 1590231231043178376,
        2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 1373653, 25326001,
        3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 318665857834031151167461,
        1194649, 12327121, 3511 * 3511, 1093 * 1093, 4294967297, 4294967291, 2147483647, 1073741789, 1073741823, 2305843009213693951,
        4611686018427387847, 4611686018427387903, 132120577, 15361, 1125899904679937, 4611686018405367809, 18014398509481951]);
    for k in 1..4u128 { c.push(lim - k); }
    for _ in 0..(if a.thorough { 4000 } else { 400 }) {
        let b = $r.gen_range(4..w - 2);
        let n = ((1u128 << b) | ($r.gen::<u128>() % (1u128 << b))) | 1;
        c.push(n);
        let np = (0..4000).map(|i| n + 2 * i).find(|n| prime(*n)).unwrap();
        c.push(np);
        // (k+1)(2k+1): the family with the most strong liars
        let h = (b / 2).max(4);
        let k = ((1u128 << (h - 1)) | ($r.gen::<u128>() % (1u128 << (h - 1)))) & !1;
        if let Some(k) = (0..2000).map(|i| k + 2 * i).find(|k| prime(k + 1) && prime(2 * k + 1)) { c.push((k + 1) * (2 * k + 1)); }
        let (p, q) = ((0..2000).map(|i| (k | 1) + 2 * i).find(|n| prime(*n)).unwrap(), (0..2000).map(|i| (k | 1) * 3 + 2 * i).find(|n| prime(*n)).unwrap());
        c.push(p * q);
        c.push(p * p);
    }
    c.retain(|n| *n >= 2 && *n < lim);
    c.sort(); c.dedup();
    for ch in c.chunks(40) {
        tr.begin(json!({"kind": "prime", "w": w}));
        for &n in ch {
            for k in [20usize, 32] {
                if let Some(o) = tr.run("probably_prime", || test(n, k)) { tr.ev("isprime", json!({"n": l(n), "rounds": k, "out": o})); }
            }
            // few rounds: how often the worst composites are accepted
            if prime(n) {
                if let Some(o) = tr.run("probably_prime", || (0..12).filter(|i| !test(n, 1 + i % 3)).count()) { tr.ev("always", json!({"n": l(n), "refused": o})); }
            }
        }
    }
    let mut worst: Vec<u128> = c.iter().copied().filter(|n| n % 2 == 1 && !prime(*n) && strong(*n, 2)).collect();
    worst.extend(c.iter().copied().filter(|n| n % 3 > 0 && !prime(*n) && { let k = (((8 * n + 1) as f64).sqrt() as u128 - 3) / 4; (k.saturating_sub(2)..k + 3).any(|k| (k + 1) * (2 * k + 1) == *n) }).take(if a.thorough { 200 } else { 25 }));
    for n in worst {
        if (3..54).any(|p| prime(p) && n % p == 0) { continue; }
        tr.begin(json!({"kind": "prime", "w": w}));
        for k in [1usize, 2] {
            let calls = if a.thorough { 6000 } else { 2000 };
            if let Some(o) = tr.run("probably_prime", || (0..calls).filter(|_| test(n, k)).count()) {
                tr.ev("accept", json!({"n": l(n), "rounds": k, "calls": calls, "accepted": o}));
            }
        }
    }
})*} }

macro_rules! composite_fields { ($($n:ident $t:ident = $m:literal;)*) => {$(
    #[derive(FieldD, PrimeDerive, DecomposableField, FheField)]
    #[modulus = $m]
    pub struct $n($t);
)*} }
composite_fields! { X15 u8 = 15; X49 u8 = 49; X561 u16 = 561; X2047 u16 = 2047; X49141 u32 = 49141; X25 u32 = 25326001; X32 u64 = 3215031751; X38 u64 = 3825123056546413051; }

fn roots<F: NTTField>(a: &Args, tr: &Tr, r: &mut R, name: &str)
where
    F::Degree: TryFrom<u64> + Copy,
    F::Value: AsFrom<u64>,
{
    let m = m128::<F>();
    let w = std::mem::size_of::<F::Value>() * 8;
    for k in 1..w as u32 {
        let Ok(d) = F::Degree::try_from(1u64 << k) else { continue };
        tr.begin(json!({"kind": "root", "field": name, "m": l(m), "w": w}));
        for _ in 0..(if a.thorough { 12 } else { 3 }) {
            if let Some(o) = tr.run("try_primitive_root", || F::try_primitive_root(d).map_err(|e| e.to_string())) {
                let (ok, x, t) = match o { Ok(x) => (true, v64(x) as u128, vec![]), Err(e) => (false, 0, nums(&e)) };
                tr.ev("root", json!({"d": l(1 << k), "half": 0, "min": false, "ok": ok, "r": l(x), "names": t}));
            }
        }
        if k <= 14 || (m - 1) % (1 << k) != 0 {
            for _ in 0..2 {
                if let Some(o) = tr.run("try_minimal_primitive_root", || F::try_minimal_primitive_root(d).map_err(|e| e.to_string())) {
                    let (ok, x, t) = match o { Ok(x) => (true, v64(x) as u128, vec![]), Err(e) => (false, 0, nums(&e)) };
                    tr.ev("root", json!({"d": l(1 << k), "half": if k <= 14 { 1u32 << (k - 1) } else { 0 }, "min": true, "ok": ok, "r": l(x), "names": t}));
                }
            }
        }
        let xs: Vec<u128> = if m <= 257 { (0..m).collect() } else {
            let mut v: Vec<u128> = (0..12).map(|_| r.gen::<u128>() % m).collect();
            v.extend([0, 1, m - 1, 2]);
            if let Ok(Ok(x)) = caught(|| F::try_primitive_root(d)) { let mut y = x; for _ in 0..6 { v.push(v64(y) as u128); y = y * y; } }
            v
        };
        if let Some(o) = tr.run("is_primitive_root", || xs.iter().map(|x| F::is_primitive_root(F::new(F::Value::as_from(*x as u64)), d)).collect::<Vec<_>>()) {
            tr.ev("isroot", json!({"d": l(1 << k), "xs": xs.iter().map(|x| limbs(*x)).collect::<Vec<_>>(), "out": o}));
        }
        // conversions between elements, roots and integers
        if let Some(o) = tr.run("root conversions", || {
            (0..8).map(|_| {
                let (x, y) = (r.gen::<u128>() % m, r.gen::<u128>() % m);
                let (fx, fy) = (F::new(F::Value::as_from(x as u64)), F::new(F::Value::as_from(y as u64)));
                let mut z = fx;
                z.mul_root_assign(fy.to_root());
                let big = r.gen::<u64>() >> r.gen_range(0..64);
                let big = if m >= 1 << 63 { big % (1 << 62) } else { big };
                json!([limbs(x), limbs(y), limbs(v64(F::from_root(fx.to_root())) as u128), limbs(v64(fx.mul_root(fy.to_root())) as u128), limbs(v64(z) as u128),
                    limbs(big as u128), limbs(v64(F::from(big as usize)) as u128)])
            }).collect::<Vec<_>>()
        }) {
            tr.ev("conv", json!({"rows": o}));
        }
    }
}

pub fn run(a: &Args, tr: &Tr) {
    let mut r = rng(a.seed, 16);
    words!(a, tr, &mut r, u8 i8 u16 i16 u32 i32 u64 i64);
    reverse!(a, tr, &mut r, u8 u16 u32 u64 u128 usize);
    primality!(a, tr, &mut r, u8 u16 u32 u64);
    tr.begin(json!({"kind": "fields"}));
    macro_rules! isf { ($($n:ident)*) => {$(
        if let Some(o) = tr.run("is_prime_field", || $n::is_prime_field()) { tr.ev("isprime", json!({"n": l(m128::<$n>()), "rounds": 20, "out": o})); }
    )*} }
    isf!(X15 X49 X561 X2047 X49141 X25 X32 X38 B2 B3 B17 B41 B61 H17 H97 H193 H257 H7681 H15361 H16381 W17 W97 W257 W7681 W12289 WBIG WTOP
        Q17 Q257 Q12289 Q132 Q50 QBIG QTOP DefaultFieldU32 DefaultQks);
    macro_rules! rt { ($($n:ident)*) => {$( roots::<$n>(a, tr, &mut r, stringify!($n)); )*} }
    rt!(B17 B41 H17 H97 H193 H257 H7681 H15361 W17 W97 W257 W7681 W12289 WBIG Q17 Q257 Q12289 Q132 Q50 QBIG DefaultFieldU32 DefaultQks);
}
