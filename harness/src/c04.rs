//! LWE ciphertext arithmetic.
use algebra::modulus::{BarrettModulus, PowOf2Modulus};
use algebra::Field;
use crate::fields::*;
use harness::*;
use lattice::{DiscreteGaussian, LWE};
use rand::Rng;
use serde_json::{json, Value};

fn big(x: u128) -> Value {
    json!(limbs(x))
}
fn bigs(v: impl IntoIterator<Item = u128>) -> Value {
    json!(v.into_iter().map(limbs).collect::<Vec<_>>())
}
fn words<T: Copy + Into<u64>>(x: &LWE<T>) -> Value {
    bigs(x.a().iter().copied().chain([x.b()]).map(|v| Into::<u64>::into(v) as u128))
}
fn val(r: &mut R, m: u128) -> u128 {
    match r.gen_range(0..9) {
        0 => 0,
        1 => m - 1,
        2 => m / 2,
        3 => (m / 2).saturating_sub(1),
        4 => 1 % m,
        _ => r.gen::<u128>() % m,
    }
}
fn head(kind: &str, m: u128, s: &[u128]) -> Value {
    json!({"kind": kind, "m": big(m), "n": s.len(), "k": 0, "root": big(0), "s": bigs(s.iter().copied())})
}
macro_rules! asg {
    ($x:expr, |$t:ident| $e:expr) => {{
        let mut $t = $x.clone();
        $e;
        $t
    }};
}

/// add, sub, neg (and with `mul`: scale, fma, fresh samples) of LWE<$t> under the modulus object $mo of value $m
static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
macro_rules! modulus {
    ($tr:ident, $r:ident, $beh:expr, $kind:expr, $t:ty, $m:expr, $mo:expr, $mul:tt) => {{
        let (tr, r, m, mo): (&Tr, &mut R, u128, _) = ($tr, &mut *$r, $m, $mo);
        // now and then as long as those of real parameters
        let calls = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let n = if calls % 17 == 3 { [1024usize, 257, 1500, 700, 2100][calls / 17 % 5] } else { *pick(r, &[1usize, 2, 3, 5, 8, 17]) };
        let s: Vec<u128> = (0..n).map(|_| *pick(r, &[0, 1 % m, m - 1])).collect();
        let lwe = |r: &mut R| -> LWE<$t> {
            let w: Vec<$t> = (0..n).map(|_| val(r, m) as $t).collect();
            let b = val(r, m) as $t;
            if r.gen() { LWE::new(w, b) } else { LWE::from_ref(&w, b) }
        };
        let h = head($kind, m, &s);
        tr.begin(h.clone());
        for _ in 0..if n > 256 { 1 } else { 4 } {
            let (x, y): (LWE<$t>, LWE<$t>) = (lwe(r), lwe(r));
            let k = val(r, m) as $t;
            let (x0, y0) = (x.clone(), y.clone());
            let ev = |f: &str, g: &dyn Fn() -> Vec<LWE<$t>>| {
                if let Some(o) = tr.run(f, g) {
                    tr.ev("lcall", json!({"f": f, "x": words(&x0), "y": words(&y0), "k": big(k as u128), "outs": o.iter().map(words).collect::<Vec<_>>()}));
                }
            };
            ev("add", &|| vec![x.add_reduce_component_wise_ref(&y, mo), x.clone().add_reduce_component_wise(&y, mo), asg!(x, |t| t.add_reduce_inplace_component_wise(&y, mo))]);
            ev("sub", &|| vec![x.sub_reduce_component_wise_ref(&y, mo), x.clone().sub_reduce_component_wise(&y, mo), asg!(x, |t| t.sub_reduce_inplace_component_wise(&y, mo))]);
            ev("neg", &|| vec![x.neg_reduce(mo), asg!(x, |t| t.neg_reduce_assign(mo))]);
            modulus!(@mul $mul {
                ev("scale", &|| vec![asg!(x, |t| t.scalar_mul_reduce_inplace(k, mo))]);
                ev("fma", &|| vec![asg!(x, |t| t.add_assign_rhs_mul_scalar_reduce(&y, k, mo))]);
            });
            ev("copy", &|| vec![x.clone(), LWE::from_ref(x.a(), x.b()), asg!(y.clone(), |t| { *t.a_mut() = x.a().to_vec(); *t.b_mut() = x.b(); })]);
            tr.ev("lcall", json!({"f": "copy", "x": words(&y0), "y": words(&x0), "k": big(0), "outs": [words(&y)]}));
        }
        // a register program
        let prog: &Value = $beh;
        let mut g: Vec<LWE<$t>> = (0..3).map(|_| lwe(r)).collect();
        let mut h = h;
        h["r"] = json!(g.iter().map(words).collect::<Vec<_>>());
        tr.begin(h);
        for st in prog.as_array().unwrap().iter().take(if n > 256 { 4 } else { usize::MAX }) {
            let op = st[0].as_str().unwrap();
            let ix = |i: usize| st[i].as_u64().unwrap() as usize;
            let (d, a, b, f) = (ix(1), ix(2), ix(3), ix(4));
            let k = val(r, m) as $t;
            let (x, y) = (g[a].clone(), g[b].clone());
            let mut done = true;
            let ok = tr.run(op, || match (op, f) {
                ("add", 0) => g[d] = x.add_reduce_component_wise_ref(&y, mo),
                ("add", 1) => g[d] = x.add_reduce_component_wise(&y, mo),
                ("add", _) => { g[d] = x; g[d].add_reduce_inplace_component_wise(&y, mo) }
                ("sub", 0) => g[d] = x.sub_reduce_component_wise_ref(&y, mo),
                ("sub", 1) => g[d] = x.sub_reduce_component_wise(&y, mo),
                ("sub", _) => { g[d] = x; g[d].sub_reduce_inplace_component_wise(&y, mo) }
                ("neg", 0) => g[d] = x.neg_reduce(mo),
                ("neg", _) => { g[d] = x; g[d].neg_reduce_assign(mo) }
                ("copy", _) => g[d] = x,
                _ => { done = false; modulus!(@mul $mul {
                    done = true;
                    if op == "scale" { g[d] = x; g[d].scalar_mul_reduce_inplace(k, mo) } else { g[d].add_assign_rhs_mul_scalar_reduce(&y, k, mo) }
                }) }
            });
            if ok.is_none() { break; }
            if done {
                tr.ev("lstep", json!({"f": op, "d": d, "a": a, "b": b, "k": big(k as u128), "r": g.iter().map(words).collect::<Vec<_>>()}));
            }
        }
    }};
    (@mul yes $b:block) => { $b };
    (@mul no $b:block) => { () };
}

/// fresh zero samples: with a deviation of 1/1000 the error equals the mean
macro_rules! fresh {
    ($tr:ident, $r:ident, $kind:expr, $t:ty, $m:expr, $mo:expr) => {{
        let (tr, r, m, mo): (&Tr, &mut R, u128, _) = ($tr, &mut *$r, $m, $mo);
        for (mean, dev) in [(0.0, 1e-3), (5.0, 1e-3), (-5.0, 1e-3), (0.0, 0.0), (0.0, 3.2), (7.0, 2.0)] {
            // a truncated gaussian that reaches below the modulus
            if m <= 64 && dev > 1.0 || m <= 16 && mean != 0.0 { continue; }
            let n = *pick(r, &[6usize, 9, 16, 33]);
            let s: Vec<u128> = (0..n).map(|_| *pick(r, &[0, 1 % m, m - 1])).collect();
            let key: Vec<$t> = s.iter().map(|x| *x as $t).collect();
            tr.begin(head($kind, m, &s));
            let out: Vec<_> = (0..6).filter_map(|_| tr.run("zero sample", || {
                let e = DiscreteGaussian::<$t>::new(m as $t, mean, dev).unwrap();
                words(&LWE::<$t>::generate_random_zero_sample(&key, m as $t, mo, e, &mut *r))
            })).collect();
            let mean = if mean < 0.0 { m - (-mean) as u128 } else { mean as u128 };
            tr.ev("lzero", json!({"outs": out, "mean": big(mean), "bound": big(if dev < 1.0 { 0 } else { (6.0 * dev) as u128 + 1 })}));
        }
    }};
}

fn field<F: Field>(tr: &Tr, r: &mut R, name: &str)
where
    F::Value: algebra::AsFrom<u64>,
{
    let n = *pick(r, &[1usize, 2, 3, 7, 30, 300, 1300]);
    let s: Vec<u128> = (0..n).map(|_| val(r, m128::<F>())).collect();
    tr.begin(head(name, m128::<F>(), &s));
    let w = |x: &LWE<F>| bigs(x.a().iter().copied().chain([x.b()]).map(|v| v64(v) as u128));
    for _ in 0..4 {
        let (x, y): (LWE<F>, LWE<F>) = (LWE::new((0..n).map(|_| coeff(r)).collect(), coeff(r)), LWE::new((0..n).map(|_| coeff(r)).collect(), coeff(r)));
        let ev = |f: &str, g: &dyn Fn() -> Vec<LWE<F>>| {
            if let Some(o) = tr.run(f, g) {
                tr.ev("lcall", json!({"f": f, "x": w(&x), "y": w(&y), "k": big(0), "outs": o.iter().map(w).collect::<Vec<_>>()}));
            }
        };
        ev("add", &|| vec![x.add_component_wise_ref(&y), x.clone().add_component_wise(&y), asg!(x, |t| t.add_inplace_component_wise(&y))]);
        ev("sub", &|| vec![x.sub_component_wise_ref(&y), x.clone().sub_component_wise(&y), asg!(x, |t| t.sub_inplace_component_wise(&y))]);
    }
}

pub fn run(a: &Args, tr: &Tr) {
    let r = &mut rng(a.seed, 4);
    let beh = behaviours(&a.inputs[0]);
    let mut bi = beh.iter().cycle();
    let rounds = if a.thorough { 12 } else { 1 };
    macro_rules! word { ($($t:ty: $w:literal $name:literal;)*) => {$(
        for round in 0..rounds {
            let full = 1u128 << $w;
            modulus!(tr, r, bi.next().unwrap(), concat!($name, " native"), $t, full, (), yes);
            for b in 1..$w { if round == 0 || r.gen_range(0..4) == 0 {
                let m = 1u128 << b;
                modulus!(tr, r, bi.next().unwrap(), concat!($name, " pow2"), $t, m, PowOf2Modulus::<$t>::new(m as $t), yes);
                if b >= 3 { fresh!(tr, r, concat!($name, " pow2"), $t, m, PowOf2Modulus::<$t>::new(m as $t)); }
            } }
            for _ in 0..12 {
                let b = r.gen_range(2..=$w - 2u32);
                let m = ((1u128 << (b - 1)) + r.gen::<u128>() % (1u128 << (b - 1))).max(2);
                modulus!(tr, r, bi.next().unwrap(), concat!($name, " barrett"), $t, m, BarrettModulus::<$t>::new(m as $t), yes);
                if m > 16 { fresh!(tr, r, concat!($name, " barrett"), $t, m, BarrettModulus::<$t>::new(m as $t)); }
                let b = r.gen_range(1..=$w - 1u32);
                let m = ((1u128 << b) - r.gen::<u128>() % (1u128 << (b - 1))).max(2);
                modulus!(tr, r, bi.next().unwrap(), concat!($name, " plain"), $t, m, m as $t, no);
            }
        }
    )*} }
    word! { u8: 8 "u8"; u16: 16 "u16"; u32: 32 "u32"; u64: 64 "u64"; }
    macro_rules! fields { ($($f:ident)*) => {$( for _ in 0..2 * rounds { field::<$f>(tr, r, stringify!($f)); } )*} }
    fields! { B2 B3 B17 B61 H97 H16381 W17 W12289 UW WTOP Q17 Q132 Q50 QBIG UQ QTOP DefaultFieldU32 DefaultQks }
}
