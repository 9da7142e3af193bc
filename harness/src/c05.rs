//! Modulus switching.
use algebra::{AsFrom, AsInto, Field};
use fhe_core::{lwe_modulus_switch, lwe_modulus_switch_assign_between_modulus, lwe_modulus_switch_inplace, LWEModulusType};
use crate::fields::*;
use harness::*;
use lattice::LWE;
use rand::Rng;
use serde_json::json;
use crate::common::*;

fn inv(a: u128, m: u128) -> u128 {
    // m an odd prime: a^(m-2)
    let (mut r, mut b, mut e) = (1u128, a % m, m - 2);
    while e > 0 {
        if e & 1 == 1 { r = mulm(r, b, m) }
        b = mulm(b, b, m);
        e >>= 1;
    }
    r
}
fn mulm(a: u128, b: u128, m: u128) -> u128 {
    a * b % m
}

/// Values whose images lie next to a half-way point, next to 0 and next to the modulus.
fn edges(before: u128, after: u128, odd: bool) -> Vec<u128> {
    let mut v = vec![0, 1, before - 1, before / 2, before / 2 + 1, before / after, before / (2 * after), before / (2 * after) + 1, before - before / (2 * after), before.saturating_sub(before / (2 * after) + 1)];
    if odd {
        let i = inv(after, before);
        for k in 0..3 {
            v.push(mulm((before - 1) / 2 - k.min((before - 1) / 2), i, before));
            v.push(mulm((before + 1) / 2 + k, i, before));
        }
        v.push(i);
        v.push(before - i);
    }
    v.iter().map(|x| x % before).collect()
}

fn field<F: Field, C: LWEModulusType>(tr: &Tr, r: &mut R, name: &str, bits: &[u32])
where
    F::Value: AsFrom<u64>,
{
    let m = m128::<F>();
    tr.begin(json!({"kind": name, "m": limbs(m)}));
    let f = |x: u128| F::new(<F::Value as AsFrom<u64>>::as_from(x as u64));
    let max = <C as algebra::Bits>::BITS;
    for &b in bits.iter().filter(|b| **b < max) {
        let after = 1u128 << b;
        let mut v = edges(m, after, true);
        if m < 8000 && r.gen_range(0..4) == 0 || m < 300 {
            v.extend(0..m);
        } else {
            v.extend((0..40).map(|_| r.gen::<u128>() % m));
        }
        let n = v.len() - 1;
        let c: LWE<F> = LWE::new(v[..n].iter().map(|x| f(*x)).collect(), f(v[n]));
        let q = C::as_from(after as u64);
        if let Some(o) = tr.run("modulus switch", || {
            let mut o = vec![lwe_modulus_switch::<C, F>(c.clone(), q)];
            for k in 0..3 {
                let fill = C::as_from([0u64, 1, after as u64 - 1][k]);
                let mut d = LWE::new(vec![fill; n], fill);
                lwe_modulus_switch_inplace::<C, F>(c.clone(), q, &mut d);
                o.push(d);
            }
            o
        }) {
            tr.ev("ms", json!({"x": lw(&c), "after": limbs(after), "outs": o.iter().map(lwc).collect::<Vec<_>>()}));
        }
    }
}

/// between two moduli of the same word type
fn words<C: LWEModulusType>(tr: &Tr, r: &mut R, name: &str, pairs: &[(u64, u64)]) {
    for &(before, after) in pairs {
        tr.begin(json!({"kind": name, "m": limbs(before as u128)}));
        let mut v = edges(before as u128, after as u128, false);
        if before < 5000 {
            v.extend(0..before as u128);
        } else {
            v.extend((0..60).map(|_| r.gen::<u64>() as u128 % before as u128));
        }
        let n = v.len() - 1;
        let mk = |x: &u128| C::as_from(*x as u64);
        let c = LWE::new(v[..n].iter().map(mk).collect::<Vec<C>>(), mk(&v[n]));
        if let Some(o) = tr.run("modulus switch", || {
            let mut d = c.clone();
            lwe_modulus_switch_assign_between_modulus(&mut d, C::as_from(before), C::as_from(after));
            d
        }) {
            tr.ev("ms", json!({"x": lwc(&c), "after": limbs(after as u128), "outs": [lwc(&o)]}));
        }
    }
}

pub fn run(a: &Args, tr: &Tr) {
    let r = &mut rng(a.seed, 5);
    let all: Vec<u32> = (1..64).collect();
    for _ in 0..if a.thorough { 20 } else { 1 } {
        macro_rules! f { ($($f:ident)*) => {$(
            field::<$f, u8>(tr, r, stringify!($f u8), &all);
            field::<$f, u16>(tr, r, stringify!($f u16), &all);
            field::<$f, u32>(tr, r, stringify!($f u32), &all);
            field::<$f, u64>(tr, r, stringify!($f u64), &all);
        )*} }
        f! { B17 B61 H97 H7681 H15361 W257 W12289 UW WTOP Q17 Q50 QBIG UQ QTOP DefaultFieldU32 DefaultQks }
        let mut p = |top: u32, full: bool| {
            let mut v = vec![];
            for x in 1..top {
                for y in 1..top {
                    if full || (x as i64 - y as i64).abs() <= 1 || r.gen_range(0..5) == 0 { v.push((1u64 << x, 1u64 << y)); }
                }
            }
            v
        };
        let (p8, p16, p32, p64) = (p(8, true), p(16, false), p(32, false), p(64, false));
        words::<u8>(tr, r, "u8", &p8);
        words::<u16>(tr, r, "u16", &p16);
        words::<u32>(tr, r, "u32", &p32);
        words::<u64>(tr, r, "u64", &p64);
    }
    let _: usize = AsInto::<usize>::as_into(1u8);
}
