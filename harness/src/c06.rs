//! Key switching.
use algebra::{AsFrom, NTTField};
use crate::common::*;
use fhe_core::{KeySwitchingLWEKey, KeySwitchingRLWEKey, LWEModulusType, LWESecretKeyType as LK, RingSecretKeyType as RK, SecretKeyPack, Steps};
use crate::fields::*;
use harness::*;
use lattice::{LWE, RLWE};
use rand::Rng;
use serde_json::json;

/// by table, modulus q
fn table<C: LWEModulusType, Q: NTTField>(tr: &Tr, r: &mut R, name: &str, c: &Cfg, num: usize)
where
    Q::Value: AsFrom<u64>,
{
    let Some((k, key)) = tr.run("keys", || {
        let k = SecretKeyPack::<C, Q>::new(c.params(), &mut *r);
        let key = KeySwitchingLWEKey::generate(&k, &mut *r);
        (k, key)
    }) else { return };
    tr.begin(khead(name, c, &k));
    let first = any_lwe::<C>(r, c.dim, c.q);
    let Some(o1) = tr.run("switch", || lwc(&key.key_switch_for_lwe(first.clone()))) else { return };
    for _ in 0..num {
        let x = any_lwe::<C>(r, c.dim, c.q);
        if let Some(o) = tr.run("switch", || lwc(&key.key_switch_for_lwe(x.clone()))) {
            tr.ev("kst", json!({"x": lwc(&x), "outs": [o]}));
        }
    }
    if let Some(o) = tr.run("switch", || [lwc(&key.key_switch_for_lwe(first.clone())), lwc(&key.clone().key_switch_for_lwe(first.clone()))]) {
        tr.ev("kst", json!({"x": lwc(&first), "outs": [o1, o[0], o[1]]}));
    }
}

/// by ring products, modulus Q
fn ring<C: LWEModulusType, Q: NTTField>(tr: &Tr, r: &mut R, name: &str, c: &Cfg, num: usize)
where
    Q::Value: AsFrom<u64>,
{
    let Some((k, key)) = tr.run("keys", || {
        let k = SecretKeyPack::<C, Q>::new(c.params(), &mut *r);
        let key = KeySwitchingRLWEKey::generate(&k, &mut *r);
        (k, key)
    }) else { return };
    tr.begin(khead(name, c, &k));
    let l = |r: &mut R| LWE::<Q>::new(vecf(r, c.dim), coeff(r));
    let g = |r: &mut R| RLWE::<Q>::new(algebra::Polynomial::new(vecf(r, c.dim)), algebra::Polynomial::new(vecf(r, c.dim)));
    let (x1, y1) = (l(r), g(r));
    let Some(o1) = tr.run("switch", || (lw(&key.key_switch_for_lwe(x1.clone())), lw(&key.key_switch_for_rlwe(y1.clone())))) else { return };
    for _ in 0..num {
        let (x, y) = (l(r), g(r));
        if let Some(o) = tr.run("switch", || lw(&key.key_switch_for_lwe(x.clone()))) {
            tr.ev("ksl", json!({"x": lw(&x), "outs": [o]}));
        }
        if let Some(o) = tr.run("switch", || lw(&key.key_switch_for_rlwe(y.clone()))) {
            tr.ev("ksr", json!({"x": rl(&y), "outs": [o]}));
        }
    }
    if let Some(o) = tr.run("switch", || {
        let k2 = key.clone();
        ([lw(&key.key_switch_for_lwe(x1.clone())), lw(&k2.key_switch_for_lwe(x1.clone()))], [lw(&key.key_switch_for_rlwe(y1.clone())), lw(&k2.key_switch_for_rlwe(y1.clone()))])
    }) {
        tr.ev("ksl", json!({"x": lw(&x1), "outs": [o1.0, o.0[0], o.0[1]]}));
        tr.ev("ksr", json!({"x": rl(&y1), "outs": [o1.1, o.1[0], o.1[1]]}));
    }
}

pub fn run(a: &Args, tr: &Tr) {
    let r = &mut rng(a.seed, 6);
    for _ in 0..if a.thorough { 60 } else { 6 } {
        for lk in [LK::Binary, LK::Ternary] {
            for rk in [RK::Binary, RK::Ternary] {
                let base = |n, q: u64, dim, ks, steps| Cfg { n, t: 4.min(q), q, lk, dim, rk, br: 3, steps, ks, sig: QUIET };
                macro_rules! t { ($($c:ident $q:ident $lq:literal: $n:expr, $d:expr, $bits:expr;)*) => {$(
                    for b in $bits {
                        let mut c = base($n, 1 << $lq, $d, b, Steps::BrMsKs);
                        if ($d * 20 * 16 * ($lq / b + 1) as u128) < (1 << $lq) && r.gen_range(0..3) == 0 { c.sig.2 = 3.2 }
                        table::<$c, $q>(tr, r, stringify!($c $q), &c, 5);
                    }
                )*} }
                t! {
                    u8 W17 3: 3, 8, [1u32, 2, 3];
                    u8 H97 7: 5, 16, [1, 3, 4, 7];
                    u16 W17 10: 4, 8, [1, 2, 5, 7, 10];
                    u16 DefaultFieldU32 14: 7, 32, [1, 4, 7];
                    u16 W7681 15: 1, 2, [8, 15];
                    u32 W257 20: 9, 16, [3, 7];
                    u64 QBIG 40: 6, 8, [2, 9];
                    u64 W17 63: 2, 4, [4];
                    u32 Q12289 31: 3, 64, [6];
                    u16 W17 1: 3, 8, [1];
                }
                macro_rules! g { ($($c:ident $q:ident: $n:expr, $d:expr, $bits:expr;)*) => {$(
                    for b in $bits {
                        let mut c = base($n, 1 << 6, $d, b, Steps::BrKsMs);
                        if room::<$q>($d, b, 21) && r.gen_range(0..3) == 0 { c.sig.2 = 3.2 }
                        if m128::<$q>() > 1 << 12 && r.gen_range(0..3) == 0 { c.rk = RK::Gaussian; c.sig.1 = 3.2 }
                        ring::<$c, $q>(tr, r, stringify!($c $q), &c, 3);
                    }
                )*} }
                g! {
                    u8 W17: 2, 8, [1u32, 3, 5];
                    u16 H97: 5, 8, [2, 7];
                    u16 W17: 4, 4, [1, 2];
                    u16 W7681: 6, 32, [4, 13];
                    u16 W7681: 3, 4, [13];
                    u16 DefaultFieldU32: 8, 64, [1, 7, 27];
                    u16 DefaultFieldU32: 16, 16, [3];
                    u16 DefaultFieldU32: 13, 16, [9];
                    u32 WBIG: 7, 16, [6, 30];
                    u64 QBIG: 5, 32, [11, 31, 62];
                    u64 Q50: 12, 16, [25];
                    u64 Q12289: 2, 4, [5];
                }
            }
        }
    }
    // larger dimensions: many chunks, one chunk, the whole ring, a prefix of it
    let big = |n, dim, ks, steps| Cfg { n, t: 4, q: 1 << 9, lk: LK::Ternary, dim, rk: RK::Ternary, br: 3, steps, ks, sig: QUIET };
    table::<u16, DefaultFieldU32>(tr, r, "many rows", &big(9, 512, 5, Steps::BrMsKs), 2);
    table::<u16, DefaultFieldU32>(tr, r, "very many rows", &Cfg { q: 1 << 12, ..big(2, 1024, 6, Steps::BrMsKs) }, 2);
    table::<u16, W7681>(tr, r, "long rows", &big(300, 8, 3, Steps::BrMsKs), 2);
    ring::<u16, DefaultFieldU32>(tr, r, "many chunks", &big(3, 512, 14, Steps::BrKsMs), 2);
    ring::<u16, DefaultFieldU32>(tr, r, "two chunks", &big(200, 512, 9, Steps::BrKsMs), 2);
    ring::<u16, DefaultFieldU32>(tr, r, "one chunk", &big(300, 512, 7, Steps::BrKsMs), 2);
    ring::<u16, DefaultFieldU32>(tr, r, "whole", &big(512, 512, 14, Steps::BrKsMs), 2);
    ring::<u16, DefaultFieldU32>(tr, r, "large", &big(1024, 1024, 14, Steps::BrKsMs), 1);
    if a.thorough {
        let c = Cfg { n: 500, t: 4, q: 1 << 14, lk: LK::Ternary, dim: 1024, rk: RK::Ternary, br: 7, steps: Steps::BrMsKs, ks: 7, sig: QUIET };
        table::<u16, DefaultFieldU32>(tr, r, "custom", &c, 3);
        ring::<u16, DefaultFieldU32>(tr, r, "default", &Cfg { ks: 1, steps: Steps::BrKsMs, n: 1024, ..c }, 3);
        ring::<u16, DefaultFieldU32>(tr, r, "default", &Cfg { ks: 2, steps: Steps::BrKsMs, n: 300, ..c }, 3);
    }
}
