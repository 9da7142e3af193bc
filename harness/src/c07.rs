//! Blind rotation.
use algebra::{AsFrom, NTTField, Polynomial};
use crate::common::*;
use fhe_core::{BlindRotationKey, LWEModulusType, LWESecretKeyType as LK, RingSecretKeyType as RK, SecretKeyPack, Steps};
use crate::fields::*;
use harness::*;
use lattice::LWE;
use rand::Rng;
use serde_json::json;

fn session<C: LWEModulusType, Q: NTTField>(tr: &Tr, r: &mut R, name: &str, c: &Cfg, full: bool, num: usize)
where
    Q::Value: AsFrom<u64>,
{
    let Some((k, key)) = tr.run("keys", || {
        let k = SecretKeyPack::<C, Q>::new(c.params(), &mut *r);
        let key = BlindRotationKey::generate(&k, &mut *r);
        (k, key)
    }) else { return };
    tr.begin(khead(name, c, &k));
    let two = 2 * c.dim as u64;
    let mut cases: Vec<LWE<C>> = vec![];
    if full {
        let total = two.pow(c.n as u32 + 1);
        for i in 0..total {
            let d = |j: u32| C::as_from(i / two.pow(j) % two);
            cases.push(LWE::new((0..c.n as u32).map(d).collect(), d(c.n as u32)));
        }
    } else {
        for b in [0, 1, c.dim as u64 - 1, c.dim as u64, c.dim as u64 + 1, two - 1] {
            let mut x = any_lwe::<C>(r, c.n, two);
            *x.b_mut() = C::as_from(b % two);
            cases.push(x);
        }
        cases.extend((0..num).map(|_| any_lwe(r, c.n, two)));
    }
    let basis = k.parameters().blind_rotation_basis();
    let keep = cases[cases.len() / 2].clone();
    let table = Polynomial::<Q>::new(vecf(r, c.dim));
    let again = |x: &LWE<C>| key.blind_rotate(table.clone(), x, basis);
    let Some(first) = tr.run("rotate", || rl(&again(&keep))) else { return };
    for x in &cases {
        let lut = if r.gen_range(0..16) == 0 { table.clone() } else { Polynomial::<Q>::new(vecf(r, c.dim)) };
        if let Some(o) = tr.run("rotate", || rl(&key.blind_rotate(lut.clone(), x, basis))) {
            tr.ev("br", json!({"lut": pl(lut.as_slice()), "x": lwc(x), "outs": [o]}));
        }
    }
    // the same rotation before and after all the others, and by a copy of the key
    if let Some(last) = tr.run("rotate", || [rl(&again(&keep)), rl(&key.clone().blind_rotate(table.clone(), &keep, basis))]) {
        tr.ev("br", json!({"lut": pl(table.as_slice()), "x": lwc(&keep), "outs": [first, last[0], last[1]]}));
    }
}

pub fn run(a: &Args, tr: &Tr) {
    let r = &mut rng(a.seed, 7);
    let base = |n, dim, lk, br| Cfg { n, t: 4, q: 1 << 6, lk, dim, rk: RK::Ternary, br, steps: Steps::BrKsMs, ks: 3, sig: QUIET };
    for _ in 0..if a.thorough { 20 } else { 3 } {
        for lk in [LK::Binary, LK::Ternary] {
            // every mask and body
            session::<u16, W17>(tr, r, "W17", &base(2, 4, lk, 1), true, 0);
            session::<u8, H97>(tr, r, "H97", &base(1, 8, lk, 7), true, 0);
            session::<u8, B17>(tr, r, "B17", &base(3, 2, lk, 2), true, 0);
            session::<u64, QBIG>(tr, r, "QBIG", &base(1, 16, lk, 30), true, 0);
            macro_rules! go { ($($c:ident $q:ident $n:expr, $d:expr, $bits:expr;)*) => {$(
                for b in $bits {
                    let mut c = base($n, $d, lk, b);
                    c.rk = *pick(r, &[RK::Binary, RK::Ternary]);
                    // a Gaussian ring key takes its deviation from the ring noise: only where there is room for it
                    if room::<$q>(4 * $n * $d, b, 21) {
                        if r.gen() { c.sig.1 = 3.2 }
                        if r.gen() { c.rk = RK::Gaussian; c.sig.1 = 3.2 }
                    }
                    session::<$c, $q>(tr, r, stringify!($c $q), &c, false, 14);
                }
            )*} }
            go! {
                u8 W7681 5, 64, [1, 4, 13];
                u16 DefaultFieldU32 7, 32, [1, 3, 7, 13, 27];
                u16 H7681 4, 16, [2, 6];
                u32 Q132 6, 16, [4, 9];
                u32 WBIG 3, 8, [5, 15, 30];
                u64 QBIG 4, 16, [6, 31, 62];
                u64 Q50 9, 32, [10, 25];
                u16 W12289 33, 16, [1, 7];
                u16 DefaultQks 12, 128, [5];
            }
        }
    }
    for lk in [LK::Binary, LK::Ternary] {
        session::<u16, W257>(tr, r, "long", &base(300, 8, lk, 3), false, 2);
        session::<u16, DefaultFieldU32>(tr, r, "wide", &base(5, 1024, lk, 9), false, 1);
    }
    if a.thorough {
        for lk in [LK::Binary, LK::Ternary] {
            session::<u16, W17>(tr, r, "W17", &base(3, 4, lk, 2), true, 0);
            session::<u16, H193>(tr, r, "H193", &base(2, 8, lk, 4), true, 0);
            session::<u16, DefaultFieldU32>(tr, r, "big", &base(60, 1024, lk, 3), false, 4);
        }
    }
}
