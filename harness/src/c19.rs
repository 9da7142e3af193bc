//! Parameters and key generation.
use crate::common::*;
use algebra::NTTField;
use fhe_core::{LWEModulusType, LWESecretKeyType as LK, Parameters, RingSecretKeyType as RK, SecretKeyPack, Steps};
use crate::fields::*;
use harness::*;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use zkfhe::{bfhe::{CUSTOM_TERNARY_128_BITS_PARAMETERS, DEFAULT_TERNARY_128_BITS_PARAMETERS}, Decryptor, Encryptor, KeyGen};

fn given(c: &Cfg, m: u64) -> Value {
    json!([c.n.to_string(), c.t.to_string(), c.q.to_string(), c.q.to_string(), c.sig.0.to_bits().to_string(), format!("{:?}", c.lk), c.dim.to_string(), m.to_string(),
        c.sig.1.to_bits().to_string(), format!("{:?}", c.rk), c.br.to_string(), c.ks.to_string(), c.sig.2.to_bits().to_string(), steps_name(c.steps),
        [c.n.to_string(), c.t.to_string(), c.q.to_string(), format!("{:?}", c.lk), c.sig.0.to_bits().to_string()]])
}
fn got<C: LWEModulusType, Q: NTTField>(p: &Parameters<C, Q>) -> Value {
    let m: u64 = p.ring_modulus().into();
    let l = p.lwe_params();
    // the modulus object: 0 - 1 is the largest residue
    let q1 = C::ZERO.sub_reduce(C::ONE, p.lwe_cipher_modulus());
    json!([p.lwe_dimension().to_string(), p.lwe_plain_modulus().to_string(), w64(p.lwe_cipher_modulus_value()).to_string(), (w64(q1) + 1).to_string(), p.lwe_noise_standard_deviation().to_bits().to_string(),
        format!("{:?}", p.lwe_secret_key_type()), p.ring_dimension().to_string(), m.to_string(), p.ring_noise_standard_deviation().to_bits().to_string(),
        format!("{:?}", p.ring_secret_key_type()), p.blind_rotation_basis().bits().to_string(), p.key_switching_basis_bits().to_string(),
        p.key_switching_noise_standard_deviation().to_bits().to_string(), steps_name(p.steps()),
        [l.dimension.to_string(), l.plain_modulus.to_string(), w64(l.cipher_modulus).to_string(), format!("{:?}", l.secret_key_type), l.noise_standard_deviation.to_bits().to_string()]])
}

fn params<C: LWEModulusType, Q: NTTField>(tr: &Tr, r: &mut R, name: &str, num: usize) {
    let m = m128::<Q>() as u64;
    tr.begin(json!({"kind": name}));
    let bits = 64 - m.leading_zeros();
    let qs = <C as algebra::Bits>::BITS;
    let top = u64::MAX >> (64 - qs);
    let modulus = |r: &mut R| match r.gen_range(0..20) { 0 => r.gen::<u64>() & top, 1 => r.gen_range(0..70).min(top), 2 => top, 3 => (1u64 << r.gen_range(0..qs)) - 1, 4 => (1u64 << r.gen_range(0..qs)).wrapping_add(1) & top, _ => 1u64 << r.gen_range(0..qs) };
    for i in 0..num {
        let dim = match r.gen_range(0..14) { 0 => r.gen_range(0..40), 1 => 3 << r.gen_range(0..20), 2 => 1usize << r.gen_range(0..64), 3 => (m - 1) as usize / 2, 4 => m as usize - 1, 5 => usize::MAX >> r.gen_range(0..3), 6 => 1usize << r.gen_range(0..14), _ => 1usize << r.gen_range(0..(m - 1).trailing_zeros()) };
        let dim = if i < 48 { i } else { dim };
        let (t, q) = (modulus(r), modulus(r));
        if q == 1 { continue }
        let (t, q) = if t > q && r.gen_range(0..4) > 0 { (q, t) } else { (t, q) };
        if q == 1 { continue }
        let c = Cfg { n: match r.gen_range(0..3) { 0 => dim, 1 => r.gen_range(1..2000), _ => r.gen_range(1..10) }, t, q, lk: if r.gen() { LK::Binary } else { LK::Ternary }, dim,
            rk: [RK::Binary, RK::Ternary, RK::Gaussian][r.gen_range(0..3)], br: r.gen_range(1..=bits), steps: [Steps::BrMsKs, Steps::BrKsMs, Steps::BrMs][r.gen_range(0..3)],
            ks: r.gen_range(1..=bits), sig: (r.gen::<f64>() * 8.0, r.gen::<f64>() * 8.0, r.gen::<f64>() * 8.0) };
        let p = caught(|| Parameters::<C, Q>::new(c.consts::<C, Q>()));
        let mut e = json!({"n": limbs(dim as u128), "m": limbs(m as u128), "t": limbs(t as u128), "q": limbs(q as u128), "br": c.br, "accepted": 0});
        if let Ok(Ok(p)) = p {
            e["accepted"] = json!(1);
            e["given"] = given(&c, m);
            e["got"] = got(&p);
            let b = p.blind_rotation_basis();
            let (x, y): (u64, u64) = (b.basis().into(), b.mask().into());
            e["basis"] = json!([b.bits(), b.decompose_len(), limbs(x as u128), limbs(y as u128)]);
        }
        tr.ev("params", e);
    }
}

fn keys<C: LWEModulusType, Q: NTTField>(tr: &Tr, r: &mut R, name: &str, c: &Cfg, params: Parameters<C, Q>, num: usize, freq: &mut BTreeMap<String, [u64; 3]>) {
    let mut h = None;
    for i in 0..num {
        let Some(k) = tr.run("keys", || if i % 2 == 0 { KeyGen::generate_secret_key(params, &mut *r) } else { SecretKeyPack::<C, Q>::new(params, &mut *r) }) else { return };
        if h.is_none() {
            let mut x = khead(name, c, &k);
            x["sig"] = json!(0);
            tr.begin(x.clone());
            h = Some(x);
        }
        let x = khead(name, c, &k);
        let k2 = k.clone();
        let k3 = k2.clone();
        let ring = |k: &SecretKeyPack<C, Q>| pl(k.ring_secret_key().as_slice());
        let ntt = |k: &SecretKeyPack<C, Q>| pl(k.ntt_ring_secret_key().as_slice());
        let Some((native, again)) = tr.run("transform", || (pl(k.ntt_ring_secret_key().clone().into_native_polynomial().as_slice()), pl(k.ring_secret_key().clone().into_ntt_polynomial().as_slice()))) else { return };
        let m = m128::<Q>() as u64;
        tr.ev("keys", json!({"lk": format!("{:?}", c.lk), "rk": format!("{:?}", c.rk), "g": x["g"], "z": x["z"], "s": ring(&k), "ntt": ntt(&k),
            "native": native, "again": again, "copies": [json!(lsigned(k2.lwe_secret_key(), c.q)), ring(&k3), ntt(&k2)], "given": given(c, m), "got": got(k2.parameters())}));
        let mut count = |kind: String, v: &Value| {
            let e = freq.entry(kind).or_insert([0; 3]);
            for x in v.as_array().unwrap() {
                match x.as_i64().unwrap() { 0 => e[0] += 1, 1 => e[1] += 1, _ => e[2] += 1 }
            }
        };
        count(format!("{:?}", c.lk), &x["g"]);
        if !matches!(c.steps, Steps::BrMs) && c.rk != RK::Gaussian { count(format!("{:?}", c.rk), &x["z"]); }
        // every copy and object uses this key
        if i == 0 {
            let mut h2 = x.clone();
            h2["sig"] = json!(0);
            tr.begin(h2);
            let (en, de, en2, de2) = (Encryptor::new(k.clone()), Decryptor::new(k2.clone()), Encryptor::new(k3.clone()), Decryptor::new(k.clone()));
            for j in 0..24u64 {
                let msg = r.gen_range(0..c.t) as u16;
                let Some(x) = tr.run("encrypt", || match j % 5 { 0 => k.encrypt(msg, &mut *r), 1 => k2.encrypt(msg, &mut *r), 2 => k3.encrypt(msg, &mut *r), 3 => en.encrypt(msg, &mut *r), _ => en2.encrypt(msg, &mut *r) }) else { return };
                let Some((d, n)) = tr.run("decrypt", || {
                    let one = |v: u16| json!([1, limbs(v as u128)]);
                    let w = |v: C| json!([1, limbs(w64(v) as u128)]);
                    let (a, b, c, d) = (k.decrypt_with_noise::<u16>(&x), k3.decrypt_with_noise::<u16>(&x), de.decrypt_with_noise::<u16>(&x), de2.decrypt_with_noise::<u16>(&x));
                    (json!([one(k.decrypt(&x)), one(k2.decrypt(&x)), one(k3.decrypt(&x)), one(de.decrypt(&x)), one(de2.decrypt(&x)), one(a.0), one(b.0), one(c.0), one(d.0)]), json!([w(a.1), w(b.1), w(c.1), w(d.1)]))
                }) else { return };
                tr.ev("fresh", json!({"msg": limbs(msg as u128), "top": limbs(65535), "refused": 0, "x": lwc(&x), "decs": d, "noises": n}));
            }
            tr.begin(h.clone().unwrap());
        }
    }
}

pub fn run(a: &Args, tr: &Tr) {
    let r = &mut rng(a.seed, 19);
    for _ in 0..if a.thorough { 8 } else { 1 } {
        macro_rules! ps { ($($q:ident)*) => {$(
            params::<u8, $q>(tr, r, stringify!($q u8), 150);
            params::<u16, $q>(tr, r, stringify!($q u16), 150);
            params::<u32, $q>(tr, r, stringify!($q u32), 150);
            params::<u64, $q>(tr, r, stringify!($q u64), 200);
        )*} }
        ps! { B17 B41 H97 H193 H257 H7681 H15361 W97 W12289 WBIG Q17 Q132 Q50 QBIG DefaultFieldU32 DefaultQks }
        let mut f = BTreeMap::new();
        macro_rules! go { ($cost:literal $c:ident $q:ident $set:expr) => {{
            let set: Cfg = $set;
            for (lk, rk) in [(LK::Binary, RK::Binary), (LK::Binary, RK::Ternary), (LK::Ternary, RK::Binary), (LK::Ternary, RK::Ternary), (LK::Ternary, RK::Gaussian), (LK::Binary, RK::Gaussian)] {
                let sig = if $cost == 0 { [QUIET.1, 3.2, 2.5][r.gen_range(0..3)] } else { QUIET.1 };
                let set = Cfg { lk, rk, sig: (set.sig.0, sig, set.sig.2), ..set };
                // a ring key of its own is not drawn from a gaussian for these
                if rk == RK::Gaussian && !matches!(set.steps, Steps::BrKsMs) { continue }
                if $cost == 2 && r.gen() { continue }
                keys::<$c, $q>(tr, r, stringify!($c $q), &set, set.params(), 3, &mut f);
            }
        }} }
        sets!(go);
        let d = Cfg { n: 1024, t: 4, q: 1024, lk: LK::Ternary, dim: 1024, rk: RK::Ternary, br: 3, steps: Steps::BrKsMs, ks: 1, sig: (3.2, 6.4, 6.4) };
        keys::<u16, DefaultFieldU32>(tr, r, "default", &d, *DEFAULT_TERNARY_128_BITS_PARAMETERS, 2, &mut f);
        let d = Cfg { n: 512, t: 4, q: 1 << 14, br: 7, steps: Steps::BrMsKs, ks: 7, ..d };
        keys::<u16, DefaultFieldU32>(tr, r, "custom", &d, *CUSTOM_TERNARY_128_BITS_PARAMETERS, 2, &mut f);
        tr.ev("freq", json!({"counts": f.iter().map(|(k, v)| json!([k, v[0], v[1], v[2]])).collect::<Vec<_>>()}));
    }
}
