//! Parts shared by the scheme-level checks.
use algebra::{AsInto, Field};
use fhe_core::LWEModulusType;
use crate::fields::*;
use harness::*;
use lattice::LWE;
use serde_json::{json, Value};

pub fn w64<C: LWEModulusType>(x: C) -> u64 {
    AsInto::<u64>::as_into(x)
}
pub fn lwc<C: LWEModulusType>(x: &LWE<C>) -> Value {
    json!(x.a().iter().copied().chain([x.b()]).map(|v| limbs(w64(v) as u128)).collect::<Vec<_>>())
}
pub fn lw<F: Field>(x: &LWE<F>) -> Value {
    json!(x.a().iter().copied().chain([x.b()]).map(|v| limbs(v64(v) as u128)).collect::<Vec<_>>())
}

use algebra::NTTField;
use fhe_core::{ConstParameters, LWESecretKeyType as LK, Parameters, RingSecretKeyType as RK, SecretKeyPack, Steps};
use lattice::RLWE;

/// A parameter set in plain values.
#[derive(Clone, Copy)]
pub struct Cfg {
    pub n: usize,
    pub t: u64,
    pub q: u64,
    pub lk: LK,
    pub dim: usize,
    pub rk: RK,
    pub br: u32,
    pub steps: Steps,
    pub ks: u32,
    /// deviations: fresh encryptions, ring key, switching key
    pub sig: (f64, f64, f64),
}
pub const QUIET: (f64, f64, f64) = (1e-3, 1e-3, 1e-3);
pub fn steps_name(s: Steps) -> &'static str {
    match s {
        Steps::BrMsKs => "BrMsKs",
        Steps::BrKsMs => "BrKsMs",
        Steps::BrMs => "BrMs",
    }
}
impl Cfg {
    pub fn consts<C: LWEModulusType, Q: NTTField>(&self) -> ConstParameters<C, Q::Value> {
        ConstParameters {
            lwe_dimension: self.n,
            lwe_plain_modulus: C::as_from(self.t),
            lwe_cipher_modulus: C::as_from(self.q),
            lwe_noise_standard_deviation: self.sig.0,
            lwe_secret_key_type: self.lk,
            ring_dimension: self.dim,
            ring_modulus: Q::MODULUS_VALUE,
            ring_noise_standard_deviation: self.sig.1,
            ring_secret_key_type: self.rk,
            blind_rotation_basis_bits: self.br,
            steps: self.steps,
            key_switching_basis_bits: self.ks,
            key_switching_standard_deviation: self.sig.2,
        }
    }
    pub fn params<C: LWEModulusType, Q: NTTField>(&self) -> Parameters<C, Q> {
        Parameters::new(self.consts::<C, Q>()).unwrap()
    }
}
/// largest error of a ring sample and of an LWE sample with this deviation
pub fn ring_bound(sig: f64) -> u128 {
    if sig < 0.01 { 0 } else if sig == 3.2 { 21 } else { (6.0 * sig).round() as u128 }
}
pub fn lwe_bound(sig: f64) -> u128 {
    if sig < 0.01 { 0 } else { (6.0 * sig).round() as u128 }
}
/// key coefficients as -1, 0, 1; anything else as 9
pub fn signed(v: u64, m: u64) -> i64 {
    if v == 0 { 0 } else if v == 1 { 1 } else if v == m - 1 { -1 } else { 9 }
}
pub fn lsigned<C: LWEModulusType>(v: &[C], q: u64) -> Vec<i64> {
    v.iter().map(|x| signed(w64(*x), q)).collect()
}
pub fn khead<C: LWEModulusType, Q: NTTField>(name: &str, c: &Cfg, k: &SecretKeyPack<C, Q>) -> Value {
    let m = m128::<Q>() as u64;
    let ring: Vec<i64> = k.ring_secret_key().iter().map(|x| signed(v64(*x), m)).collect();
    json!({"kind": format!("{name} {} n={} q={} N={} {:?} {:?} br={} ks={}", steps_name(c.steps), c.n, c.q, c.dim, c.lk, c.rk, c.br, c.ks),
        "m": limbs(m as u128), "n": c.dim, "ln": c.n, "q": limbs(c.q as u128), "t": limbs(c.t as u128), "steps": steps_name(c.steps),
        "g": lsigned(k.lwe_secret_key(), c.q), "z": ring, "s": pl(k.ring_secret_key().as_slice()), "ternary": c.lk == LK::Ternary,
        "br": c.br, "ks": c.ks, "le": limbs(lwe_bound(c.sig.0)), "re": limbs(ring_bound(c.sig.1)),
        "ke": limbs(if matches!(c.steps, Steps::BrMsKs) { lwe_bound(c.sig.2) } else { ring_bound(c.sig.2) }), "stat": 0})
}
pub fn rl<F: NTTField>(x: &RLWE<F>) -> Value {
    json!([pl(x.a_slice()), pl(x.b_slice())])
}
/// a ciphertext with any components below the modulus
pub fn any_lwe<C: LWEModulusType>(r: &mut R, n: usize, q: u64) -> LWE<C> {
    use rand::Rng;
    let v = |r: &mut R| C::as_from(match r.gen_range(0..8) { 0 => 0, 1 => q - 1, 2 => q / 2, 3 => 1 % q, _ => r.gen::<u64>() % q });
    let a = match r.gen_range(0..8) {
        0 => vec![C::ZERO; n],
        1 => vec![C::as_from(q - 1); n],
        _ => (0..n).map(|_| v(r)).collect(),
    };
    let b = v(r);
    LWE::new(a, b)
}
/// an encryption with a chosen phase
pub fn lwe_with<C: LWEModulusType>(r: &mut R, key: &[C], q: u64, phase: u64) -> LWE<C> {
    use rand::Rng;
    let a: Vec<u64> = key.iter().map(|_| r.gen::<u64>() % q).collect();
    let mut b = phase as u128 % q as u128;
    for (x, s) in a.iter().zip(key) {
        b = (b + *x as u128 * w64(*s) as u128) % q as u128;
    }
    LWE::new(a.iter().map(|x| C::as_from(*x)).collect(), C::as_from(b as u64))
}

/// does the worst-case noise of gadget products with these digits stay far below the modulus?
pub fn room<Q: Field>(terms: usize, bits: u32, err: u128) -> bool {
    let m = m128::<Q>();
    let len = (128 - m.leading_zeros()).div_ceil(bits) as u128;
    len * terms as u128 * ((1u128 << bits) - 1) * err * 16 < m
}
