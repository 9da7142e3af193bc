//! Prime fields derived with the repository's macros, over every storage width.
#![allow(dead_code, unused_imports)]
use harness::*;
use rand::Rng;
use serde_json::{json, Value};
use algebra::transformation::AbstractNTT;
use algebra::{AsFrom, Field, NTTField};
use algebra::derive::{DecomposableField, FheField, Field, Prime, NTT};


macro_rules! ntt_fields { ($($n:ident $t:ident = $m:literal;)*) => {$(
    #[derive(Field, Prime, DecomposableField, FheField, NTT)]
    #[modulus = $m]
    pub struct $n($t);
)*} }
macro_rules! plain_fields { ($($n:ident $t:ident = $m:literal;)*) => {$(
    #[derive(Field, Prime, DecomposableField, FheField)]
    #[modulus = $m]
    pub struct $n($t);
)*} }

ntt_fields! {
    B17 u8 = 17;
    B41 u8 = 41;
    H17 u16 = 17;
    H97 u16 = 97;
    H193 u16 = 193;
    H257 u16 = 257;
    H7681 u16 = 7681;
    H15361 u16 = 15361;
    W17 u32 = 17;
    W97 u32 = 97;
    W257 u32 = 257;
    W7681 u32 = 7681;
    W12289 u32 = 12289;
    WBIG u32 = 1073479681;
    Q17 u64 = 17;
    Q257 u64 = 257;
    Q12289 u64 = 12289;
    Q132 u64 = 132120577;
    Q50 u64 = 1125899904679937;
    QBIG u64 = 4611686018405367809;
}
plain_fields! {
    UW u32 = 991146301;
    UQ u64 = 2912643801112034467;
    B2 u8 = 2;
    B3 u8 = 3;
    B61 u8 = 61;
    H16381 u16 = 16381;
    WTOP u32 = 1073741789;
    QTOP u64 = 4611686018427387847;
}
pub use fhe_core::{DefaultFieldU32, DefaultQks};

pub fn m128<F: algebra::Field>() -> u128 {
    let m: u64 = F::MODULUS_VALUE.into();
    m as u128
}
pub fn v64<F: algebra::Field>(x: F) -> u64 {
    x.value().into()
}

pub fn pl<F: Field>(v: &[F]) -> Value {
    json!(v.iter().map(|x| limbs(v64(*x) as u128)).collect::<Vec<_>>())
}
pub fn coeff<F: Field>(r: &mut R) -> F
where
    F::Value: AsFrom<u64>,
{
    let m = m128::<F>() as u64;
    let x = match r.gen_range(0..8) {
        0 => 0,
        1 => 1,
        2 => m - 1,
        3 => m / 2,
        _ => r.gen::<u64>() % m,
    };
    F::new(<F::Value as AsFrom<u64>>::as_from(x))
}
pub fn vecf<F: Field>(r: &mut R, n: usize) -> Vec<F>
where
    F::Value: AsFrom<u64>,
{
    let all = F::new(<F::Value as AsFrom<u64>>::as_from((m128::<F>() - 1) as u64));
    // long vectors are few: most of them are dense
    match if n > 256 && r.gen_range(0..4) > 0 { 11 } else { r.gen_range(0..14) } {
        12 | 13 => {
            // constants and monomials of coefficient 1, -1 and others, at the ends and in the middle
            let mut v = vec![F::ZERO; n];
            let at = match r.gen_range(0..5) { 0 => 0, 1 => n - 1, 2 => n / 2, _ => r.gen_range(0..n) };
            v[at] = match r.gen_range(0..3) { 0 => F::ONE, 1 => all, _ => coeff(r) };
            v
        }
        0 => vec![F::ZERO; n],
        1 => vec![all; n],
        2 => {
            let mut v = vec![F::ZERO; n];
            v[r.gen_range(0..n)] = coeff(r);
            v
        }
        _ => (0..n).map(|_| coeff(r)).collect(),
    }
}

pub fn head<F: NTTField>(name: &str, k: u32) -> Value
where
    F::Table: AbstractNTT<F>,
{
    let root = F::get_ntt_table(k).unwrap().root();
    json!({"kind": name, "m": limbs(m128::<F>()), "n": 1usize << k, "k": k, "root": limbs(v64(root) as u128)})
}

