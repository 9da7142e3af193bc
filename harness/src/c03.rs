//! Encoding, encryption and decryption.
use crate::common::*;
use algebra::{AsFrom, AsInto, NTTField};
use fhe_core::{decode, encode, LWEModulusType, LWEMsgType, LWESecretKeyType as LK, RingSecretKeyType as RK, SecretKeyPack, Steps};
use crate::fields::*;
use harness::*;
use lattice::LWE;
use rand::Rng;
use serde_json::{json, Value};
use zkfhe::{Decryptor, Encryptor};

pub trait Msg: LWEMsgType {
    const TOP: u64;
    fn mk(x: u64) -> Self;
}
macro_rules! msg { ($($t:ty)*) => {$( impl Msg for $t { const TOP: u64 = <$t>::MAX as u64; fn mk(x: u64) -> Self { x as $t } } )*} }
msg! { u8 u16 u32 u64 }
impl Msg for bool {
    const TOP: u64 = 1;
    fn mk(x: u64) -> Self {
        x == 1
    }
}

/// a result, or a refusal
fn ok<T>(f: impl FnOnce() -> T, g: impl FnOnce(T) -> u64) -> Value {
    match caught(f) {
        Ok(x) => json!([1, limbs(g(x) as u128)]),
        Err(_) => json!([0, []]),
    }
}
fn num<M: Msg>(m: M) -> u64 {
    AsInto::<u64>::as_into(m)
}

fn codec<M: Msg, C: LWEModulusType>(tr: &Tr, r: &mut R, name: &str) {
    let max = <C as algebra::Bits>::BITS;
    for lq in 0..max {
        for lt in 0..=lq {
            if lq > 12 && lt > 3 && lt + 3 < lq && r.gen_range(0..4) > 0 { continue }
            let (t, q) = (1u64 << lt, 1u64 << lq);
            tr.begin(json!({"kind": format!("codec {name} t={t} q={q}"), "t": limbs(t as u128), "q": limbs(q as u128), "top": limbs(M::TOP as u128)}));
            let mut ms: Vec<u64> = if t <= 64 { (0..t + 3).collect() } else { (0..20).map(|_| r.gen::<u64>() % t).collect() };
            ms.extend([0, 1, t / 2, t - 1, t, t + 1, t.saturating_mul(2), M::TOP, M::TOP / 2 + 1]);
            ms.retain(|m| *m <= M::TOP);
            let outs: Vec<Value> = ms.iter().map(|m| ok(|| encode::<M, C>(M::mk(*m), t, q), w64)).collect();
            tr.ev("enctab", json!({"xs": ms.iter().map(|m| limbs(*m as u128)).collect::<Vec<_>>(), "outs": outs}));
            let mut cs: Vec<u64> = if q <= 256 { (0..q).collect() } else { (0..30).map(|_| r.gen::<u64>() % q).collect() };
            let s = q / t;
            if q > 256 {
                for m in ms.iter().take(12) {
                    for d in [0, 1, q - 1, s / 2, (s / 2 + q - 1) % q, (s / 2 + 1) % q, (q - s / 2) % q, (q - s / 2 + 1) % q] {
                        cs.push(((*m as u128 * s as u128 + d as u128) % q as u128) as u64);
                    }
                }
            }
            let outs: Vec<Value> = cs.iter().map(|c| ok(|| decode::<M, C>(C::as_from(*c), t, q), num)).collect();
            tr.ev("dectab", json!({"xs": cs.iter().map(|m| limbs(*m as u128)).collect::<Vec<_>>(), "outs": outs}));
        }
    }
}

fn through<M: Msg, C: LWEModulusType, Q: NTTField>(tr: &Tr, r: &mut R, k: &SecretKeyPack<C, Q>, en: &Encryptor<C, Q>, de: &Decryptor<C, Q>, t: u64, q: u64) {
    let k2 = k.clone();
    let dec = |x: &LWE<C>| -> Value {
        let before = lwc(x);
        let v = json!([ok(|| k.decrypt::<M>(x), num), ok(|| k2.decrypt::<M>(x), num), ok(|| de.decrypt::<M>(x), num),
            ok(|| k.decrypt_with_noise::<M>(x).0, num), ok(|| de.decrypt_with_noise::<M>(x).0, num)]);
        let n = json!([ok(|| k.decrypt_with_noise::<M>(x).1, w64), ok(|| k2.decrypt_with_noise::<M>(x).1, w64), ok(|| de.decrypt_with_noise::<M>(x).1, w64)]);
        assert_eq!(before, lwc(x));
        json!([v, n])
    };
    let mut ms: Vec<u64> = if t <= 8 { (0..t).collect() } else { vec![0, 1, t - 1, t / 2, r.gen::<u64>() % t, r.gen::<u64>() % t] };
    ms.extend([t, t + 1, M::TOP]);
    ms.retain(|m| *m <= M::TOP);
    for m in ms {
        for via in 0..3 {
            match caught(|| match via {
                0 => k.encrypt(M::mk(m), &mut *r),
                1 => k2.encrypt(M::mk(m), &mut *r),
                _ => en.encrypt(M::mk(m), &mut *r),
            }) {
                Err(_) => tr.ev("fresh", json!({"msg": limbs(m as u128), "top": limbs(M::TOP as u128), "refused": 1})),
                Ok(x) => {
                    let d = dec(&x);
                    tr.ev("fresh", json!({"msg": limbs(m as u128), "top": limbs(M::TOP as u128), "refused": 0, "x": lwc(&x), "decs": d[0], "noises": d[1]}));
                    // another error, and another mask with the same phase
                    let s = q / t;
                    let e = match r.gen_range(0..6) { 0 => s / 2, 1 => q - s / 2, 2 => (s / 2).saturating_sub(1), 3 => q - (s / 2).saturating_sub(1), _ => r.gen::<u64>() % q } % q;
                    let mut y = x.clone();
                    *y.b_mut() = C::as_from(((w64(y.b()) as u128 + e as u128) % q as u128) as u64);
                    let d = dec(&y);
                    tr.ev("pert", json!({"x": lwc(&y), "top": limbs(M::TOP as u128), "decs": d[0], "noises": d[1]}));
                }
            }
        }
    }
    for _ in 0..4 {
        let y = any_lwe::<C>(r, k.lwe_secret_key().len(), q);
        let d = dec(&y);
        tr.ev("pert", json!({"x": lwc(&y), "top": limbs(M::TOP as u128), "decs": d[0], "noises": d[1]}));
    }
}

fn keyed<C: LWEModulusType, Q: NTTField>(tr: &Tr, r: &mut R, name: &str, c: &Cfg)
where
    Q::Value: AsFrom<u64>,
{
    let Some(k) = tr.run("keys", || SecretKeyPack::<C, Q>::new(c.params(), &mut *r)) else {
        tr.begin(json!({"kind": name}));
        tr.ev("keys failed", json!({}));
        return;
    };
    let mut h = khead(name, c, &k);
    h["sig"] = json!(((c.sig.0 * c.sig.0 * 100.0) as u64).min(2_000_000_000));
    tr.begin(h);
    let (en, de) = (Encryptor::new(k.clone()), Decryptor::new(k.clone()));
    through::<bool, C, Q>(tr, r, &k, &en, &de, c.t, c.q);
    through::<u8, C, Q>(tr, r, &k, &en, &de, c.t, c.q);
    through::<u16, C, Q>(tr, r, &k, &en, &de, c.t, c.q);
    through::<u32, C, Q>(tr, r, &k, &en, &de, c.t, c.q);
    through::<u64, C, Q>(tr, r, &k, &en, &de, c.t, c.q);
    // many errors of one message
    if c.sig.0 > 1.0 {
        let xs: Vec<Value> = (0..300).map(|i| if i % 2 == 0 { lwc(&k.encrypt(0u8, &mut *r)) } else { lwc(&en.encrypt(0u8, &mut *r)) }).collect();
        tr.ev("many", json!({"xs": xs}));
    }
}

pub fn run(a: &Args, tr: &Tr) {
    let r = &mut rng(a.seed, 3);
    for _ in 0..if a.thorough { 8 } else { 1 } {
        macro_rules! cd { ($($m:ident)*) => {$(
            codec::<$m, u8>(tr, r, stringify!($m u8));
            codec::<$m, u16>(tr, r, stringify!($m u16));
            codec::<$m, u32>(tr, r, stringify!($m u32));
            codec::<$m, u64>(tr, r, stringify!($m u64));
        )*} }
        cd! { bool u8 u16 u32 u64 }
        let c = |n, t, q: u64, lk, dim, steps, s: f64, big: f64| Cfg { n, t, q, lk, dim, rk: RK::Ternary, br: 4, steps, ks: 3, sig: (s, big, big) };
        use Steps::*;
        use LK::{Binary as LB, Ternary as LT};
        keyed::<u8, W12289>(tr, r, "u8", &c(4, 4, 128, LT, 16, BrKsMs, 1e-3, 9.0));
        keyed::<u8, W12289>(tr, r, "u8 t=q", &c(3, 128, 128, LB, 16, BrKsMs, 1e-3, 3.2));
        keyed::<u8, W12289>(tr, r, "u8 noisy", &c(5, 2, 64, LT, 16, BrKsMs, 1.9, 60.0));
        keyed::<u16, DefaultFieldU32>(tr, r, "u16", &c(10, 4, 1024, LT, 64, BrKsMs, 3.2, 40.0));
        keyed::<u16, W7681>(tr, r, "u16 top", &c(1, 1, 1 << 15, LT, 16, BrMsKs, 3.2, 1e-3));
        keyed::<u16, W7681>(tr, r, "u16 wide", &c(7, 512, 1 << 15, LB, 16, BrMsKs, 5.0, 1e-3));
        keyed::<u32, Q132>(tr, r, "u32", &c(33, 256, 1 << 20, LT, 64, BrKsMs, 100.0, 3.2));
        keyed::<u32, Q132>(tr, r, "u32 top", &c(20, 1 << 16, 1 << 31, LB, 64, BrMsKs, 3.2, 300.0));
        keyed::<u64, QBIG>(tr, r, "u64 top", &c(17, 1 << 40, 1 << 63, LT, 32, BrKsMs, 3.2, 1000.0));
        keyed::<u64, QBIG>(tr, r, "u64 t=q", &c(6, 1 << 63, 1 << 63, LB, 32, BrMsKs, 1e-3, 3.2));
        keyed::<u64, Q50>(tr, r, "u64 wide noise", &c(9, 4, 1 << 40, LT, 32, BrKsMs, 1e6, 3.2));
        keyed::<u16, DefaultFieldU32>(tr, r, "one key", &c(64, 4, 1 << 10, LT, 64, BrMs, 6.4, 3.2));
        keyed::<u16, DefaultFieldU32>(tr, r, "long", &c(1024, 4, 1 << 10, LT, 1024, BrKsMs, 3.2, 6.4));
    }
}
