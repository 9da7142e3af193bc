//! Samplers: support, distribution, independence of coordinates, determinism, parameters.
use algebra::utils::{sample_binary_field_vec, sample_cbd_field_vec, sample_ternary_field_vec};
use algebra::{Field, FieldBinarySampler, FieldDiscreteGaussianSampler, FieldTernarySampler, FieldUniformSampler, NTTPolynomial, Polynomial};
use crate::fields::*;
use harness::*;
use lattice::{sample_binary_values, sample_ternary_values, BinarySampler, DiscreteGaussian, TernarySampler, LWE};
use rand::distributions::Distribution;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};

fn centred(v: u64, m: u128) -> i64 {
    let v = v as u128;
    if v > m / 2 { -((m - v) as i64) } else { v as i64 }
}

struct Dist {
    d: Value,
    big: bool,      // uniform over a modulus that is no plain number
    uni: bool,
}
fn dist(kind: &str) -> Dist {
    Dist { d: json!({"kind": kind}), big: false, uni: false }
}
fn gauss(mean2: i64, sigma10: i64, max10: i64) -> Dist {
    Dist { d: json!({"kind": "gauss", "mean2": mean2, "sigma10": sigma10, "max10": max10}), big: false, uni: false }
}
fn uniform(m: u128) -> Dist {
    if m < 1 << 26 { Dist { d: json!({"kind": "uniform", "m": m as u64}), big: false, uni: true } } else { Dist { d: json!({"kind": "uniformbig"}), big: true, uni: true } }
}

struct Cx<'a> {
    a: &'a Args,
    tr: &'a Tr,
}
impl Cx<'_> {
    /// Single values.
    fn values(&self, r: &mut R, name: &str, m: u128, d: &Dist, draw: &dyn Fn(&mut R) -> u64) {
        self.tr.begin(json!({"kind": "values", "sampler": name, "m": limbs(m)}));
        let k = (if d.big { 1_000_000 } else { 60_000 }) * (if self.a.thorough { 4 } else { 1 });
        let seed = r.gen::<u64>();
        let Some(v) = self.tr.run(name, || { let mut g = R::seed_from_u64(seed); (0..k).map(|_| draw(&mut g)).collect::<Vec<u64>>() }) else { return };
        if let Some(w) = self.tr.run(name, || { let mut g = R::seed_from_u64(seed); (0..1000).map(|_| draw(&mut g)).collect::<Vec<u64>>() }) {
            self.tr.ev("same", json!({"equal": w[..] == v[..1000], "len": 0, "want": 0}));
        }
        self.hist(m, d, &v);
    }
    fn hist(&self, m: u128, d: &Dist, v: &[u64]) {
        if d.big {
            let mut cells = vec![0u32; 96];
            for x in v { cells[(((*x as u128 * 32) / m).min(31) as usize) * 3 + (*x % 3) as usize] += 1; }
            let mx = *v.iter().max().unwrap();
            self.tr.ev("big", json!({"k": v.len(), "m": limbs(m), "max": limbs(mx as u128), "hi32": mx as u128 * 32 / m, "cells": cells}));
        } else {
            // dense counts; values far outside any declared support are only counted
            let c: Vec<i64> = v.iter().map(|x| if (*x as u128) >= m { i64::MAX } else if d.uni { *x as i64 } else { centred(*x, m) }).collect();
            let inside: Vec<i64> = c.iter().copied().filter(|x| d.uni && *x < 1 << 27 || x.abs() < 4000).collect();
            let (lo, hi) = (inside.iter().min().copied().unwrap_or(0), inside.iter().max().copied().unwrap_or(0));
            let mut counts = vec![0u32; (hi - lo + 1) as usize];
            for x in &inside { counts[(x - lo) as usize] += 1; }
            self.tr.ev("hist", json!({"d": d.d, "k": v.len(), "lo": lo, "outside": c.len() - inside.len(), "counts": counts}));
        }
    }
    /// Vectors: every position and every pair of positions within two consecutive vectors.
    fn vector(&self, r: &mut R, name: &str, m: u128, d: &Dist, lens: &[usize], draw: &dyn Fn(usize, &mut R) -> Vec<u64>) {
        for &len in lens {
            self.tr.begin(json!({"kind": "vector", "sampler": name, "m": limbs(m), "len": len}));
            let k = if self.a.thorough { 12000 } else { 3000 };
            let mut g = R::seed_from_u64(r.gen());
            let seed = r.gen::<u64>();
            if let Some((x, y)) = self.tr.run(name, || (draw(len, &mut R::seed_from_u64(seed)), draw(len, &mut R::seed_from_u64(seed)))) {
                self.tr.ev("same", json!({"equal": x == y, "len": x.len(), "want": len}));
            }
            let Some(vs) = self.tr.run(name, || (0..k).map(|_| { let mut v = draw(len, &mut g); v.extend(draw(len, &mut g)); v }).collect::<Vec<_>>()) else { continue };
            if len == 0 { continue; }
            if vs.iter().any(|v| v.len() != 2 * len) {
                self.tr.ev("panic", json!({"in": name, "msg": "wrong length"}));
                continue;
            }
            let nc = if d.uni { 4 } else { 3 };
            let cat = |x: u64| if d.uni { ((x as u128 * 4 / m) as usize).min(3) } else { let c = centred(x, m); if c < 0 { 0 } else if c == 0 { 1 } else { 2 } };
            let cs: Vec<Vec<u8>> = vs.iter().map(|v| v.iter().map(|x| cat(*x) as u8).collect()).collect();
            if !d.big { self.hist(m, d, &vs.iter().flatten().copied().collect::<Vec<_>>()); }
            let mut counts = vec![vec![0u32; nc]; 2 * len];
            for c in &cs { for (i, x) in c.iter().enumerate() { counts[i][*x as usize] += 1; } }
            self.tr.ev("pos", json!({"d": d.d, "k": k, "len": 2 * len, "counts": counts}));
            // all pairs for short vectors, a selection for long ones
            let n = 2 * len;
            let mut pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect();
            let limit = if self.a.thorough { 6000 } else { 1200 };
            if pairs.len() > limit {
                let near: Vec<_> = pairs.iter().copied().filter(|(i, j)| [1, 2, 7, 8, 15, 16, 31, 32, 33, len].contains(&(j - i))).collect();
                let mut p = vec![];
                for _ in 0..limit / 2 { p.push(near[r.gen_range(0..near.len())]); p.push(pairs[r.gen_range(0..pairs.len())]); }
                pairs = p;
            }
            for ch in pairs.chunks(200) {
                let rows: Vec<Vec<u32>> = ch.iter().map(|&(i, j)| {
                    let mut t = vec![0u32; nc * nc];
                    for c in &cs { t[c[i] as usize * nc + c[j] as usize] += 1; }
                    t
                }).collect();
                self.tr.ev("pairs", json!({"d": d.d, "k": k, "rows": rows}));
            }
        }
        if !name.contains("lwe") { self.long(r, name, m, d, draw); }
    }
    /// Long vectors: how often two values at a distance are equal, or cancel, for every distance
    /// within two vectors drawn one after the other, and the distribution along the vector.
    fn long(&self, r: &mut R, name: &str, m: u128, d: &Dist, draw: &dyn Fn(usize, &mut R) -> Vec<u64>) {
        let len = r.gen_range(1025..1400usize);
        self.tr.begin(json!({"kind": "long", "sampler": name, "m": limbs(m), "len": len}));
        let k = if self.a.thorough { 120 } else { 40 };
        let mut g = R::seed_from_u64(r.gen());
        let Some(vs) = self.tr.run(name, || (0..k).map(|_| { let mut v = draw(len, &mut g); v.extend(draw(len, &mut g)); v }).collect::<Vec<_>>()) else { return };
        if vs.iter().any(|v| v.len() != 2 * len) { return self.tr.ev("panic", json!({"in": name, "msg": "wrong length"})); }
        let nc = if d.uni { 4 } else { 3 };
        let block = 100;
        let mut counts = vec![vec![0u32; nc]; 2 * len / block];
        let (n, mut eq, mut ng) = (2 * len, vec![0u32; len], vec![0u32; len]);
        for v in &vs {
            let c: Vec<i32> = v.iter().map(|&x| if d.uni { ((x as u128 * 4 / m) as i32).min(3) } else { centred(x, m).clamp(-100_000, 100_000) as i32 }).collect();
            for (i, x) in c.iter().enumerate() {
                if let Some(t) = counts.get_mut(i / block) { t[if d.uni { *x as usize } else { (x.signum() + 1) as usize }] += 1; }
            }
            let mut w = c.clone();
            w.extend(&c);
            for dist in 1..=len {
                let y = &w[dist..dist + n];
                eq[dist - 1] += c.iter().zip(y).map(|(a, b)| (a == b) as u32).sum::<u32>();
                ng[dist - 1] += c.iter().zip(y).map(|(a, b)| (*a == -*b) as u32).sum::<u32>();
            }
        }
        self.tr.ev("pos", json!({"d": d.d, "k": k * block, "len": counts.len(), "counts": counts}));
        let (lo, hi) = (|v: &[u32]| *v.iter().min().unwrap(), |v: &[u32]| *v.iter().max().unwrap());
        self.tr.ev("long", json!({"d": d.d, "k": k * n, "eq": [lo(&eq), hi(&eq)], "neg": [lo(&ng), hi(&ng)]}));
    }
}

const LENS: &[usize] = &[1, 5, 16, 17, 31, 32, 33, 64, 65];

fn u<F: Field>(v: Vec<F>) -> Vec<u64> {
    v.into_iter().map(v64).collect()
}

fn field<F: Field>(c: &Cx, r: &mut R, name: &str, level: u32) {
    let m = m128::<F>();
    let n = |s: &str| format!("{name} {s}");
    c.values(r, &n("uniform"), m, &uniform(m), &|g| v64::<F>(FieldUniformSampler::new().sample(g)));
    c.values(r, &n("random"), m, &uniform(m), &|g| v64(F::random(g)));
    if level == 0 { return; }
    if m > 2 {
        c.values(r, &n("binary"), m, &dist("binary"), &|g| v64::<F>(FieldBinarySampler.sample(g)));
        c.values(r, &n("ternary"), m, &dist("ternary"), &|g| v64::<F>(FieldTernarySampler.sample(g)));
    }
    let lens = if level > 1 { LENS } else { &[33] };
    if m > 2 {
        c.vector(r, &n("binary vec"), m, &dist("binary"), lens, &|l, g| u(sample_binary_field_vec::<F, _>(l, g)));
        c.vector(r, &n("ternary vec"), m, &dist("ternary"), lens, &|l, g| u(sample_ternary_field_vec::<F, _>(l, g)));
    }
    if m > 42 {
        c.vector(r, &n("cbd vec"), m, &dist("cbd"), if level > 1 { &[1, 16, 33] } else { &[5] }, &|l, g| u(sample_cbd_field_vec::<F, _>(l, g)));
    }
    // (mean, standard deviation, bound) within the modulus
    for (mean2, s10, mx) in [(0i64, 10i64, None), (0, 32, None), (0, 80, None), (4, 20, None), (-6, 40, None), (3, 10, None), (0, 20, Some(30i64)), (0, 32, Some(50)), (0, 32, Some(110)), (-4, 40, Some(100)), (0, 5, None), (0, 0, None), (0, 0, Some(10)), (2, 0, None)] {
        let mx10 = mx.unwrap_or(6 * s10);
        if m as i128 <= 2 * (mx10 / 10 + 2 + mean2.abs()) as i128 { continue; }
        let (mean, sd) = (mean2 as f64 / 2.0, s10 as f64 / 10.0);
        let make = || match mx { None => FieldDiscreteGaussianSampler::new(mean, sd), Some(x) => FieldDiscreteGaussianSampler::new_with_max(mean, sd, x as f64 / 10.0) };
        let d = gauss(mean2, s10, mx10);
        let Ok(s) = make() else { c.tr.begin(json!({"kind": "ctor"})); c.tr.ev("panic", json!({"in": "gaussian", "msg": "refused"})); continue };
        c.tr.begin(json!({"kind": "acc"}));
        let th = |x: f64| (x * 1000.0).round() as i64;
        c.tr.ev("acc", json!({"mean": th(s.mean()), "std": th(s.std_dev()), "max": th(s.max_std_dev()), "wmean": mean2 * 500, "wstd": s10 * 100, "wmax": mx10 * 100, "cbd": s.cbd_enable()}));
        c.values(r, &n("gaussian"), m, &d, &|g| v64::<F>(s.sample(g)));
        let poly = if s.cbd_enable() { dist("cbd") } else { gauss(mean2, s10, mx10) };
        c.vector(r, &n("gaussian poly"), m, &poly, if level > 1 { &[8] } else { &[3] }, &|l, g| u(Polynomial::<F>::random_with_gaussian(l, g, s).data()));
        c.vector(r, &n("distribution poly"), m, &d, &[4], &|l, g| u(Polynomial::<F>::random_with_distribution(l, g, s).data()));
    }
}

fn words<T>(c: &Cx, r: &mut R, name: &str, moduli: &[T])
where
    T: lattice_value::V,
{
    for &q in moduli {
        let m: u128 = q.into() as u128;
        let n = |s: &str| format!("{name} {m} {s}");
        let w = |v: Vec<T>| v.into_iter().map(|x| x.into()).collect::<Vec<u64>>();
        c.values(r, &n("binary"), m, &dist("binary"), &|g| <BinarySampler as Distribution<T>>::sample(&BinarySampler, g).into());
        c.values(r, &n("ternary"), m, &dist("ternary"), &|g| TernarySampler::new(q).sample(g).into());
        c.vector(r, &n("binary vec"), m, &dist("binary"), LENS, &|l, g| w(sample_binary_values::<T, _>(l, g)));
        c.vector(r, &n("ternary vec"), m, &dist("ternary"), LENS, &|l, g| w(sample_ternary_values::<T, _>(q, l, g)));
        for (mean2, s10, mx) in [(0i64, 32i64, None), (0, 10, None), (0, 80, None), (-4, 20, Some(50i64)), (3, 10, None), (0, 0, None), (-2, 0, None)] {
            let mx10 = mx.unwrap_or(6 * s10);
            if m as i128 <= 2 * (mx10 / 10 + 2 + mean2.abs()) as i128 { continue; }
            let (mean, sd) = (mean2 as f64 / 2.0, s10 as f64 / 10.0);
            let Ok(s) = (match mx { None => DiscreteGaussian::new(q, mean, sd), Some(x) => DiscreteGaussian::new_with_max_limit(q, mean, sd, x as f64 / 10.0) }) else {
                c.tr.begin(json!({"kind": "ctor"})); c.tr.ev("panic", json!({"in": "gaussian", "msg": "refused"})); continue };
            c.tr.begin(json!({"kind": "acc"}));
            let th = |x: f64| (x * 1000.0).round() as i64;
            c.tr.ev("acc", json!({"mean": th(s.mean()), "std": th(s.std_dev()), "max": th(s.max_std_dev()), "wmean": mean2 * 500, "wstd": s10 * 100, "wmax": mx10 * 100, "cbd": false}));
            c.values(r, &n("gaussian"), m, &gauss(mean2, s10, mx10), &|g| s.sample(g).into());
            c.vector(r, &n("gaussian vec"), m, &gauss(mean2, s10, mx10), &[5], &|l, g| w(g.sample_iter(s).take(l).collect()));
        }
        // masks and errors of fresh encryptions of zero
        let s = DiscreteGaussian::new(q, 0.0, 1.0).unwrap();
        let key: Vec<T> = (0..40).map(|i| T::as_from((i % 2) as u64)).collect();
        let pm = q.to_power_of_2_modulus();
        c.vector(r, &n("lwe mask"), m, &uniform(m), &[6, 40], &|l, g| w(LWE::generate_random_zero_sample(&key[..l], q, pm, s, g).a().to_vec()));
        c.vector(r, &n("lwe error"), m, &gauss(0, 10, 60), &[2], &|l, g| (0..l).map(|_| {
            let x = LWE::generate_random_zero_sample(&key[..6], q, pm, s, g);
            let dot = (0..6).filter(|i| i % 2 == 1).fold(0u64, |t, i| t.wrapping_add(x.a()[i].into()));
            let b: u64 = x.b().into();
            (b.wrapping_sub(dot) as u128 % m) as u64
        }).collect());
    }
}
mod lattice_value {
    pub trait V: fhe_core::LWEModulusType + Into<u64> + algebra::AsFrom<u64> + algebra::AsFrom<f64> + std::ops::Sub<Output = Self> {}
    impl<T: fhe_core::LWEModulusType + Into<u64> + algebra::AsFrom<u64> + algebra::AsFrom<f64> + std::ops::Sub<Output = Self>> V for T {}
}

pub fn run(a: &Args, tr: &Tr) {
    let mut r = rng(a.seed, 17);
    let c = Cx { a, tr };
    macro_rules! fs { ($l:expr; $($n:ident)*) => {$( field::<$n>(&c, &mut r, stringify!($n), $l); )*} }
    fs!(2; H257 DefaultFieldU32);
    fs!(1; B3 B17 B61 H7681 W12289 Q50 QBIG);
    fs!(0; B2 UW UQ H16381 WBIG QTOP);
    // point-value polynomials draw the same distributions
    for len in [3usize, 8] {
        c.vector(&mut r, "ntt poly", 257, &uniform(257), &[len], &|l, g| NTTPolynomial::<W257>::random(l, g).data().into_iter().map(v64).collect());
        c.vector(&mut r, "ntt poly ternary", 257, &dist("ternary"), &[len], &|l, g| NTTPolynomial::<W257>::random_with_distribution(l, g, FieldTernarySampler).data().into_iter().map(v64).collect());
        c.vector(&mut r, "poly", 12289, &uniform(12289), &[len], &|l, g| u(Polynomial::<W12289>::random(l, g).data()));
        c.vector(&mut r, "poly binary", 12289, &dist("binary"), &[len, 33], &|l, g| u(Polynomial::<W12289>::random_with_binary(l, g).data()));
        c.vector(&mut r, "poly ternary", 12289, &dist("ternary"), &[len, 17], &|l, g| u(Polynomial::<W12289>::random_with_ternary(l, g).data()));
    }
    words::<u8>(&c, &mut r, "u8", &[128]);
    words::<u16>(&c, &mut r, "u16", &[1024, 32768]);
    words::<u32>(&c, &mut r, "u32", &[512, 1 << 30]);
    words::<u64>(&c, &mut r, "u64", &[2048, 1 << 40]);
    // parameters that must be accepted or refused
    tr.begin(json!({"kind": "ctor"}));
    let nan = f64::NAN;
    let inf = f64::INFINITY;
    for mean in [0.0, -3.5, 1e6, -0.0, nan, inf, -inf] {
        for sd in [0.0, -0.0, 1e-3, 3.2, 1e4, -1.0, -1e-9, nan, inf, -inf] {
            let base = json!({"meanfinite": mean.is_finite(), "stdfinite": sd.is_finite(), "stdneg": sd < 0.0});
            let put = |bound: &str, f: &dyn Fn() -> bool| {
                if let Some(ok) = tr.run("gaussian constructor", f) {
                    let mut v = base.clone();
                    v["bound"] = json!(bound);
                    v["ok"] = json!(ok);
                    tr.ev("ctor", v);
                }
            };
            put("default", &|| FieldDiscreteGaussianSampler::new(mean, sd).is_ok());
            put("default", &|| DiscreteGaussian::<u32>::new(1 << 20, mean, sd).is_ok());
            if !sd.is_finite() { continue; }
            for (b, mx) in [("above", sd.abs() * 2.0 + 1.0), ("equal", sd), ("below", sd - 0.5), ("nan", nan)] {
                put(b, &|| FieldDiscreteGaussianSampler::new_with_max(mean, sd, mx).is_ok());
                put(b, &|| DiscreteGaussian::<u16>::new_with_max_limit(1 << 14, mean, sd, mx).is_ok());
            }
        }
    }
}
