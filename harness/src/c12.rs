//! The transforms and their tables.
use algebra::transformation::{AbstractNTT, MonomialNTT, NTTTable};
use algebra::*;
use crate::fields::*;
use harness::*;
use rand::Rng;
use serde_json::json;

pub fn one<F>(a: &Args, tr: &Tr, r: &mut R, name: &str, k: u32)
where
    F: NTTField<Table = NTTTable<F>>,
    F::Value: AsFrom<u64>,
    NTTTable<F>: AbstractNTT<F> + MonomialNTT<F>,
{
    let n = 1usize << k;
    let m = m128::<F>() as u64;
    let h = head::<F>(name, k);
    let raw = |x: u64| <F::Value as AsFrom<u64>>::as_from(x);
    let tab = F::get_ntt_table(k).unwrap();
    let l = |x: F| limbs(v64(x) as u128);
    let fresh = tr.run("generate_ntt_table", || F::generate_ntt_table(k).unwrap());
    for t in [Some(&*tab), fresh.as_ref()].into_iter().flatten() {
        tr.begin(h.clone());
        let rs = |v: &[F::Root]| pl(&v.iter().map(|x| F::from_root(*x)).collect::<Vec<_>>());
        tr.ev("table", json!({"root": l(AbstractNTT::root(t)), "troot": l(t.root()), "inv": l(t.inv_root()), "ninv": l(F::from_root(t.inv_degree())),
            "logn": t.coeff_count_power(), "count": t.coeff_count(), "ord": rs(t.ordinal_root_powers()), "rp": rs(t.root_powers()), "irp": rs(t.inv_root_powers())}));
    }
    let outs = |o: Vec<Vec<F>>| o.iter().map(|v| pl(v)).collect::<Vec<_>>();
    let rounds = if n > 512 { 1 } else if a.thorough { 40 } else { 4 };
    for _ in 0..rounds {
        tr.begin(h.clone());
        // values anywhere in the documented range below q*m
        let lazy = |r: &mut R, q: u64| -> Vec<F> {
            let mode = r.gen_range(0..6);
            (0..n).map(|i| {
                let x = match mode {
                    0 => q * m - 1,
                    1 => *pick(r, &[0, 1, m - 1, m, m + 1, 2 * m - 1, 2 * m, 3 * m, 4 * m - 1]) % (q * m),
                    2 => if i % 2 == 0 { q * m - 1 } else { 0 },
                    3 => if i < n / 2 { 0 } else { q * m - 1 },
                    _ => (r.gen::<u128>() % (q as u128 * m as u128)) as u64,
                };
                F::lazy_new(raw(x))
            }).collect()
        };
        let f4 = lazy(r, 4);
        if let Some(o) = tr.run("transform_slice", || { let mut v = f4.clone(); tab.transform_slice(&mut v); vec![v] }) {
            tr.ev("fwd", json!({"a": pl(&f4), "outs": outs(o)}));
        }
        let c: Vec<F> = vecf(r, n);
        if let Some(o) = tr.run("transform", || {
            let p = Polynomial::new(c.clone());
            let o = vec![tab.transform(&p).data(), tab.transform_inplace(p.clone()).data(), p.clone().into_ntt_polynomial().data()];
            assert!(p.as_slice() == c.as_slice(), "operand changed");
            o
        }) {
            tr.ev("fwd", json!({"a": pl(&c), "outs": outs(o)}));
        }
        let f2 = lazy(r, 2);
        if let Some(o) = tr.run("inverse_transform_slice", || { let mut v = f2.clone(); tab.inverse_transform_slice(&mut v); vec![v] }) {
            tr.ev("inv", json!({"a": pl(&f2), "outs": outs(o)}));
        }
        if let Some(o) = tr.run("inverse_transform", || {
            let t = NTTPolynomial::new(c.clone());
            let o = vec![tab.inverse_transform(&t).data(), tab.inverse_transform_inplace(t.clone()).data(), t.clone().into_native_polynomial().data()];
            assert!(t.as_slice() == c.as_slice(), "operand changed");
            o
        }) {
            tr.ev("inv", json!({"a": pl(&c), "outs": outs(o)}));
        }
    }
    // monomials: every degree of small sizes, with special and arbitrary coefficients; the
    // destination starts with other contents
    let mono = |r: &mut R, d: usize, which: usize| {
        let cf = match which { 0 => F::ZERO, 1 => F::ONE, 2 => F::NEG_ONE, _ => coeff(r) };
        let dirty: Vec<F> = vecf(r, n);
        if let Some(o) = tr.run("transform_monomial", || {
            let mut v = dirty.clone();
            tab.transform_monomial(cf, d, &mut v);
            let mut o = vec![v];
            if which == 1 { let mut v = dirty.clone(); tab.transform_coeff_one_monomial(d, &mut v); o.push(v); }
            if which == 2 { let mut v = dirty.clone(); tab.transform_coeff_neg_one_monomial(d, &mut v); o.push(v); }
            o
        }) {
            tr.ev("mono", json!({"c": l(cf), "d": d, "outs": outs(o)}));
        }
    };
    tr.begin(h.clone());
    if n <= 16 {
        for d in 0..2 * n { for w in 0..4 { mono(r, d, w); } }
    } else {
        let cnt = if n > 2048 { 3 } else if n > 512 { 6 } else { 24 };
        for i in 0..cnt {
            let d = *pick(r, &[0, 1, n - 1, n, n + 1, 2 * n - 1, r.clone().gen_range(0..2 * n), r.clone().gen_range(n..2 * n)]);
            mono(r, d, i % 4);
        }
    }
}

/// Large tables: everything is computed, but only sampled places are recorded.
pub fn far<F>(a: &Args, tr: &Tr, r: &mut R, name: &str, k: u32)
where
    F: NTTField<Table = NTTTable<F>>,
    F::Value: AsFrom<u64>,
    NTTTable<F>: AbstractNTT<F> + MonomialNTT<F>,
{
    let n = 1usize << k;
    let m = m128::<F>() as u64;
    let Some(t) = tr.run("get_ntt_table", || F::get_ntt_table(k).unwrap()) else { return };
    let t = &*t;
    tr.begin(head::<F>(name, k));
    let raw = |x: u64| <F::Value as AsFrom<u64>>::as_from(x);
    let l = |x: F| limbs(v64(x) as u128);
    let high = |v: &[F]| v.iter().filter(|x| v64(**x) >= m).count();
    let place = |r: &mut R, n: usize| match r.gen_range(0..5) { 0 => r.gen_range(0..4), 1 => n - 1 - r.gen_range(0..4), 2 => n / 2 - 2 + r.gen_range(0..4), _ => r.gen_range(0..n) };
    let mut at = vec![];
    for _ in 0..30 {
        let (i, j, q) = (place(r, 2 * n), place(r, n), 1 + place(r, n) % (n - 1));
        at.push(json!(["ord", i, l(F::from_root(t.ordinal_root_powers()[i]))]));
        at.push(json!(["rp", j, l(F::from_root(t.root_powers()[j]))]));
        at.push(json!(["irp", q, l(F::from_root(t.inv_root_powers()[q]))]));
    }
    tr.ev("tableat", json!({"root": l(AbstractNTT::root(t)), "troot": l(t.root()), "inv": l(t.inv_root()), "ninv": l(F::from_root(t.inv_degree())),
        "logn": t.coeff_count_power(), "count": t.coeff_count(), "lens": [t.ordinal_root_powers().len(), t.root_powers().len(), t.inv_root_powers().len()], "at": at}));
    let spots = |r: &mut R, v: &[F]| (0..24).map(|_| { let i = place(r, n); json!([i, l(v[i])]) }).collect::<Vec<_>>();
    let sparse = |r: &mut R, q: u64| -> (Vec<F>, Vec<serde_json::Value>) {
        let mut v = vec![F::ZERO; n];
        let top = r.gen_bool(0.5);
        for _ in 0..5 { v[place(r, n)] = F::lazy_new(raw(if top { q * m - 1 } else { (r.gen::<u128>() % (q as u128 * m as u128)) as u64 })); }
        let terms = (0..n).filter(|i| v64(v[*i]) != 0).map(|i| json!([i, limbs(v64(v[i]) as u128 % m as u128)])).collect();
        (v, terms)
    };
    for _ in 0..if a.thorough { 20 } else { 2 } {
        let (v, terms) = sparse(r, 4);
        if let Some(o) = tr.run("transform_slice", || { let mut o = v.clone(); t.transform_slice(&mut o); o }) {
            tr.ev("spotf", json!({"terms": terms, "high": high(&o), "at": spots(r, &o)}));
        }
        let (v, terms) = sparse(r, 2);
        if let Some(o) = tr.run("inverse_transform_slice", || { let mut o = v.clone(); t.inverse_transform_slice(&mut o); o }) {
            tr.ev("spoti", json!({"terms": terms, "high": high(&o), "at": spots(r, &o)}));
        }
        let (d, which) = (place(r, 2 * n), r.gen_range(0..3));
        let c = match which { 0 => F::ONE, 1 => F::NEG_ONE, _ => coeff(r) };
        let mut o: Vec<F> = vecf(r, n);
        if tr.run("transform_monomial", || match which {
            0 => t.transform_coeff_one_monomial(d, &mut o),
            1 => t.transform_coeff_neg_one_monomial(d, &mut o),
            _ => t.transform_monomial(c, d, &mut o),
        }).is_some() {
            tr.ev("spotf", json!({"terms": [json!([d, l(c)])], "high": high(&o), "at": spots(r, &o)}));
        }
        // dense vectors there and back, from either end, every value as large as can be or arbitrary
        let x: Vec<F> = if r.gen() { vecf(r, n) } else { vec![F::NEG_ONE; n] };
        if let Some((f, g)) = tr.run("round trip", || {
            // the transforms take values that are not fully reduced
            let lift = |r: &mut R, q: u64| -> Vec<F> { let p = r.gen_range(0..3); x.iter().map(|c| F::lazy_new(raw(v64(*c) + m * match p { 0 => 0, 1 => q - 1, _ => r.gen_range(0..q) }))).collect() };
            let (mut f, mut g) = (lift(r, 4), lift(r, 2));
            t.transform_slice(&mut f); t.inverse_transform_slice(&mut f);
            t.inverse_transform_slice(&mut g); t.transform_slice(&mut g);
            (f, g)
        }) {
            let diff = (0..n).filter(|&i| f[i] != x[i] || g[i] != x[i]).count();
            tr.ev("round", json!({"count": f.len(), "diff": diff, "high": high(&f) + high(&g)}));
        }
        // a dense polynomial evaluated at sampled points
        if n <= 1 << 15 {
            let f4: Vec<F> = (0..n).map(|_| F::lazy_new(raw((r.gen::<u128>() % (4 * m as u128)) as u64))).collect();
            if let Some(o) = tr.run("transform_slice", || { let mut v = f4.clone(); t.transform_slice(&mut v); v }) {
                let at: Vec<_> = (0..6).map(|_| { let i = place(r, n); json!([i, l(o[i])]) }).collect();
                tr.ev("evals", json!({"x": pl(&f4), "high": high(&o), "at": at}));
            }
        }
    }
}

pub fn run(a: &Args, tr: &Tr) {
    let mut r = rng(a.seed, 12);
    macro_rules! all { ($($n:ident: $($k:literal)*;)*) => {$($( one::<$n>(a, tr, &mut r, stringify!($n), $k); )*)*} }
    all! {
        B17: 0 1 2 3; B41: 1 2; H17: 1 2 3; H97: 0 1 2 3 4; H193: 1 3 5; H257: 1 4 7; H7681: 3 8; H15361: 5 9; W17: 0 1 3; W97: 4; W257: 2 6 7; W7681: 8; W12289: 1 5 11;
        WBIG: 1 2 4 7 10 12; Q17: 1 3; Q257: 7; Q12289: 4 9; Q132: 0 1 4 10 12 13 14; Q50: 1 2 5 8; QBIG: 0 1 2 3 4 8 13; DefaultFieldU32: 6 10; DefaultQks: 5 9;
    }
    macro_rules! large { ($($n:ident: $($k:literal)*;)*) => {$($( far::<$n>(a, tr, &mut r, stringify!($n), $k); )*)*} }
    large! { DefaultFieldU32: 13 15 16 18; WBIG: 15 17; Q50: 14; QBIG: 15 16 18; }
    if a.thorough { large! { DefaultFieldU32: 14 17 19 20; WBIG: 14 16; Q50: 15; QBIG: 14 17 19; } }
}
