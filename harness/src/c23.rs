//! The transform counters (feature count_ntt).
use crate::common::*;
use crate::fields::*;
use algebra::transformation::{count, AbstractNTT};
use algebra::{NTTField, NTTPolynomial, Polynomial};
use fhe_core::{LWESecretKeyType as LK, RingSecretKeyType as RK, *};
use harness::*;
use rand::Rng;
use serde_json::{json, Value};

/// operands of any shape: zero, constant, a monomial, ones, arbitrary
fn operand<F: NTTField>(n: usize, shape: usize) -> Vec<F> {
    let mut v = vec![F::ZERO; n];
    match shape % 5 {
        0 => {}
        1 => v[0] = F::NEG_ONE,
        2 => v[(shape / 5) % n] = F::ONE,
        3 => v.fill(F::ONE),
        _ => v = Polynomial::<F>::random(n, &mut rng(shape as u64, 5)).data(),
    }
    v
}
fn fwd<F: NTTField>(k: u32, form: usize, shape: usize) {
    let n = 1usize << k;
    let t = F::get_ntt_table(k).unwrap();
    let p = Polynomial::<F>::new(operand(n, shape));
    match form {
        0 => { t.transform(&p); }
        1 => { t.transform_inplace(p); }
        2 => { let mut v = p.data(); t.transform_slice(&mut v); }
        3 => { p.into_ntt_polynomial(); }
        _ => { let _ = NTTPolynomial::from(p); }
    }
}
fn inv<F: NTTField>(k: u32, form: usize, shape: usize) {
    let n = 1usize << k;
    let t = F::get_ntt_table(k).unwrap();
    let p = NTTPolynomial::<F>::new(operand(n, shape));
    match form {
        0 => { t.inverse_transform(&p); }
        1 => { t.inverse_transform_inplace(p); }
        2 => { let mut v = p.data(); t.inverse_transform_slice(&mut v); }
        3 => { p.into_native_polynomial(); }
        _ => { let _ = Polynomial::from(p); }
    }
}
/// the i-th kind of ring
fn one(i: usize, forward: bool, form: usize, shape: usize) {
    macro_rules! f { ($f:ident $k:expr) => { if forward { fwd::<$f>($k, form, shape) } else { inv::<$f>($k, form, shape) } } }
    match i % 6 {
        0 => f!(DefaultFieldU32 4),
        1 => f!(Q132 1),
        2 => f!(W12289 5),
        3 => f!(QBIG 3),
        4 => f!(H97 2),
        _ => f!(DefaultFieldU32 7),
    }
}
fn read(mut v: Value) -> Value {
    v["fwd"] = json!(count::get_ntt_count());
    v["inv"] = json!(count::get_intt_count());
    v
}

pub fn run(a: &Args, tr: &Tr) {
    let r = &mut rng(a.seed, 23);
    let beh = behaviours(&a.inputs[0]);
    // two evaluators and operands of their own
    let c = |dim| Cfg { n: 5, t: 4, q: 64, lk: LK::Ternary, dim, rk: RK::Ternary, br: 7, steps: Steps::BrKsMs, ks: 4, sig: (1e-3, 1e-3, 1e-3) };
    let Some(evs) = tr.run("keys", || [32usize, 64].map(|dim| {
        let k = SecretKeyPack::<u16, W12289>::new(c(dim).params(), &mut *r);
        let ev = zkfhe::bfhe::Evaluator::new(&k, &mut *r);
        let x = [0, 1, 1].map(|b| k.encrypt(b as u8, &mut *r));
        (ev, x)
    })) else { tr.begin(json!({"kind": "keys", "fwd": 0, "inv": 0})); return };
    for prog in &beh {
        count::disable_count_ntt_and_intt();
        tr.begin(read(json!({"kind": "counters"})));
        for st in prog.as_array().unwrap() {
            let op = st[0].as_str().unwrap();
            let ix = |i: usize| st[i].as_u64().unwrap() as usize;
            let (base, sh) = (r.gen_range(0..6usize), r.gen_range(0..1000usize));
            let (th, f, i) = (ix(1), ix(2), ix(3));
            let par = |th: usize| std::thread::scope(|s| {
                for t in 0..th {
                    s.spawn(move || {
                        // both kinds in turn
                        for k in 0..f.max(i) {
                            if k < f { one(base + t + k, true, (t + k) % 5, sh + t + 3 * k) }
                            if k < i { one(base + t + k, false, (t + k) % 5, sh + t + 3 * k) }
                        }
                    });
                }
            });
            match op {
                "on" => { count::enable_count_ntt_and_intt(); tr.ev("on", read(json!({}))) }
                "off" => { count::disable_count_ntt_and_intt(); tr.ev("off", read(json!({}))) }
                "clrf" => { count::clear_ntt_count(); tr.ev("clrf", read(json!({}))) }
                "clri" => { count::clear_intt_count(); tr.ev("clri", read(json!({}))) }
                "fwd" | "inv" => {
                    if tr.run(op, || for j in 0..ix(2) { one(base + j, op == "fwd", ix(1), sh + 3 * j) }).is_none() { return }
                    tr.ev("work", read(json!({"f": if op == "fwd" { ix(2) } else { 0 }, "i": if op == "inv" { ix(2) } else { 0 }})));
                }
                "par" => {
                    if tr.run(op, || par(th)).is_none() { return }
                    tr.ev("work", read(json!({"f": th * f, "i": th * i})));
                }
                "beside" => {
                    let mut on = false;
                    let mut g = rng(r.gen(), 0);
                    if tr.run(op, || std::thread::scope(|s| {
                        let h = s.spawn(|| par(th));
                        while !h.is_finished() {
                            on = g.gen();
                            if on { count::enable_count_ntt_and_intt() } else { count::disable_count_ntt_and_intt() }
                            std::thread::yield_now();
                        }
                    })).is_none() { return }
                    if on { count::enable_count_ntt_and_intt() } else { count::disable_count_ntt_and_intt() }
                    tr.ev("beside", read(json!({"f": th * f, "i": th * i, "on": on})));
                }
                "gate" => {
                    let (ev, x) = &evs[th];
                    let g = r.gen_range(0..3);
                    if tr.run(op, || match g { 0 => ev.nand(&x[0], &x[1]), 1 => ev.xor(&x[1], &x[2]), _ => ev.mux(&x[0], &x[1], &x[2]) }).is_none() { return }
                    tr.ev("gate", read(json!({"g": 3 * th + g})));
                }
                _ => std::process::exit(77),
            }
        }
    }
}
