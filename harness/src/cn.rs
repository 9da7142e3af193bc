//! The transforms behind the feature `concrete-ntt`: reduced values in, reduced values out.
use crate::fields::*;
use algebra::transformation::{AbstractNTT, MonomialNTT};
use algebra::*;
use harness::*;
use rand::Rng;
use serde_json::json;

fn one<F: NTTField>(a: &Args, tr: &Tr, r: &mut R, name: &str, k: u32)
where
    F::Value: AsFrom<u64>,
{
    let n = 1usize << k;
    let h = head::<F>(name, k);
    let tab = F::get_ntt_table(k).unwrap();
    let other = F::generate_ntt_table(k).unwrap();
    let l = |x: F| limbs(v64(x) as u128);
    let outs = |o: Vec<Vec<F>>| o.iter().map(|v| pl(v)).collect::<Vec<_>>();
    tr.begin(h.clone());
    for _ in 0..if a.thorough { 20 } else { 3 } {
        let c: Vec<F> = vecf(r, n);
        if let Some(o) = tr.run("transform", || {
            let p = Polynomial::new(c.clone());
            let (mut x, mut y) = (c.clone(), c.clone());
            tab.transform_slice(&mut x);
            other.transform_slice(&mut y);
            let o = vec![x, y, tab.transform(&p).data(), tab.transform_inplace(p.clone()).data(), p.clone().into_ntt_polynomial().data()];
            assert!(p.as_slice() == c.as_slice(), "operand changed");
            o
        }) {
            tr.ev("fwd", json!({"a": pl(&c), "outs": outs(o)}));
        }
        if let Some(o) = tr.run("inverse_transform", || {
            let t = NTTPolynomial::new(c.clone());
            let (mut x, mut y) = (c.clone(), c.clone());
            tab.inverse_transform_slice(&mut x);
            other.inverse_transform_slice(&mut y);
            let o = vec![x, y, tab.inverse_transform(&t).data(), tab.inverse_transform_inplace(t.clone()).data(), t.clone().into_native_polynomial().data()];
            assert!(t.as_slice() == c.as_slice(), "operand changed");
            o
        }) {
            tr.ev("inv", json!({"a": pl(&c), "outs": outs(o)}));
        }
        for w in 0..4 {
            let cf = match w { 0 => F::ZERO, 1 => F::ONE, 2 => F::NEG_ONE, _ => coeff(r) };
            let d = *pick(r, &[0, 1, n - 1, n, n + 1, 2 * n - 1, r.clone().gen_range(0..2 * n)]);
            let dirty: Vec<F> = vecf(r, n);
            if let Some(o) = tr.run("transform_monomial", || {
                let mut v = dirty.clone();
                tab.transform_monomial(cf, d, &mut v);
                let mut o = vec![v];
                if w == 1 { let mut v = dirty.clone(); tab.transform_coeff_one_monomial(d, &mut v); o.push(v); }
                if w == 2 { let mut v = dirty.clone(); tab.transform_coeff_neg_one_monomial(d, &mut v); o.push(v); }
                o
            }) {
                tr.ev("mono", json!({"c": l(cf), "d": d, "outs": outs(o)}));
            }
        }
    }
}

pub fn run(a: &Args, tr: &Tr) {
    let r = &mut rng(a.seed, 1012);
    macro_rules! all { ($($n:ident: $($k:literal)*;)*) => {$($( one::<$n>(a, tr, r, stringify!($n), $k); )*)*} }
    all! {
        B17: 1 3; B41: 2; H17: 3; H97: 4; H257: 5; H7681: 8;
        W17: 1 2 3; W97: 4; W257: 2 6; W7681: 8; W12289: 1 5 10; WBIG: 1 2 4 7 9; Q17: 1 3; Q257: 7; Q12289: 4 9; Q132: 1 4 10; Q50: 1 2 5 8; QBIG: 1 2 3 4 8; DefaultFieldU32: 6 10; DefaultQks: 5 9;
    }
}
