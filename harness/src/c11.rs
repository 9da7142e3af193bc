//! Polynomials and their point-value forms.
use algebra::*;
use crate::fields::*;
use harness::*;
use num_traits::Inv;
use rand::Rng;
use serde_json::{json, Value};

type P<F> = Polynomial<F>;
type T<F> = NTTPolynomial<F>;

macro_rules! asg {
    ($x:expr, |$t:ident| $e:expr) => {{
        let mut $t = $x;
        $e;
        $t
    }};
}

fn junk<F: Field>(r: &mut R, n: usize) -> Vec<F>
where
    F::Value: AsFrom<u64>,
{
    (0..n).map(|_| coeff(r)).collect()
}

fn forms<F: NTTField>(tr: &Tr, r: &mut R, n: usize)
where
    F::Value: AsFrom<u64>,
{
    let (av, bv, cv): (Vec<F>, Vec<F>, Vec<F>) = (vecf(r, n), vecf(r, n), vecf(r, n));
    let s: F = coeff(r);
    let jv: Vec<F> = junk(r, n);
    let (a, b, c) = (P::new(av.clone()), P::from_slice(&bv), P::new(cv.clone()));
    let (ta, tb, tc) = (T::new(av.clone()), T::from_slice(&bv), T::new(cv.clone()));
    let j = || P::new(jv.clone());
    let tj = || T::new(jv.clone());
    let none: Vec<F> = vec![];
    let ev = |f: &str, x: &[F], y: &[F], z: &[F], g: &dyn Fn() -> Vec<Vec<F>>| {
        if let Some(o) = tr.run(f, g) {
            tr.ev("call", json!({"f": f, "a": pl(x), "b": pl(y), "c": pl(z), "outs": o.iter().map(|v| pl(v)).collect::<Vec<_>>()}));
        }
    };
    // ---- polynomials
    ev("add", &av, &bv, &none, &|| {
        [a.clone() + b.clone(), a.clone() + &b, &a + b.clone(), &a + &b, asg!(a.clone(), |t| t += b.clone()), asg!(a.clone(), |t| t += &b),
         asg!(j(), |t| a.add_inplace(&b, &mut t))].map(P::data).to_vec()
    });
    ev("sub", &av, &bv, &none, &|| {
        [a.clone() - b.clone(), a.clone() - &b, &a - b.clone(), &a - &b, asg!(a.clone(), |t| t -= b.clone()), asg!(a.clone(), |t| t -= &b),
         asg!(j(), |t| a.sub_inplace(&b, &mut t))].map(P::data).to_vec()
    });
    ev("neg", &av, &none, &none, &|| [-a.clone(), -&a, asg!(a.clone(), |t| t.neg_assign())].map(P::data).to_vec());
    ev("scale", &av, &none, &[s], &|| [a.mul_scalar(s), asg!(a.clone(), |t| t.mul_scalar_assign(s))].map(P::data).to_vec());
    ev("mul", &av, &bv, &none, &|| {
        [a.clone() * b.clone(), a.clone() * &b, &a * b.clone(), &a * &b, asg!(a.clone(), |t| t *= b.clone()), asg!(a.clone(), |t| t *= &b)].map(P::data).to_vec()
    });
    ev("eval", &av, &none, &[s], &|| vec![vec![a.evaluate(s)]].into_iter().collect());
    // ---- point values
    ev("add", &av, &bv, &none, &|| {
        [ta.clone() + tb.clone(), ta.clone() + &tb, &ta + tb.clone(), &ta + &tb, asg!(ta.clone(), |t| t += tb.clone()), asg!(ta.clone(), |t| t += &tb),
         asg!(tj(), |t| ta.add_inplace(&tb, &mut t))].map(T::data).to_vec()
    });
    ev("sub", &av, &bv, &none, &|| {
        [ta.clone() - tb.clone(), ta.clone() - &tb, &ta - tb.clone(), &ta - &tb, asg!(ta.clone(), |t| t -= tb.clone()), asg!(ta.clone(), |t| t -= &tb),
         asg!(tj(), |t| ta.sub_inplace(&tb, &mut t))].map(T::data).to_vec()
    });
    ev("neg", &av, &none, &none, &|| [-ta.clone(), -&ta, asg!(ta.clone(), |t| t.neg_assign())].map(T::data).to_vec());
    ev("scale", &av, &none, &[s], &|| [ta.mul_scalar(s), asg!(ta.clone(), |t| t.mul_scalar_assign(s))].map(T::data).to_vec());
    ev("had", &av, &bv, &none, &|| {
        [ta.clone() * tb.clone(), ta.clone() * &tb, &ta * tb.clone(), &ta * &tb, asg!(ta.clone(), |t| t *= tb.clone()), asg!(ta.clone(), |t| t *= &tb),
         asg!(tj(), |t| ta.mul_inplace(&tb, &mut t))].map(T::data).to_vec()
    });
    ev("fma", &av, &bv, &cv, &|| {
        [asg!(tc.clone(), |t| ntt_add_mul_assign(&mut t, &ta, &tb)), asg!(tj(), |t| ntt_add_mul_inplace(&tc, &ta, &tb, &mut t))].map(T::data).to_vec()
    });
    ev("fmalazy", &av, &bv, &cv, &|| vec![asg!(tc.clone(), |t| ntt_add_mul_assign_fast(&mut t, &ta, &tb)).data()]);
    // a longer lazy accumulation, normalised by the conversion back to a polynomial
    let m = r.gen_range(2..6usize);
    if let Some((lazy, back)) = tr.run("lazy sum", || {
        let mut t = tc.clone();
        for _ in 0..m { ntt_add_mul_assign_fast(&mut t, &ta, &tb); }
        (t.clone().data(), t.into_native_polynomial().data())
    }) {
        let sum = (0..m).fold(tc.clone(), |x, _| x + &ta * &tb).data();
        ev("fmalazy", &sum, &vec![F::ZERO; n], &sum, &|| vec![lazy.clone()]);
        ev("intt", &sum, &none, &none, &|| vec![back.clone()]);
    }
    // ---- conversions and mixed products
    ev("ntt", &av, &none, &none, &|| [a.clone().into_ntt_polynomial(), T::from(a.clone())].map(T::data).to_vec());
    ev("intt", &av, &none, &none, &|| [ta.clone().into_native_polynomial(), P::from(ta.clone())].map(P::data).to_vec());
    ev("pxt", &av, &bv, &none, &|| {
        [a.clone() * tb.clone(), a.clone() * &tb, &a * tb.clone(), &a * &tb, asg!(a.clone(), |t| t *= tb.clone()), asg!(a.clone(), |t| t *= &tb)].map(P::data).to_vec()
    });
    ev("txp", &av, &bv, &none, &|| {
        [ta.clone() * b.clone(), ta.clone() * &b, &ta * b.clone(), &ta * &b, asg!(ta.clone(), |t| t *= b.clone()), asg!(ta.clone(), |t| t *= &b)].map(T::data).to_vec()
    });
    let nz: Vec<F> = av.iter().map(|x| if x.is_zero() { F::ONE } else { *x }).collect();
    let tnz = T::new(nz.clone());
    ev("tinv", &nz, &none, &none, &|| [tnz.clone().inv(), (&tnz).inv()].map(T::data).to_vec());
    if let Some(pz) = tr.run("into_native_polynomial", || tnz.clone().into_native_polynomial()) {
        ev("inv", pz.as_slice(), &none, &none, &|| [pz.clone().inv(), (&pz).inv()].map(P::data).to_vec());
    }
    // operands taken by reference stay as they were
    for (v, o) in [(&av, [a.as_slice(), ta.as_slice()]), (&bv, [b.as_slice(), tb.as_slice()]), (&cv, [c.as_slice(), tc.as_slice()])] {
        ev("id", v, &none, &none, &|| o.iter().map(|x| x.to_vec()).collect());
    }
    // ---- access
    ev("zero", &none, &none, &none, &|| {
        vec![P::<F>::zero(n).data(), T::<F>::zero(n).data(), asg!(a.clone(), |t| t.set_zero()).data(), asg!(ta.clone(), |t| t.set_zero()).data()]
    });
    ev("id", &av, &none, &none, &|| {
        let mut k: Vec<F> = vec![];
        for i in 0..n { k.push(a[i]); }
        let mut kt: Vec<F> = vec![];
        for i in 0..n { kt.push(ta[i]); }
        vec![k, kt, a.as_slice().to_vec(), ta.as_slice().to_vec(), a.iter().copied().collect(), ta.iter().copied().collect(), a.copied_iter().collect(), ta.copied_iter().collect(),
            asg!(j(), |t| t.copy_from(&a)).data(), asg!(tj(), |t| t.copy_from(&ta)).data(), asg!(a.clone(), |t| t.iter_mut().for_each(|x| *x = *x)).data(),
            asg!(ta.clone(), |t| t.iter_mut().for_each(|x| *x = *x)).data(), asg!(a.clone(), |t| t.data_mut().iter_mut().for_each(|_| ())).data(), asg!(ta.clone(), |t| t.data_mut().iter_mut().for_each(|_| ())).data(),
            a.clone().into_iter().collect(), ta.clone().into_iter().collect(), (&a).into_iter().copied().collect(), (&ta).into_iter().copied().collect(),
            asg!(j(), |t| t.as_mut_slice().copy_from_slice(a.as_slice())).data(), asg!(tj(), |t| t.as_mut_slice().copy_from_slice(ta.as_slice())).data(), a.clone().data(), ta.clone().data()]
    });
    let len = *pick(r, &[0, 1, n / 2, n - 1, n, n + 1, 2 * n]);
    if let Some(o) = tr.run("resize", || {
        vec![asg!(a.clone(), |t| t.resize(len, s)).data(), asg!(ta.clone(), |t| t.resize(len, s)).data(), asg!(a.clone(), |t| t.resize_with(len, || s)).data(), asg!(ta.clone(), |t| t.resize_with(len, || s)).data()]
    }) {
        tr.ev("call", json!({"f": "resize", "a": pl(&av), "b": pl(&none), "c": pl(&[s]), "len": len, "outs": o.iter().map(|v| pl(v)).collect::<Vec<_>>()}));
    }
    let at = r.gen_range(0..n);
    if let Some(o) = tr.run("index_mut", || vec![asg!(a.clone(), |t| t[at] = s).data(), asg!(ta.clone(), |t| t[at] = s).data()]) {
        tr.ev("call", json!({"f": "set", "a": pl(&av), "b": pl(&none), "c": pl(&[s]), "len": at, "outs": o.iter().map(|v| pl(v)).collect::<Vec<_>>()}));
    }
    let mut sparse = vec![F::ZERO; n];
    if r.gen_bool(0.6) { sparse[*pick(r, &[0, n - 1, n / 2])] = F::ONE; }
    // one value, or two that cancel
    let mut one = vec![F::ZERO; n];
    one[r.gen_range(0..n)] = coeff(r);
    let mut two = vec![F::ZERO; n];
    let (i, x) = (r.gen_range(0..n), coeff::<F>(r));
    two[i] += x;
    two[r.gen_range(0..n)] -= x;
    for v in [&av, &sparse, &one, &two] {
        let (x, y) = (P::new(v.clone()), T::new(v.clone()));
        if let Some(z) = tr.run("is_zero", || [(x.is_zero(), x.coeff_count()), (y.is_zero(), y.coeff_count())]) {
            for (z, len) in z { tr.ev("iszero", json!({"a": pl(v), "z": z, "len": len})); }
        }
    }
}

fn program<F: NTTField>(tr: &Tr, r: &mut R, head: Value, n: usize, beh: &Value)
where
    F::Value: AsFrom<u64>,
{
    let mut p: Vec<P<F>> = (0..3).map(|_| P::new(vecf(r, n))).collect();
    let mut t: Vec<T<F>> = (0..3).map(|_| T::new(vecf(r, n))).collect();
    let ps = |p: &[P<F>]| json!(p.iter().map(|x| pl(x.as_slice())).collect::<Vec<_>>());
    let ts = |t: &[T<F>]| json!(t.iter().map(|x| pl(x.as_slice())).collect::<Vec<_>>());
    let mut h = head;
    h["p"] = ps(&p);
    h["t"] = ts(&t);
    tr.begin(h);
    for s in beh.as_array().unwrap() {
        let op = s[0].as_str().unwrap();
        let g = |i: usize| s[i].as_u64().unwrap() as usize;
        let (d, a, b, f) = (g(1), g(2), g(3), g(4));
        let k: F = coeff(r);
        let at = r.gen_range(0..=n);
        // binary operations: by value, by reference, assigning, destination writing
        macro_rules! bin { ($v:ident, $o:tt, $oa:tt, $ip:ident) => {{
            let (x, y) = ($v[a].clone(), $v[b].clone());
            match f {
                0 => $v[d] = x $o y,
                1 => $v[d] = &$v[a] $o &$v[b],
                2 => { if d != a { $v[d].copy_from(&x); } $v[d] $oa &y; }
                3 => { if d != a { $v[d] = x; } $v[d] $oa y; }
                _ => { if d != a && d != b { let mut z = std::mem::replace(&mut $v[d], x.clone()); $v[a].$ip(&$v[b], &mut z); $v[d] = z; }
                       else { let mut z = $v[d].clone(); x.$ip(&y, &mut z); $v[d] = z; } }
            }
        }} }
        let ok = tr.run(op, || match op {
            "padd" => bin!(p, +, +=, add_inplace),
            "psub" => bin!(p, -, -=, sub_inplace),
            "pmul" => match f {
                0 => p[d] = p[a].clone() * p[b].clone(),
                1 => p[d] = &p[a] * &p[b],
                2 => p[d] = p[a].clone() * &p[b],
                3 => p[d] = &p[a] * p[b].clone(),
                _ => { let (x, y) = (p[a].clone(), p[b].clone()); p[d] = x; p[d] *= y; }
            },
            "pneg" => match f { 0 => p[d] = -p[a].clone(), 1 => p[d] = -&p[a], _ => { let x = p[a].clone(); p[d] = x; p[d].neg_assign() } },
            "pscale" => match f { 0 | 1 => p[d] = p[a].mul_scalar(k), _ => { let x = p[a].clone(); p[d] = x; p[d].mul_scalar_assign(k) } },
            "pcopy" => { let x = p[a].clone(); p[d].copy_from(&x) }
            "pzero" => if f < 2 { p[d].set_zero() } else { p[d] = P::zero(n) },
            "presize" => { let mut x = p[a].clone(); x.resize(at, F::ONE); x.resize(n, k); p[d] = x }
            "tadd" => bin!(t, +, +=, add_inplace),
            "tsub" => bin!(t, -, -=, sub_inplace),
            "tmul" => bin!(t, *, *=, mul_inplace),
            "tneg" => match f { 0 => t[d] = -t[a].clone(), 1 => t[d] = -&t[a], _ => { let x = t[a].clone(); t[d] = x; t[d].neg_assign() } },
            "tscale" => match f { 0 | 1 => t[d] = t[a].mul_scalar(k), _ => { let x = t[a].clone(); t[d] = x; t[d].mul_scalar_assign(k) } },
            "tcopy" => { let x = t[a].clone(); t[d].copy_from(&x) }
            "tzero" => if f < 2 { t[d].set_zero() } else { t[d] = T::zero(n) },
            "tfma" => { let (x, y) = (t[a].clone(), t[b].clone()); ntt_add_mul_assign(&mut t[d], &x, &y) }
            "tfmaf" => { let (x, y) = (t[a].clone(), t[b].clone()); ntt_add_mul_assign_fast(&mut t[d], &x, &y) }
            "tfmai" => { let (x, y) = (t[a].clone(), t[b].clone()); ntt_add_mul_inplace(&x, &y, &x, &mut t[d]) }
            "ptot" => if f < 2 { t[d] = p[a].clone().into_ntt_polynomial() } else { t[d] = T::from(p[a].clone()) },
            "ttop" => if f < 2 { p[d] = t[a].clone().into_native_polynomial() } else { p[d] = P::from(t[a].clone()) },
            "pmulT" => match f { 0 => p[d] = p[a].clone() * t[b].clone(), 1 => p[d] = &p[a] * &t[b], 2 => p[d] = p[a].clone() * &t[b], _ => { let x = p[a].clone(); p[d] = x; p[d] *= &t[b] } },
            "tmulP" => match f { 0 => t[d] = t[a].clone() * p[b].clone(), 1 => t[d] = &t[a] * &p[b], 2 => t[d] = t[a].clone() * &p[b], _ => { let x = t[a].clone(); t[d] = x; t[d] *= &p[b] } },
            _ => std::process::exit(77),
        });
        if ok.is_none() { return; }
        tr.ev("step", json!({"f": op, "d": d, "a": a, "b": b, "s": limbs(v64(k) as u128), "at": at, "p": ps(&p), "t": ts(&t)}));
    }
}

pub fn run(a: &Args, tr: &Tr) {
    let mut r = rng(a.seed, 11);
    let beh = behaviours(&a.inputs[0]);
    let mut bi = beh.iter().cycle();
    // (a quarter of it over the other implementation of the transforms)
    let rounds = if a.sub != "C11" { 3 } else if a.thorough { 60 } else { 12 };
    macro_rules! all { ($($n:ident: $($k:literal)*;)*) => {$($(
        {
            let n = 1usize << $k;
            // (the other implementation has no transforms of a single point)
            if n > 1 || a.sub == "C11" {
            let cnt = (if n > 64 { 1 } else { rounds });
            let h = head::<$n>(stringify!($n), $k);
            for _ in 0..cnt { tr.begin(h.clone()); forms::<$n>(tr, &mut r, n); }
            if n <= 16 { for _ in 0..(if a.sub != "C11" { 1 } else if a.thorough { 16 } else { 2 }) { program::<$n>(tr, &mut r, h.clone(), n, bi.next().unwrap()); } }
            }
        }
    )*)*} }
    all! {
        B17: 0 1 2 3; B41: 1 2; H17: 1 3; H97: 0 1 4; H193: 2 5; H257: 3 7; H7681: 4 8; H15361: 4 9; W17: 0 1 2; W97: 3; W257: 5; W7681: 6; W12289: 2 4 11;
        WBIG: 1 3 6 10; Q17: 2; Q257: 4; Q12289: 3 8; Q132: 1 4 10; Q50: 1 3 6; QBIG: 0 1 2 4 7; DefaultFieldU32: 4 10; DefaultQks: 3 9;
    }
}
