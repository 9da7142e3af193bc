//! RLWE ciphertexts and sample extraction.
use algebra::transformation::AbstractNTT;
use algebra::{AsFrom, FieldDiscreteGaussianSampler, NTTField, NTTPolynomial, Polynomial};
use crate::fields::*;
use harness::*;
use lattice::{LWE, NTTRLWE, RLWE};
use rand::Rng;
use serde_json::{json, Value};

type P<F> = Polynomial<F>;
type T<F> = NTTPolynomial<F>;

pub fn rl<F: NTTField>(x: &RLWE<F>) -> Value {
    json!([pl(x.a_slice()), pl(x.b_slice())])
}
pub fn tl<F: NTTField>(x: &NTTRLWE<F>) -> Value {
    json!([pl(x.a_slice()), pl(x.b_slice())])
}
fn ll<F: NTTField>(x: &LWE<F>) -> Value {
    pl(&x.a().iter().copied().chain([x.b()]).collect::<Vec<_>>())
}
pub fn rlwe<F: NTTField>(r: &mut R, n: usize) -> RLWE<F>
where
    F::Value: AsFrom<u64>,
{
    RLWE::new(P::new(vecf(r, n)), P::new(vecf(r, n)))
}
pub fn trlwe<F: NTTField>(r: &mut R, n: usize) -> NTTRLWE<F>
where
    F::Value: AsFrom<u64>,
{
    NTTRLWE::new(T::new(vecf(r, n)), T::new(vecf(r, n)))
}
pub fn key<F: NTTField>(r: &mut R, n: usize) -> Vec<F> {
    let bin = r.gen::<bool>();
    (0..n).map(|_| match r.gen_range(0..3) { 0 => F::ZERO, 1 => F::ONE, _ => if bin { F::ZERO } else { F::NEG_ONE } }).collect()
}

macro_rules! asg {
    ($x:expr, |$t:ident| $e:expr) => {{
        let mut $t = $x.clone();
        $e;
        $t
    }};
}
fn rs<F: NTTField>(v: Vec<RLWE<F>>) -> Vec<Value> {
    v.iter().map(rl).collect()
}
fn ts<F: NTTField>(v: Vec<NTTRLWE<F>>) -> Vec<Value> {
    v.iter().map(tl).collect()
}

fn forms<F: NTTField>(tr: &Tr, r: &mut R, n: usize)
where
    F::Value: AsFrom<u64>,
{
    let (x, y): (RLWE<F>, RLWE<F>) = (rlwe(r, n), rlwe(r, n));
    let (u, v): (NTTRLWE<F>, NTTRLWE<F>) = (trlwe(r, n), trlwe(r, n));
    let (x0, y0, u0, v0) = (rl(&x), rl(&y), tl(&u), tl(&v));
    let j: RLWE<F> = rlwe(r, n);
    let tj: NTTRLWE<F> = trlwe(r, n);
    let p = T::<F>::new(vecf(r, n));
    let none = json!([]);
    let ev = |f: &str, x: &Value, y: &Value, d: usize, g: &dyn Fn() -> Vec<Value>| {
        if let Some(o) = tr.run(f, g) {
            tr.ev("rcall", json!({"f": f, "x": x, "y": y, "p": pl(p.as_slice()), "d": d, "outs": o}));
        }
    };
    ev("add", &x0, &y0, 0, &|| rs(vec![x.add_element_wise_ref(&y), x.clone().add_element_wise(&y), asg!(x, |t| t.add_assign_element_wise(&y)), asg!(j, |t| x.add_inplace(&y, &mut t))]));
    ev("sub", &x0, &y0, 0, &|| rs(vec![x.sub_element_wise_ref(&y), x.clone().sub_element_wise(&y), asg!(x, |t| t.sub_assign_element_wise(&y)), asg!(j, |t| x.sub_inplace(&y, &mut t))]));
    ev("tadd", &u0, &v0, 0, &|| ts(vec![u.add_element_wise_ref(&v), u.clone().add_element_wise(&v), asg!(u, |t| t.add_element_wise_assign(&v)), asg!(tj, |t| u.add_inplace(&v, &mut t))]));
    ev("tsub", &u0, &v0, 0, &|| ts(vec![u.sub_element_wise_ref(&v), u.clone().sub_element_wise(&v), asg!(u, |t| t.sub_element_wise_assign(&v)), asg!(tj, |t| u.sub_inplace(&v, &mut t))]));
    ev("tmulp", &x0, &none, 0, &|| ts(vec![asg!(tj, |t| x.mul_ntt_polynomial_inplace(&p, &mut t))]));
    ev("tmul", &u0, &none, 0, &|| ts(vec![asg!(u, |t| t.mul_ntt_polynomial_assign(&p)), asg!(tj, |t| u.mul_ntt_polynomial_inplace(&p, &mut t))]));
    ev("tfma", &u0, &v0, 0, &|| ts(vec![asg!(u, |t| t.add_ntt_rlwe_mul_ntt_polynomial_assign(&v, &p)), asg!(tj, |t| u.add_ntt_rlwe_mul_ntt_polynomial_inplace(&v, &p, &mut t))]));
    if let Some(lazy) = tr.run("fma fast", || asg!(u, |t| t.add_ntt_rlwe_mul_ntt_polynomial_assign_fast(&v, &p))) {
        tr.ev("rlazy", json!({"x": u0, "y": v0, "p": pl(p.as_slice()), "outs": [tl(&lazy)]}));
        if let Some(o) = tr.run("inverse", || rs(vec![asg!(j, |t| lazy.inverse_transform_inplace(&mut t)), RLWE::from(lazy.clone())])) {
            tr.ev("rinv", json!({"x": tl(&lazy), "outs": o}));
        }
    }
    if let Some(o) = tr.run("inverse", || rs(vec![asg!(j, |t| u.inverse_transform_inplace(&mut t)), RLWE::from(u.clone()), RLWE::from((u.a().clone(), u.b().clone()))])) {
        tr.ev("rinv", json!({"x": u0, "outs": o}));
    }
    ev("ton", &x0, &none, 0, &|| ts(vec![NTTRLWE::from(x.clone()), NTTRLWE::from((x.a().clone(), x.b().clone()))]));
    // every rotation for small rings
    let ds: Vec<usize> = if n <= 8 { (0..=2 * n).collect() } else { vec![0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n, r.gen_range(0..n), r.gen_range(n..2 * n)] };
    for d in ds {
        ev("shiftsub", &x0, &none, d, &|| rs(vec![asg!(j, |t| x.mul_monic_monomial_sub_one_inplace(n, d, &mut t)), asg!(y, |t| x.mul_monic_monomial_sub_one_inplace(n, d, &mut t))]));
        ev("shiftadd", &x0, &y0, d, &|| rs(vec![asg!(x, |t| t.add_assign_rhs_mul_monic_monomial(&y, n, d))]));
    }
    ev("zero", &none, &none, 0, &|| vec![rl(&RLWE::<F>::zero(n)), tl(&NTTRLWE::<F>::zero(n)), rl(&asg!(x, |t| t.set_zero())), tl(&asg!(u, |t| t.set_zero()))]);
    ev("id", &x0, &none, 0, &|| {
        let mut o = rs(vec![RLWE::from_ref(x.a(), x.b()), RLWE::from((x.a().clone(), x.b().clone())), asg!(j, |t| { t.a_mut().copy_from(x.a()); t.b_mut().copy_from(x.b()); }),
            asg!(j, |t| { t.a_mut_slice().copy_from_slice(x.a_slice()); t.b_mut_slice().copy_from_slice(x.b_slice()); }),
            asg!(j, |t| { let (a, b) = t.a_b_mut(); a.copy_from(x.a()); b.copy_from(x.b()); }), asg!(j, |t| { let (a, b) = t.a_b_mut_slices(); a.copy_from_slice(x.a_slice()); b.copy_from_slice(x.b_slice()); }), x.clone()]);
        o.push(json!([pl(x.a().as_slice()), pl(x.b().as_slice())]));
        assert!(x.dimension() == n);
        o
    });
    ev("id", &u0, &none, 0, &|| {
        let mut o = ts(vec![NTTRLWE::from_ref(u.a(), u.b()), asg!(tj, |t| { t.a_mut().copy_from(u.a()); t.b_mut().copy_from(u.b()); }),
            asg!(tj, |t| { t.a_mut_slice().copy_from_slice(u.a_slice()); t.b_mut_slice().copy_from_slice(u.b_slice()); }),
            asg!(tj, |t| { let (a, b) = t.a_b_mut(); a.copy_from(u.a()); b.copy_from(u.b()); }), asg!(tj, |t| { let (a, b) = t.a_b_mut_slices(); a.copy_from_slice(u.a_slice()); b.copy_from_slice(u.b_slice()); }), u.clone()]);
        o.push(json!([pl(u.a().as_slice()), pl(u.b().as_slice())]));
        assert!(u.dimension() == n);
        o
    });
    ev("id", &y0, &none, 0, &|| vec![rl(&y)]);
    ev("id", &v0, &none, 0, &|| vec![tl(&v)]);
    // ---- extraction
    for d in [n, 1, r.gen_range(1..=n)] {
        ev("extract", &x0, &none, d, &|| vec![ll(&x.clone().extract_partial_lwe_locally(d))]);
        ev("extractrev", &x0, &none, d, &|| vec![ll(&x.clone().extract_partial_lwe_reverse_locally(d))]);
    }
    ev("extract", &x0, &none, n, &|| vec![ll(&x.extract_lwe()), ll(&x.clone().extract_lwe_locally())]);
    ev("extractrev", &x0, &none, n, &|| vec![ll(&x.clone().extract_lwe_reverse_locally())]);
    let d = r.gen_range(1..=n);
    if let Some((a, b, c, e)) = tr.run("extract", || {
        let c = |i: usize| x.clone().extract_partial_lwe_locally(i);
        let e = |i: usize| x.clone().extract_partial_lwe_reverse_locally(i);
        (vec![ll(&x.extract_lwe()), ll(&x.clone().extract_lwe_locally()), ll(&c(n))], vec![ll(&x.clone().extract_lwe_reverse_locally()), ll(&e(n))], vec![ll(&c(d))], vec![ll(&e(d))])
    }) {
        tr.ev("rext", json!({"x": x0, "d": d, "outs": a, "revs": b, "parts": c, "rparts": e}));
    }
}

fn samples<F: NTTField>(tr: &Tr, r: &mut R, n: usize, s: &[F])
where
    F::Value: AsFrom<u64>,
{
    let Some(k) = tr.run("into_ntt_polynomial", || P::new(s.to_vec()).into_ntt_polynomial()) else { return };
    for (dev, bound) in [(1e-3, 0u128), (2.0, 12), (3.2, 21)] {
        if m128::<F>() <= 4 * bound || n < 8 && m128::<F>() < 1 << 20 { continue; }
        let e = FieldDiscreteGaussianSampler::new(0.0, dev).unwrap();
        let v: F = coeff(r);
        if let Some((z, w)) = tr.run("samples", || {
            let mut z = vec![];
            for _ in 0..2 { z.push(rl(&RLWE::<F>::generate_random_zero_sample(&k, e, &mut *r))); z.push(rl(&RLWE::from(NTTRLWE::<F>::generate_random_zero_sample(&k, e, &mut *r)))); }
            let w: Vec<_> = (0..2).map(|_| rl(&RLWE::from(NTTRLWE::<F>::generate_random_value_sample(&k, v, e, &mut *r)))).collect();
            (z, w)
        }) {
            let mut c = vec![F::ZERO; n];
            tr.ev("rzero", json!({"outs": z, "msg": pl(&c), "bound": limbs(bound)}));
            c[0] = v;
            tr.ev("rzero", json!({"outs": w, "msg": pl(&c), "bound": limbs(bound)}));
        }
    }
}

fn program<F: NTTField>(tr: &Tr, r: &mut R, head: &Value, n: usize, beh: &Value)
where
    F::Value: AsFrom<u64>,
{
    let mut x: Vec<RLWE<F>> = (0..3).map(|_| rlwe(r, n)).collect();
    let mut t: Vec<NTTRLWE<F>> = (0..3).map(|_| trlwe(r, n)).collect();
    let mut h = head.clone();
    h["r"] = json!(x.iter().map(rl).collect::<Vec<_>>());
    h["t"] = json!(t.iter().map(tl).collect::<Vec<_>>());
    tr.begin(h);
    for st in beh.as_array().unwrap() {
        let op = st[0].as_str().unwrap();
        let g = |i: usize| st[i].as_u64().unwrap() as usize;
        let (d, a, b, f) = (g(1), g(2), g(3), g(4));
        let e = match f { 0 => 0, 1 => n, 2 => 2 * n, _ => r.gen_range(0..=2 * n) };
        let p = T::<F>::new(vecf(r, n));
        macro_rules! bin { ($v:ident, $by:ident, $re:ident, $asg:ident, $ip:ident) => {{
            let y = $v[b].clone();
            match f {
                0 => $v[d] = $v[a].$re(&$v[b]),
                1 => $v[d] = $v[a].clone().$by(&y),
                2 => { $v[d] = $v[a].clone(); $v[d].$asg(&y) }
                _ => { let mut z = $v[d].clone(); $v[a].$ip(&$v[b], &mut z); $v[d] = z; }
            }
        }} }
        let ok = tr.run(op, || match op {
            "add" => bin!(x, add_element_wise, add_element_wise_ref, add_assign_element_wise, add_inplace),
            "sub" => bin!(x, sub_element_wise, sub_element_wise_ref, sub_assign_element_wise, sub_inplace),
            "tadd" => bin!(t, add_element_wise, add_element_wise_ref, add_element_wise_assign, add_inplace),
            "tsub" => bin!(t, sub_element_wise, sub_element_wise_ref, sub_element_wise_assign, sub_inplace),
            "shiftsub" => { let mut z = x[d].clone(); x[a].mul_monic_monomial_sub_one_inplace(n, e, &mut z); x[d] = z }
            "shiftadd" => { let y = x[a].clone(); x[d].add_assign_rhs_mul_monic_monomial(&y, n, e) }
            "zero" => if f < 2 { x[d].set_zero() } else { x[d] = RLWE::zero(n) },
            "tmulp" => { let y = x[a].clone(); y.mul_ntt_polynomial_inplace(&p, &mut t[d]) }
            "ton" => t[d] = NTTRLWE::from(x[a].clone()),
            "tmul" => if f < 2 { t[d] = t[a].clone(); t[d].mul_ntt_polynomial_assign(&p) } else { let y = t[a].clone(); y.mul_ntt_polynomial_inplace(&p, &mut t[d]) },
            "tfma" => { let y = t[a].clone(); t[d].add_ntt_rlwe_mul_ntt_polynomial_assign(&y, &p) }
            "tfmaf" => { let y = t[a].clone(); t[d].add_ntt_rlwe_mul_ntt_polynomial_assign_fast(&y, &p) }
            "tfmai" => { let (u, v) = (t[a].clone(), t[b].clone()); u.add_ntt_rlwe_mul_ntt_polynomial_inplace(&v, &p, &mut t[d]) }
            "tzero" => if f < 2 { t[d].set_zero() } else { t[d] = NTTRLWE::zero(n) },
            "ntor" => if f < 2 { x[d] = RLWE::from(t[a].clone()) } else { t[a].inverse_transform_inplace(&mut x[d]) },
            _ => std::process::exit(77),
        });
        if ok.is_none() { return; }
        tr.ev("rstep", json!({"f": op, "d": d, "a": a, "b": b, "p": pl(p.as_slice()), "e": e,
            "r": x.iter().map(rl).collect::<Vec<_>>(), "t": t.iter().map(tl).collect::<Vec<_>>()}));
    }
}

fn ring<F: NTTField>(a: &Args, tr: &Tr, r: &mut R, name: &str, k: u32, bi: &mut dyn Iterator<Item = &Value>)
where
    F::Value: AsFrom<u64>,
    F::Table: AbstractNTT<F>,
{
    let n = 1usize << k;
    let rounds = if n > 64 { 1 } else if a.thorough { 20 } else { 2 };
    let Some(mut h) = tr.run("get_ntt_table", || head::<F>(name, k)) else { return };
    for _ in 0..rounds {
        let s: Vec<F> = key(r, n);
        h["s"] = pl(&s);
        tr.begin(h.clone());
        forms::<F>(tr, r, n);
        samples::<F>(tr, r, n, &s);
        if n <= 8 { program::<F>(tr, r, &h, n, bi.next().unwrap()); }
    }
}

pub fn run(a: &Args, tr: &Tr) {
    let r = &mut rng(a.seed, 8);
    let beh = behaviours(&a.inputs[0]);
    let mut bi = beh.iter().cycle();
    macro_rules! all { ($($n:ident: $($k:literal)*;)*) => {$($( ring::<$n>(a, tr, r, stringify!($n), $k, &mut bi); )*)*} }
    all! {
        B17: 0 1 2 3; B41: 1 2; H17: 1 3; H97: 0 1 4; H193: 2 5; H257: 3; H7681: 4; H15361: 2 6; W17: 1 2; W97: 3; W257: 5; W7681: 3; W12289: 2 4;
        WBIG: 1 3 6; Q17: 2; Q257: 4; Q12289: 3; Q132: 1 4 9; Q50: 1 3 5; QBIG: 0 1 2 4; DefaultFieldU32: 2 4 10; DefaultQks: 3 8;
    }
}
