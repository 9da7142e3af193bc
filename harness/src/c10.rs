//! Gadget and RGSW encryptions and their products.
use algebra::transformation::AbstractNTT;
use algebra::{AsFrom, Basis, FieldDiscreteGaussianSampler, NTTField, NTTPolynomial, Polynomial};
use crate::fields::*;
use harness::*;
use lattice::*;
use rand::Rng;
use serde_json::{json, Value};

use crate::c08::{key, rl, rlwe, tl, trlwe};

type P<F> = Polynomial<F>;
type T<F> = NTTPolynomial<F>;

fn rows<F: NTTField>(g: &GadgetRLWE<F>) -> Value {
    json!(g.iter().map(rl).collect::<Vec<_>>())
}
fn trows<F: NTTField>(g: &NTTGadgetRLWE<F>) -> Value {
    json!(g.iter().map(|x| rl(&RLWE::from(x.clone()))).collect::<Vec<_>>())
}
fn grows<F: NTTField>(g: &RGSW<F>) -> Value {
    json!([rows(g.c_neg_s_m()), rows(g.c_m())])
}
fn tgrows<F: NTTField>(g: &NTTRGSW<F>) -> Value {
    json!([trows(g.c_neg_s_m()), trows(g.c_m())])
}
fn back<F: NTTField>(g: &NTTRGSW<F>) -> RGSW<F> {
    let f = |x: &NTTGadgetRLWE<F>| GadgetRLWE::new(x.iter().map(|y| RLWE::from(y.clone())).collect(), x.basis());
    RGSW::new(f(g.c_neg_s_m()), f(g.c_m()))
}

struct Scratch<F: NTTField> {
    d: DecompositionSpace<F>,
    p: PolynomialSpace<F>,
    m: NTTRLWESpace<F>,
}
impl<F: NTTField> Scratch<F>
where
    F::Value: AsFrom<u64>,
{
    fn dirty(r: &mut R, n: usize) -> Self {
        let mut s = Scratch { d: DecompositionSpace::new(n), p: PolynomialSpace::new(n), m: NTTRLWESpace::new(n) };
        s.d.as_mut_slice().copy_from_slice(&vecf::<F>(r, n));
        s.p.as_mut_slice().copy_from_slice(&vecf::<F>(r, n));
        s.m.a_mut_slice().copy_from_slice(&vecf::<F>(r, n));
        s.m.b_mut_slice().copy_from_slice(&vecf::<F>(r, n));
        s
    }
    /// contents as before: any
    fn again(&mut self, r: &mut R, n: usize) -> &mut Self {
        *self = Scratch::dirty(r, n);
        self
    }
}
macro_rules! asg {
    ($x:expr, |$t:ident| $e:expr) => {{
        let mut $t = $x.clone();
        $e;
        $t
    }};
}

/// random RGSW encryption of a random message in both forms
fn rgsw<F: NTTField>(r: &mut R, n: usize, k: &T<F>, basis: Basis<F>, e: FieldDiscreteGaussianSampler, small: bool) -> (NTTRGSW<F>, Vec<F>)
where
    F::Value: AsFrom<u64>,
{
    let mut m = vec![F::ZERO; n];
    match r.gen_range(0..4) {
        0 => (NTTRGSW::generate_random_zero_sample(k, basis, e, r), m),
        1 => { m[0] = F::ONE; (NTTRGSW::from(RGSW::generate_random_one_sample(k, basis, e, r)), m) }
        2 if small => { m[0] = F::ONE; (NTTRGSW::generate_random_one_sample(k, basis, e, r), m) }
        c => {
            if small || c == 2 { m[r.gen_range(0..n)] = F::NEG_ONE } else { m = vecf(r, n) }
            let mut g = NTTRGSW::generate_random_one_sample(k, basis, e, r);
            g.mul_ntt_polynomial_assign(&P::new(m.clone()).into_ntt_polynomial());
            (g, m)
        }
    }
}

fn one_case<F: NTTField>(tr: &Tr, r: &mut R, n: usize, s: &[F], basis: Basis<F>, dev: f64, eb: u128)
where
    F::Value: AsFrom<u64>,
{
    let k = P::new(s.to_vec()).into_ntt_polynomial();
    let e = FieldDiscreteGaussianSampler::new(0.0, dev).unwrap();
    let len = basis.decompose_len();
    let row_noise = len as u128 * n as u128 * ((1u128 << basis.bits()) - 1) * eb;
    let mut one = vec![F::ZERO; n];
    one[0] = F::ONE;
    let zero = vec![F::ZERO; n];
    let neg: Vec<F> = s.iter().map(|x| -*x).collect();
    // ---- samples
    let Some((gz, go, gn, tz, to, tn)) = tr.run("gadget samples", || (
        GadgetRLWE::<F>::generate_random_zero_sample(&k, basis, e, &mut *r), GadgetRLWE::<F>::generate_random_one_sample(&k, basis, e, &mut *r),
        GadgetRLWE::<F>::generate_random_neg_secret_sample(&k, basis, e, &mut *r), NTTGadgetRLWE::<F>::generate_random_zero_sample(&k, basis, e, &mut *r),
        NTTGadgetRLWE::<F>::generate_random_one_sample(&k, basis, e, &mut *r), NTTGadgetRLWE::<F>::generate_random_neg_secret_sample(&k, basis, e, &mut *r))) else { return };
    let bd = json!(limbs(eb));
    for (g, m) in [(rows(&gz), &zero), (rows(&go), &one), (rows(&gn), &neg), (trows(&tz), &zero), (trows(&to), &one), (trows(&tn), &neg)] {
        tr.ev("gad", json!({"g": g, "msg": pl(m), "bound": bd}));
    }
    if let Some(v) = tr.run("rgsw samples", || [
        (grows(&RGSW::<F>::generate_random_zero_sample(&k, basis, e, &mut *r)), &zero), (grows(&RGSW::<F>::generate_random_one_sample(&k, basis, e, &mut *r)), &one),
        (tgrows(&NTTRGSW::<F>::generate_random_zero_sample(&k, basis, e, &mut *r)), &zero), (tgrows(&NTTRGSW::<F>::generate_random_one_sample(&k, basis, e, &mut *r)), &one)]) {
        for (g, m) in v { tr.ev("rgsw", json!({"g": g, "msg": pl(m), "bound": bd})); }
    }
    // sums and differences of gadget encryptions, destinations dirty
    if let Some(v) = tr.run("gadget sums", || [
        (rows(&asg!(gz, |t| go.add_inplace(&gn, &mut t))), 1), (trows(&asg!(tz, |t| to.add_inplace(&tn, &mut t))), 1),
        (rows(&asg!(gn, |t| go.sub_inplace(&gz, &mut t))), 2), (trows(&asg!(tn, |t| to.sub_inplace(&tz, &mut t))), 2),
        (trows(&asg!(tz, |t| { t.set_zero(); })), 0), (trows(&NTTGadgetRLWE::<F>::zero(n, basis)), 0)]) {
        for (g, w) in v {
            let m: Vec<F> = (0..n).map(|i| match w { 1 => one[i] + neg[i], 2 => one[i], _ => F::ZERO }).collect();
            tr.ev("gad", json!({"g": g, "msg": pl(&m), "bound": limbs(if w == 0 { 0 } else { 2 * eb })}));
        }
    }
    // ---- gadget products
    let msg: Vec<F> = vecf(r, n);
    let g = match r.gen_range(0..3) {
        0 => (go.clone(), one.clone()),
        1 => (gn, neg),
        _ => {
            // any message: rows of an encryption of zero plus the scaled message
            let mut pw = F::ONE;
            let mut g = gz.clone();
            let len = g.data().len();
            for (i, row) in g.iter_mut().enumerate() {
                let add = P::new(msg.clone()).mul_scalar(pw);
                *row.b_mut() += &add;
                if i + 1 < len { pw *= F::new(basis.basis()); }
            }
            (g, msg)
        }
    };
    let (g, msg) = g;
    let tg = NTTGadgetRLWE::from(g.clone());
    let base: RLWE<F> = rlwe(r, n);
    let tbase = NTTRLWE::from(base.clone());
    let mut sc = Scratch::dirty(r, n);
    let dest: NTTRLWE<F> = trlwe(r, n);
    // the destination and the scratch space hold anything; a few polynomials are special
    for turn in 0..if n <= 8 { 3 } else { 1 } {
    let p = P::<F>::new(match turn { 0 => vecf(r, n), 1 => vec![F::ZERO; n], _ => { let mut v = vec![F::ZERO; n]; v[r.gen_range(0..n)] = coeff(r); v } });
    let zr = RLWE::<F>::zero(n);
    let bound = limbs(row_noise);
    if let Some((o, t, l)) = tr.run("gadget product", || (
        vec![g.mul_polynomial(&p), g.mul_polynomial_add_rlwe(&p, zr.clone()), zr.clone().add_gadget_rlwe_mul_polynomial(&g, &p), RLWE::from(tg.mul_polynomial(&p))],
        vec![tg.mul_polynomial(&p), asg!(dest, |d| { sc.again(r, n); tg.mul_polynomial_inplace(&p, &mut sc.d, &mut sc.p, &mut d) }), NTTRLWE::zero(n).add_gadget_rlwe_mul_polynomial(&tg, &p)],
        vec![asg!(dest, |d| { sc.again(r, n); tg.mul_polynomial_inplace_fast(&p, &mut sc.d, &mut sc.p, &mut d) })])) {
        tr.ev("prod", json!({"x": rl(&zr), "msg": pl(&msg), "p": pl(p.as_slice()), "neg": false, "bound": bound, "outs": o.iter().map(rl).collect::<Vec<_>>(), "touts": t.iter().map(tl).collect::<Vec<_>>(), "louts": l.iter().map(tl).collect::<Vec<_>>()}));
    }
    if let Some((o, t, l)) = tr.run("gadget product added", || (
        vec![g.mul_polynomial_add_rlwe(&p, base.clone()), base.clone().add_gadget_rlwe_mul_polynomial(&g, &p)],
        vec![tbase.clone().add_gadget_rlwe_mul_polynomial(&tg, &p), asg!(tbase, |d| { sc.again(r, n); d.add_assign_gadget_rlwe_mul_polynomial(&tg, &p, &mut sc.d, &mut sc.p) })],
        vec![asg!(tbase, |d| { sc.again(r, n); d.add_assign_gadget_rlwe_mul_polynomial_fast(&tg, &p, &mut sc.d, &mut sc.p) }),
             asg!(tbase, |d| { sc.again(r, n); let mut q = p.clone(); d.add_assign_gadget_rlwe_mul_polynomial_inplace_fast(&tg, &mut q, &mut sc.d) })])) {
        tr.ev("prod", json!({"x": rl(&base), "msg": pl(&msg), "p": pl(p.as_slice()), "neg": false, "bound": bound, "outs": o.iter().map(rl).collect::<Vec<_>>(), "touts": t.iter().map(tl).collect::<Vec<_>>(), "louts": l.iter().map(tl).collect::<Vec<_>>()}));
    }
    if let Some((o, t, l)) = tr.run("gadget product subtracted", || {
        let t = asg!(tbase, |d| { sc.again(r, n); d.sub_assign_gadget_rlwe_mul_polynomial_inplace(&tg, p.clone(), &mut sc.d) });
        let l = asg!(tbase, |d| { sc.again(r, n); let mut q = p.clone(); d.sub_assign_gadget_rlwe_mul_polynomial_inplace_fast(&tg, &mut q, &mut sc.d) });
        (vec![RLWE::from(t.clone()), RLWE::from(l.clone())], vec![t], vec![l])
    }) {
        tr.ev("prod", json!({"x": rl(&base), "msg": pl(&msg), "p": pl(p.as_slice()), "neg": true, "bound": bound, "outs": o.iter().map(rl).collect::<Vec<_>>(), "touts": t.iter().map(tl).collect::<Vec<_>>(), "louts": l.iter().map(tl).collect::<Vec<_>>()}));
    }
    }
    // ---- external products
    let Some((tr1, m1)) = tr.run("rgsw", || rgsw(r, n, &k, basis, e, true)) else { return };
    let Some((tr2, m2)) = tr.run("rgsw", || rgsw(r, n, &k, basis, e, eb > 0)) else { return };
    let (g1, g2) = (back(&tr1), back(&tr2));
    for (g, t, m) in [(&g1, &tr1, &m1), (&g2, &tr2, &m2)] {
        let mut x: RLWE<F> = rlwe(r, n);
        match r.gen_range(0..6) { 0 => x.a_mut().set_zero(), 1 => x.b_mut().set_zero(), _ => () }
        let j: RLWE<F> = rlwe(r, n);
        if let Some(o) = tr.run("external product", || vec![x.mul_rgsw(g), x.mul_ntt_rgsw(t), asg!(x, |d| { sc.again(r, n); d.mul_assign_ntt_rgsw(t, &mut sc.d, &mut sc.p, &mut sc.m) }),
            asg!(j, |d| { sc.again(r, n); x.mul_ntt_rgsw_inplace(t, &mut sc.d, &mut sc.p, &mut sc.m, &mut d) }), x.mul_ntt_rgsw(&NTTRGSW::from(g.clone()))]) {
            tr.ev("ext", json!({"x": rl(&x), "msg": pl(m), "bound": limbs(2 * row_noise), "outs": o.iter().map(rl).collect::<Vec<_>>(), "touts": [], "louts": []}));
        }
    }
    // the factor may have another basis than the product
    let top = 128 - m128::<F>().leading_zeros();
    for b2 in [basis.bits(), if basis.bits() < top { basis.bits() + 1 } else { 1 }, r.gen_range(1..=top)] {
        let basis2 = Basis::<F>::new(b2);
        let noise2 = 2 * basis2.decompose_len() as u128 * n as u128 * ((1u128 << b2) - 1) * eb;
        let Some((t3, m3)) = tr.run("rgsw", || if b2 == basis.bits() { (tr1.clone(), m1.clone()) } else { rgsw(r, n, &k, basis2, e, true) }) else { return };
        let g3 = back(&t3);
        let Some(o) = tr.run("rgsw product", || vec![g2.mul_small_rgsw(&g3), g2.mul_small_ntt_rgsw(&t3)]) else { return };
        let bits: Vec<u32> = o.iter().flat_map(|g| [g.basis().bits(), g.c_m().basis().bits(), g.c_neg_s_m().basis().bits()]).collect();
        tr.ev("rgswmul", json!({"x": grows(&g2), "msg": pl(&m3), "bound": limbs(noise2), "bits": bits, "outs": o.iter().map(grows).collect::<Vec<_>>()}));
        if eb == 0 {
            // and the product is used in turn
            let x: RLWE<F> = rlwe(r, n);
            let m = P::new(m2.clone()) * P::new(m3);
            if let Some(o) = tr.run("external product", || vec![x.mul_rgsw(&o[0]), x.mul_rgsw(&o[1]), x.mul_ntt_rgsw(&NTTRGSW::from(o[0].clone()))]) {
                tr.ev("ext", json!({"x": rl(&x), "msg": pl(m.as_slice()), "bound": limbs(0), "outs": o.iter().map(rl).collect::<Vec<_>>(), "touts": [], "louts": []}));
            }
        }
    }
}

/// A program over RLWE and RGSW registers with noiseless keys: every phase is exact.
fn program<F: NTTField>(tr: &Tr, r: &mut R, head: &Value, n: usize, s: &[F], basis: Basis<F>, beh: &Value)
where
    F::Value: AsFrom<u64>,
{
    let k = P::new(s.to_vec()).into_ntt_polynomial();
    let e = FieldDiscreteGaussianSampler::new(0.0, 1e-3).unwrap();
    let Some(init) = tr.run("rgsw", || {
        let x: Vec<RLWE<F>> = (0..3).map(|_| rlwe(r, n)).collect();
        let t: Vec<(NTTRGSW<F>, Vec<F>)> = (0..3).map(|_| rgsw(r, n, &k, basis, e, false)).collect();
        (x, t)
    }) else { return };
    let (mut x, t) = init;
    let msgs: Vec<Vec<F>> = t.iter().map(|v| v.1.clone()).collect();
    let mut t: Vec<NTTRGSW<F>> = t.into_iter().map(|v| v.0).collect();
    let mut h = head.clone();
    // registers hold what the contents decrypt to
    let phase = |x: &RLWE<F>| x.b().clone() - x.a() * &P::new(s.to_vec());
    h["r"] = json!(x.iter().map(|y| pl(phase(y).as_slice())).collect::<Vec<_>>());
    h["t"] = json!(msgs.iter().map(|m| pl(m)).collect::<Vec<_>>());
    tr.begin(h);
    let mut sc = Scratch::dirty(r, n);
    for st in beh.as_array().unwrap() {
        let op = st[0].as_str().unwrap();
        let g = |i: usize| st[i].as_u64().unwrap() as usize;
        let (d, a, b, f) = (g(1), g(2), g(3), g(4));
        let p = P::<F>::new(vecf(r, n));
        let Some(tp) = tr.run("ntt", || p.clone().into_ntt_polynomial()) else { return };
        let ok = tr.run(op, || match op {
            "ext" => match f {
                0 => x[d] = x[a].mul_ntt_rgsw(&t[b]),
                1 => x[d] = x[a].mul_rgsw(&back(&t[b])),
                2 => { x[d] = x[a].clone(); x[d].mul_assign_ntt_rgsw(&t[b], &mut sc.d, &mut sc.p, &mut sc.m) }
                _ => { let y = x[a].clone(); y.mul_ntt_rgsw_inplace(&t[b], &mut sc.d, &mut sc.p, &mut sc.m, &mut x[d]) }
            },
            "radd" => x[d] = x[a].add_element_wise_ref(&x[b]),
            "cmux" => { let mut y = x[a].sub_element_wise_ref(&x[d]); y.mul_assign_ntt_rgsw(&t[b], &mut sc.d, &mut sc.p, &mut sc.m); x[d].add_assign_element_wise(&y) }
            "gone" => t[d] = if f < 2 { NTTRGSW::generate_random_one_sample(&k, basis, e, &mut *r) } else { RGSW::generate_random_one_sample(&k, basis, e, &mut *r).into() },
            "gzero" => match f {
                0 => t[d] = NTTRGSW::generate_random_zero_sample(&k, basis, e, &mut *r),
                1 => t[d] = RGSW::generate_random_zero_sample(&k, basis, e, &mut *r).into(),
                2 => t[d].set_zero(),
                _ => t[d] = NTTRGSW::zero(n, basis),
            },
            "gmulp" => t[d].mul_ntt_polynomial_assign(&tp),
            "gfma" => { let (u, v) = (t[a].clone(), t[b].clone()); u.add_ntt_rgsw_mul_ntt_polynomial_inplace(&v, &tp, &mut t[d]) }
            "gadd" | "gsub" => {
                let (u, v) = (t[a].clone(), t[b].clone());
                let add = op == "gadd";
                if f < 2 { if add { u.add_inplace(&v, &mut t[d]) } else { u.sub_inplace(&v, &mut t[d]) } }
                else { let (u, v, mut w) = (back(&u), back(&v), back(&t[d])); if add { u.add_inplace(&v, &mut w) } else { u.sub_inplace(&v, &mut w) } t[d] = w.into(); }
            }
            "gmul" => { let u = back(&t[a]); t[d] = if f < 2 { u.mul_small_ntt_rgsw(&t[b]).into() } else { u.mul_small_rgsw(&back(&t[b])).into() } }
            _ => std::process::exit(77),
        });
        if ok.is_none() { return; }
        let out = if matches!(op, "ext" | "radd" | "cmux") { rl(&x[d]) } else { tgrows(&t[d]) };
        tr.ev("gstep", json!({"f": op, "d": d, "a": a, "b": b, "p": pl(p.as_slice()), "out": out}));
    }
}

fn ring<F: NTTField>(a: &Args, tr: &Tr, r: &mut R, name: &str, k: u32, bi: &mut dyn Iterator<Item = &Value>)
where
    F::Value: AsFrom<u64>,
    F::Table: AbstractNTT<F>,
{
    let n = 1usize << k;
    let m = m128::<F>();
    let mb = 128 - m.leading_zeros();
    let Some(mut h) = tr.run("get_ntt_table", || head::<F>(name, k)) else { return };
    let mut bits: Vec<u32> = if n <= 4 && m < 1 << 14 || a.thorough && n <= 16 { (1..=mb).collect() } else { (0..4).map(|_| r.gen_range(1..=mb)).collect() };
    if n > 64 { bits = vec![if mb > 20 { 7 } else { 5 }] }
    // digits of one bit: the longest decomposition the field has
    if n <= 8 && mb > 20 { bits.push(1) }
    for b in bits {
        let s: Vec<F> = key(r, n);
        let Some(basis) = tr.run("Basis::new", || Basis::<F>::new(b)) else { continue };
        h["s"] = pl(&s);
        h["bits"] = json!(b);
        h["len"] = json!(basis.decompose_len());
        for (dev, eb) in [(1e-3, 0u128), (1.0, 6), (3.2, 21)] {
            if eb > 0 && m <= 4 * eb { continue; }
            if n > 64 && eb < 21 { continue; }
            tr.begin(h.clone());
            one_case::<F>(tr, r, n, &s, basis, dev, eb);
        }
        if n <= 4 { program::<F>(tr, r, &h, n, &s, basis, bi.next().unwrap()); }
    }
}

pub fn run(a: &Args, tr: &Tr) {
    let r = &mut rng(a.seed, 10);
    let beh = behaviours(&a.inputs[0]);
    let mut bi = beh.iter().cycle();
    macro_rules! all { ($($n:ident: $($k:literal)*;)*) => {$($( ring::<$n>(a, tr, r, stringify!($n), $k, &mut bi); )*)*} }
    all! {
        B17: 0 1 2; B41: 1 2; H17: 1; H97: 0 2 4; H193: 1; H257: 3; H7681: 2 4; H15361: 1; W17: 1; W257: 2; W12289: 2 4;
        WBIG: 1 3; Q257: 1; Q12289: 3; Q132: 1 4; Q50: 1 3; QBIG: 0 1 2; DefaultFieldU32: 2 9; DefaultQks: 2;
    }
}
