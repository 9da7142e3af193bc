//! Gadget decomposition.
use algebra::{AsFrom, Basis, DecomposableField, Polynomial};
use crate::fields::*;
use harness::*;
use rand::Rng;
use serde_json::{json, Value};

fn big(x: u128) -> Value {
    json!(limbs(x))
}
fn mbits(m: u128) -> u32 {
    let b = 128 - m.leading_zeros();
    if m.is_power_of_two() { b - 1 } else { b }
}
fn val(r: &mut R, m: u128, bits: u32) -> u128 {
    match r.gen_range(0..9) {
        0 => 0,
        1 => m - 1,
        2 => m / 2,
        3 => (1u128 << bits).min(m - 1),
        4 => ((1u128 << bits) - 1).min(m - 1),
        5 => (r.gen::<u128>() % m) >> bits << bits,
        6 => (r.gen::<u128>() % m) >> r.gen_range(0..bits + 1),
        _ => r.gen::<u128>() % m,
    }
}

pub fn field<F: DecomposableField>(tr: &Tr, r: &mut R, name: &str)
where
    F::Value: AsFrom<u64>,
{
    let m = m128::<F>();
    let el = |x: u128| F::new(<F::Value as AsFrom<u64>>::as_from(x as u64));
    for bits in 1..=mbits(m) {
        let Some(basis) = tr.run("Basis::new", || Basis::<F>::new(bits)) else { continue };
        let len = basis.decompose_len();
        tr.begin(json!({"kind": name, "m": big(m), "bits": bits, "len": len}));
        let w = |x: F::Value| big(Into::<u64>::into(x) as u128);
        tr.ev("basis", json!({"bits": basis.bits(), "len": len, "basis": w(basis.basis()), "mask": w(basis.mask())}));
        for _ in 0..5 {
            let x: F = el(val(r, m, bits));
            let dirt: Vec<F> = (0..len).map(|_| coeff(r)).collect();
            if let Some(o) = tr.run("decompose", || {
                let mut d = dirt.clone();
                x.decompose_at(basis, &mut d);
                let mut t = x;
                let e: Vec<F> = (0..len).map(|_| t.decompose_lsb_bits(basis.mask(), basis.bits())).collect();
                let mut u = x;
                let mut g = dirt.clone();
                for v in g.iter_mut() { u.decompose_lsb_bits_at(v, basis.mask(), basis.bits()); }
                vec![x.decompose(basis), d, e, g]
            }) {
                tr.ev("dec", json!({"x": big(v64(x) as u128), "outs": o.iter().map(|v| pl(v)).collect::<Vec<_>>()}));
            }
        }
        // long ones for a few bases
        let n2 = if r.gen_range(0..24) == 0 { *pick(r, &[129usize, 300, 1025]) } else { *pick(r, &[2, 3, 8]) };
        for n in [1usize, n2] {
            let x: Vec<F> = (0..n).map(|_| el(val(r, m, bits))).collect();
            let p = Polynomial::new(x.clone());
            let junk = |r: &mut R| -> Vec<Polynomial<F>> { (0..len).map(|_| Polynomial::new((0..n).map(|_| coeff(r)).collect())).collect() };
            let (j1, j2) = (junk(r), junk(r));
            if let Some((o, rest)) = tr.run("polynomial decompose", || {
                let a = p.clone().decompose(basis);
                let (mut q, mut b) = (p.clone(), j1.clone());
                q.decompose_inplace(basis, &mut b);
                let (mut s, mut c) = (p.clone(), j2.clone());
                for d in c.iter_mut() { s.decompose_lsb_bits_inplace(basis, d.as_mut_slice()); }
                ([a, b, c], [q.data(), s.data()])
            }) {
                tr.ev("vdec", json!({"x": pl(&x), "outs": o.iter().map(|v| v.iter().map(|p| pl(p.as_slice())).collect::<Vec<_>>()).collect::<Vec<_>>(), "rest": rest.iter().map(|v| pl(v)).collect::<Vec<_>>()}));
            }
        }
    }
}

macro_rules! word { ($tr:ident, $r:ident, $t:ty, $w:literal, $m:expr) => {{
    let (tr, r, m): (&Tr, &mut R, u128) = ($tr, &mut *$r, $m);
    for bits in 1..=mbits(m).min($w - 1) {
        let Some(basis) = tr.run("Basis::new", || lattice::Basis::<$t>::new(bits, m as $t)) else { continue };
        let len = basis.decompose_len();
        tr.begin(json!({"kind": concat!("lattice ", stringify!($t)), "m": big(m), "bits": bits, "len": len}));
        tr.ev("basis", json!({"bits": basis.bits(), "len": len, "basis": big(basis.basis() as u128), "mask": big(basis.mask() as u128)}));
        let n2 = if r.gen_range(0..24) == 0 { *pick(r, &[129usize, 300, 1025]) } else { *pick(r, &[0, 2, 5, 9]) };
        for n in [1usize, n2] {
            let x: Vec<$t> = (0..n).map(|_| val(r, m, bits) as $t).collect();
            let l = |v: &[$t]| json!(v.iter().map(|y| limbs(*y as u128)).collect::<Vec<_>>());
            if let Some((o, rest)) = tr.run("decompose_lsb_bits_inplace", || {
                let mut s = x.clone();
                let o: Vec<Vec<$t>> = (0..len).map(|_| {
                    let mut d: Vec<$t> = (0..n).map(|_| r.gen()).collect();
                    lattice::decompose_lsb_bits_inplace(&mut s, basis, &mut d);
                    d
                }).collect();
                (o, s)
            }) {
                tr.ev("vdec", json!({"x": l(&x), "outs": [o.iter().map(|v| l(v)).collect::<Vec<_>>()], "rest": [l(&rest)]}));
            }
        }
    }
}} }

pub fn run(a: &Args, tr: &Tr) {
    let r = &mut rng(a.seed, 9);
    let rounds = if a.thorough { 25 } else { 2 };
    for _ in 0..rounds {
        macro_rules! fields { ($($f:ident)*) => {$( field::<$f>(tr, r, stringify!($f)); )*} }
        fields! { B2 B3 B17 B41 B61 H17 H97 H193 H257 H7681 H15361 H16381 W17 W257 W7681 W12289 WBIG UW WTOP Q17 Q257 Q12289 Q132 Q50 QBIG UQ QTOP DefaultFieldU32 DefaultQks }
        macro_rules! words { ($($t:ty: $w:literal;)*) => {$(
            for k in 1..$w { word!(tr, r, $t, $w, 1u128 << k); }
            for _ in 0..6 {
                let b = r.gen_range(2..=$w as u32);
                let m = (1u128 << (b - 1)) + r.gen::<u128>() % (1u128 << (b - 1));
                word!(tr, r, $t, $w, m.max(2));
            }
        )*} }
        words! { u8: 8; u16: 16; u32: 32; u64: 64; }
    }
}
