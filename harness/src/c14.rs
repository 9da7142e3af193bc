//! Modular backends and wide integer arithmetic.
use algebra::modulus::*;
use algebra::reduce::*;
use algebra::{AsInto, BorrowingSub, CarryingAdd, CarryingMul, WideningMul};
use harness::*;
use rand::Rng;
use serde_json::{json, Value};

fn l(x: u128) -> Value {
    json!(limbs(x))
}
fn ls(v: &[u128]) -> Value {
    json!(v.iter().map(|x| limbs(*x)).collect::<Vec<_>>())
}

/// A value in [0, n) with special values and every bit length well represented.
fn val(r: &mut R, n: u128) -> u128 {
    let x = match r.gen_range(0..10) {
        0 => r.gen_range(0..3),
        1 => n - 1 - r.gen_range(0..3u128.min(n)),
        2 => n / 2 + r.gen_range(0..3),
        3 | 4 => {
            let b = r.gen_range(0..128);
            (1u128 << b).wrapping_add(r.gen_range(0..3)).wrapping_sub(1)
        }
        5 | 6 => r.gen::<u128>() >> r.gen_range(0..128),
        _ => r.gen(),
    };
    x % n
}

fn exponent(r: &mut R) -> u64 {
    let b = r.gen_range(1..=64u32);
    val(r, 1u128 << b) as u64
}

struct Ctx<'a> {
    tr: &'a Tr,
    be: &'static str,
    w: u32,
    m: u128,
}
impl Ctx<'_> {
    fn call(&self, f: &str, a: Value, b: Value, outs: Option<Vec<u128>>) {
        if let Some(o) = outs {
            self.tr.ev("call", json!({"f": f, "be": self.be, "w": self.w, "m": l(self.m), "a": a, "b": b, "outs": ls(&o)}));
        }
    }
    fn go(&self, f: &str, a: Value, b: Value, g: impl FnOnce() -> Vec<u128>) {
        let o = self.tr.run(f, g);
        self.call(f, a, b, o);
    }
}

macro_rules! asg {
    ($x:expr, $f:ident ( $($a:expr),* )) => {{ let mut t = $x; t.$f($($a),*); t as u128 }};
}

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// The build with the `nightly` feature runs a shortened version.
fn amount(a: &Args, thorough: usize, quick: usize) -> usize {
    let n = if a.thorough { thorough } else { quick };
    if a.sub == "C14" { n } else { n.div_ceil(4) }
}

macro_rules! word {
    ($name:ident, $t:ty, $w:literal) => {
        fn $name(a: &Args, tr: &Tr, r: &mut R) {
            const W: u32 = $w;
            let words = 1u128 << W;
            let lim = 1u128 << (W - 2);
            // ---- constructors
            tr.begin(json!({"kind": concat!("new ", stringify!($t))}));
            let mut cand: Vec<u128> = (0..40).collect();
            for k in 0..W { for d in 0..3u128 { cand.push(((1u128 << k) + d).wrapping_sub(1) % words); } }
            cand.push(words - 1);
            for _ in 0..30 { cand.push(val(r, words)); }
            if W == 8 { cand = (0..256).collect(); }
            for c in cand {
                let ok = caught(|| BarrettModulus::<$t>::new(c as $t).value()).map_or(false, |v| v as u128 == c);
                tr.ev("new", json!({"be": "barrett", "w": W, "m": l(c), "ok": ok}));
                let ok = caught(|| PowOf2Modulus::<$t>::new(c as $t)).map_or(false, |m| m.value() as u128 == c && m.mask() as u128 == c - 1);
                tr.ev("new", json!({"be": "pow2", "w": W, "m": l(c), "ok": ok}));
            }
            // ---- Barrett, plain, Shoup
            let mut ms: Vec<u128> = vec![2, 3, 4, 5, 7, lim - 1, lim - 2, lim / 2, lim / 2 + 1];
            let h = 1u128 << (W / 2);
            if h + 1 < lim { ms.extend([h - 1, h, h + 1]); }
            for _ in 0..amount(a, 60, 14) { ms.push(2 + val(r, lim - 2)); }
            ms.dedup();
            for &m in &ms {
                tr.begin(json!({"kind": concat!("barrett ", stringify!($t)), "m": l(m)}));
                let Some(bm) = tr.run("BarrettModulus::new", || BarrettModulus::<$t>::new(m as $t)) else { continue };
                let c = Ctx { tr, be: "barrett", w: W, m };
                let p = Ctx { tr, be: "plain", w: W, m };
                let s = Ctx { tr, be: "shoup", w: W, m };
                let mt = m as $t;
                for _ in 0..amount(a, 60, 16) {
                    let (x, y, z, u) = (val(r, m), val(r, m), val(r, words), val(r, words));
                    let (xt, yt, zt, ut) = (x as $t, y as $t, z as $t, u as $t);
                    c.go("reduce", l(z), l(0), || vec![zt.reduce(bm) as u128, asg!(zt, reduce_assign(bm)), [zt].as_slice().reduce(bm) as u128]);
                    c.go("lazy", l(z), l(0), || vec![zt.lazy_reduce(bm) as u128, asg!(zt, lazy_reduce_assign(bm)), [zt].as_slice().lazy_reduce(bm) as u128]);
                    c.go("wide", ls(&[z, u]), l(0), || vec![[zt, ut].reduce(bm) as u128, (zt, ut).reduce(bm) as u128, [zt, ut].as_slice().reduce(bm) as u128]);
                    c.go("widelazy", ls(&[z, u]), l(0), || vec![[zt, ut].lazy_reduce(bm) as u128, (zt, ut).lazy_reduce(bm) as u128, [zt, ut].as_slice().lazy_reduce(bm) as u128]);
                    for q in [&c, &p] {
                        if q.be == "barrett" {
                            q.go("add", l(x), l(y), || vec![xt.add_reduce(yt, bm) as u128, asg!(xt, add_reduce_assign(yt, bm))]);
                            q.go("sub", l(x), l(y), || vec![xt.sub_reduce(yt, bm) as u128, asg!(xt, sub_reduce_assign(yt, bm))]);
                            q.go("neg", l(x), l(0), || vec![xt.neg_reduce(bm) as u128, asg!(xt, neg_reduce_assign(bm))]);
                        } else {
                            q.go("add", l(x), l(y), || vec![xt.add_reduce(yt, mt) as u128, asg!(xt, add_reduce_assign(yt, mt))]);
                            q.go("sub", l(x), l(y), || vec![xt.sub_reduce(yt, mt) as u128, asg!(xt, sub_reduce_assign(yt, mt))]);
                            q.go("neg", l(x), l(0), || vec![xt.neg_reduce(mt) as u128, asg!(xt, neg_reduce_assign(mt))]);
                        }
                    }
                    c.go("mul", l(x), l(y), || vec![xt.mul_reduce(yt, bm) as u128, asg!(xt, mul_reduce_assign(yt, bm))]);
                    c.go("mullazy", l(x), l(y), || vec![xt.lazy_mul_reduce(yt, bm) as u128, asg!(xt, lazy_mul_reduce_assign(yt, bm))]);
                    // the documented range of a product: self * rhs < m^2
                    let big = val(r, words.min(2 * m));
                    let small = val(r, (m / 2).max(1));
                    if big * small < m * m {
                        c.go("mul", l(big), l(small), || vec![(big as $t).mul_reduce(small as $t, bm) as u128, (small as $t).mul_reduce(big as $t, bm) as u128]);
                        c.go("mullazy", l(big), l(small), || vec![(big as $t).lazy_mul_reduce(small as $t, bm) as u128]);
                    }
                    // powers
                    let e: u64 = exponent(r);
                    let e16 = e as u16;
                    let e32 = e as u32;
                    c.go("exp", l(x), l(e as u128), || vec![xt.exp_reduce(e, bm) as u128]);
                    c.go("exp", l(x), l(e32 as u128), || vec![xt.exp_reduce(e32, bm) as u128]);
                    c.go("exp", l(x), l(e16 as u128), || vec![xt.exp_reduce(e16, bm) as u128, xt.exp_reduce(e16 as u128, bm) as u128]);
                    let k = r.gen_range(0..70u32);
                    c.go("exp2", l(x), json!(k), || vec![xt.exp_power_of_2_reduce(k, bm) as u128]);
                    // inverses
                    if x > 0 && gcd(x, m) == 1 {
                        p.go("inv", l(x), l(0), || vec![xt.inv_reduce(mt) as u128, xt.try_inv_reduce(mt).unwrap_or(0) as u128]);
                        c.go("inv", l(x), l(0), || vec![xt.inv_reduce(bm) as u128, asg!(xt, inv_reduce_assign(bm))]);
                        c.go("div", l(y), l(x), || vec![yt.div_reduce(xt, bm) as u128, asg!(yt, div_reduce_assign(xt, bm))]);
                    } else if x > 0 && m < 1 << 15 {
                        if let Some(o) = tr.run("try_inv_reduce", || xt.try_inv_reduce(mt).is_ok()) {
                            tr.ev("noinv", json!({"a": x as u64, "m": m as u64, "exists": o}));
                        }
                    }
                    // Shoup: value < m, the other operand any word
                    s.go("mul", l(x), l(z), || {
                        let f = ShoupFactor::<$t>::new(xt, mt);
                        let mut g = ShoupFactor::<$t>::new(0, 3);
                        g.set(xt, mt);
                        let mut h = ShoupFactor::<$t>::new(xt, (m + 1).min(words - 1) as $t);
                        h.set_modulus(mt);
                        // the same value under another modulus
                        let mut k = ShoupFactor::<$t>::new(xt, (m + 1).min(words - 1) as $t);
                        k.set(xt, mt);
                        let mut n = ShoupFactor::<$t>::new((xt == 0) as $t, mt);
                        n.set(xt, mt);
                        vec![zt.mul_reduce(f, mt) as u128, f.mul_reduce(zt, mt) as u128, asg!(zt, mul_reduce_assign(f, mt)),
                             g.mul_reduce(zt, mt) as u128, h.mul_reduce(zt, mt) as u128, k.mul_reduce(zt, mt) as u128, n.mul_reduce(zt, mt) as u128]
                    });
                    s.go("mullazy", l(x), l(z), || {
                        let f = ShoupFactor::<$t>::new(xt, mt);
                        vec![f.mul_reduce_lazy(zt, mt) as u128]
                    });
                    s.go("value", l(x), l(0), || vec![ShoupFactor::<$t>::new(xt, mt).value() as u128]);
                }
                // digit slices and dot products of every length
                let lens: Vec<usize> = if a.thorough { (0..=70).collect() } else { vec![0, 1, 2, 3, 7, 8, 15, 16, 17, 18, 31, 32, 33, r.gen_range(34..66), *pick(r, &[100, 128, 129, 255, 256, 257, 300, 513, 1024, 1025, 1500])] };
                for (i, &n) in lens.iter().enumerate() {
                    // (the longest one with every product as large as can be, for the largest moduli)
                    let top = r.gen_bool(0.4) || (i + 1 == lens.len() && m + 2 >= lim);
                    let u: Vec<u128> = (0..n).map(|_| if top { m - 1 } else { val(r, m) }).collect();
                    let v: Vec<u128> = (0..n).map(|_| if top { m - 1 } else { val(r, m) }).collect();
                    let (ut, vt): (Vec<$t>, Vec<$t>) = (u.iter().map(|x| *x as $t).collect(), v.iter().map(|x| *x as $t).collect());
                    c.go("dot", ls(&u), ls(&v), || vec![<$t>::dot_product_reduce(&ut, &vt, bm) as u128]);
                    if n > 0 && n < 40 {
                        let d: Vec<u128> = (0..n).map(|_| if top { words - 1 } else { val(r, words) }).collect();
                        let dt: Vec<$t> = d.iter().map(|x| *x as $t).collect();
                        c.go("wide", ls(&d), l(0), || vec![dt.as_slice().reduce(bm) as u128]);
                        c.go("widelazy", ls(&d), l(0), || vec![dt.as_slice().lazy_reduce(bm) as u128]);
                    }
                }
            }
            // plain and Shoup moduli up to half the word
            for i in 0..amount(a, 40, 8) {
                let m = if i == 0 { words / 2 } else { lim + val(r, lim) };
                tr.begin(json!({"kind": concat!("plain ", stringify!($t)), "m": l(m)}));
                let p = Ctx { tr, be: "plain", w: W, m };
                let mt = m as $t;
                for _ in 0..16 {
                    let (x, y) = (val(r, m), val(r, m));
                    let (xt, yt) = (x as $t, y as $t);
                    p.go("add", l(x), l(y), || vec![xt.add_reduce(yt, mt) as u128, asg!(xt, add_reduce_assign(yt, mt))]);
                    p.go("sub", l(x), l(y), || vec![xt.sub_reduce(yt, mt) as u128, asg!(xt, sub_reduce_assign(yt, mt))]);
                    p.go("neg", l(x), l(0), || vec![xt.neg_reduce(mt) as u128, asg!(xt, neg_reduce_assign(mt))]);
                    let s = Ctx { tr, be: "shoup", w: W, m };
                    let z = val(r, words);
                    s.go("mul", l(x), l(z), || {
                        let f = ShoupFactor::<$t>::new(xt, mt);
                        let zt = z as $t;
                        vec![zt.mul_reduce(f, mt) as u128, f.mul_reduce(zt, mt) as u128, asg!(zt, mul_reduce_assign(f, mt))]
                    });
                }
            }
            // ---- the word as a ring: modulus ()
            tr.begin(json!({"kind": concat!("wrap ", stringify!($t))}));
            let q = Ctx { tr, be: "wrap", w: W, m: words };
            for _ in 0..amount(a, 600, 80) {
                let (x, y) = (val(r, words), val(r, words));
                let (xt, yt) = (x as $t, y as $t);
                q.go("reduce", l(x), l(0), || vec![xt.reduce(()) as u128, asg!(xt, reduce_assign(()))]);
                q.go("add", l(x), l(y), || vec![xt.add_reduce(yt, ()) as u128, asg!(xt, add_reduce_assign(yt, ()))]);
                q.go("sub", l(x), l(y), || vec![xt.sub_reduce(yt, ()) as u128, asg!(xt, sub_reduce_assign(yt, ()))]);
                q.go("neg", l(x), l(0), || vec![xt.neg_reduce(()) as u128, asg!(xt, neg_reduce_assign(()))]);
                q.go("mul", l(x), l(y), || vec![xt.mul_reduce(yt, ()) as u128, asg!(xt, mul_reduce_assign(yt, ()))]);
                if y > 0 { q.go("div", l(x), l(y), || vec![xt.div_reduce(yt, ()) as u128, asg!(xt, div_reduce_assign(yt, ()))]); }
                let e = val(r, 1 << 32) as u32;
                q.go("exp", l(x), l(e as u128), || vec![xt.exp_reduce(e, ()) as u128]);
                // wide operations
                for cin in [false, true] {
                    if let Some((lo, hi)) = tr.run("carrying_add", || CarryingAdd::carrying_add(xt, yt, cin)) {
                        tr.ev("wide", json!({"f": "cadd", "w": W, "a": l(x), "b": l(y), "c": l(cin as u128), "lo": l(lo as u128), "hi": l(hi as u128)}));
                    }
                    if let Some((lo, hi)) = tr.run("borrowing_sub", || BorrowingSub::borrowing_sub(xt, yt, cin)) {
                        tr.ev("wide", json!({"f": "bsub", "w": W, "a": l(x), "b": l(y), "c": l(cin as u128), "lo": l(lo as u128), "hi": l(hi as u128)}));
                    }
                }
                let ci = val(r, words);
                for (f, c, v) in [
                    ("wmul", 0, tr.run("widening_mul", || { let (a, b) = WideningMul::widening_mul(xt, yt); (a, b, WideningMul::widening_mul_hw(xt, yt)) })),
                    ("cmul", ci, tr.run("carrying_mul", || { let (a, b) = CarryingMul::carrying_mul(xt, yt, ci as $t); (a, b, CarryingMul::carrying_mul_hw(xt, yt, ci as $t)) })),
                ] {
                    if let Some((lo, hi, hw)) = v {
                        for h in [hi, hw] {
                            tr.ev("wide", json!({"f": f, "w": W, "a": l(x), "b": l(y), "c": l(c), "lo": l(lo as u128), "hi": l(h as u128)}));
                        }
                    }
                }
                let word = |f: &str, b: Value, o: Option<Vec<u128>>| {
                    if let Some(o) = o { tr.ev("word", json!({"f": f, "w": W, "a": l(x), "b": b, "outs": ls(&o)})); }
                };
                use algebra::{WrappingAdd, WrappingMul, WrappingNeg, WrappingShl, WrappingShr, WrappingSub};
                word("wadd", l(y), tr.run("wrapping_add", || vec![WrappingAdd::wrapping_add(xt, yt) as u128]));
                word("wsub", l(y), tr.run("wrapping_sub", || vec![WrappingSub::wrapping_sub(xt, yt) as u128]));
                word("wmul", l(y), tr.run("wrapping_mul", || vec![WrappingMul::wrapping_mul(xt, yt) as u128]));
                word("wneg", l(0), tr.run("wrapping_neg", || vec![WrappingNeg::wrapping_neg(xt) as u128]));
                let sh = r.gen_range(0..200u32);
                word("wshl", json!(sh), tr.run("wrapping_shl", || vec![WrappingShl::wrapping_shl(xt, sh) as u128]));
                word("wshr", json!(sh), tr.run("wrapping_shr", || vec![WrappingShr::wrapping_shr(xt, sh) as u128]));
                // casts to narrower and wider words
                for (w2, v) in [
                    (8u32, tr.run("as_into", || { let o: u8 = xt.as_into(); o as u128 })),
                    (16, tr.run("as_into", || { let o: u16 = xt.as_into(); o as u128 })),
                    (32, tr.run("as_into", || { let o: u32 = xt.as_into(); o as u128 })),
                    (64, tr.run("as_into", || { let o: u64 = xt.as_into(); o as u128 })),
                    (64, tr.run("as_into", || { let o: usize = xt.as_into(); o as u128 })),
                    // signed targets hold the same bits
                    (16, tr.run("as_into", || { let o: i16 = xt.as_into(); o as u16 as u128 })),
                    (32, tr.run("as_into", || { let o: i32 = xt.as_into(); o as u32 as u128 })),
                    (64, tr.run("as_into", || { let o: i64 = xt.as_into(); o as u64 as u128 })),
                ] {
                    if let Some(o) = v { tr.ev("word", json!({"f": "cast", "w": w2, "a": l(x), "b": l(0), "outs": ls(&[o])})); }
                }
            }
        }
    };
}
word!(w8, u8, 8);
word!(w16, u16, 16);
word!(w32, u32, 32);
word!(w64, u64, 64);

macro_rules! pow2 {
    ($name:ident, $t:ty, $w:literal) => {
        fn $name(a: &Args, tr: &Tr, r: &mut R) {
            for k in 1..$w as u32 {
                if !a.thorough && $w > 16 && k % 5 != r.gen_range(0..5u32) && k != 1 && k != $w - 1 { continue; }
                let m = 1u128 << k;
                tr.begin(json!({"kind": concat!("pow2 ", stringify!($t)), "m": l(m)}));
                let Some(pm) = tr.run("PowOf2Modulus::new", || PowOf2Modulus::<$t>::new(m as $t)) else { continue };
                let c = Ctx { tr, be: "pow2", w: $w, m };
                for _ in 0..(if a.thorough { 40 } else { 12 }) {
                    let z = if $w == 128 { r.gen::<u128>() >> r.gen_range(0..128u32) } else { val(r, 1u128 << ($w % 128)) };
                    let (x, y) = (val(r, m), val(r, m));
                    let (xt, yt, zt) = (x as $t, y as $t, z as $t);
                    c.go("reduce", l(z), l(0), || vec![zt.reduce(pm) as u128, asg!(zt, reduce_assign(pm))]);
                    c.go("add", l(x), l(y), || vec![xt.add_reduce(yt, pm) as u128, asg!(xt, add_reduce_assign(yt, pm))]);
                    c.go("sub", l(x), l(y), || vec![xt.sub_reduce(yt, pm) as u128, asg!(xt, sub_reduce_assign(yt, pm))]);
                    c.go("neg", l(x), l(0), || vec![xt.neg_reduce(pm) as u128, asg!(xt, neg_reduce_assign(pm))]);
                    c.go("mul", l(x), l(y), || vec![xt.mul_reduce(yt, pm) as u128, asg!(xt, mul_reduce_assign(yt, pm))]);
                    let e: u64 = exponent(r);
                    c.go("exp", l(x), l(e as u128), || vec![xt.exp_reduce(e, pm) as u128]);
                    c.go("exp", l(x), l(e as u8 as u128), || vec![xt.exp_reduce(e as u8, pm) as u128, xt.exp_reduce(e as u8 as u32, pm) as u128]);
                    let j = r.gen_range(0..70u32);
                    c.go("exp2", l(x), json!(j), || vec![xt.exp_power_of_2_reduce(j, pm) as u128]);
                }
                for n in [0usize, 1, 2, 5, 16, 17, 33, *pick(r, &[64, 65, 129, 257, 513, 1025, 1500])] {
                    let u: Vec<u128> = (0..n).map(|_| val(r, m)).collect();
                    let v: Vec<u128> = (0..n).map(|_| val(r, m)).collect();
                    let (ut, vt): (Vec<$t>, Vec<$t>) = (u.iter().map(|x| *x as $t).collect(), v.iter().map(|x| *x as $t).collect());
                    c.go("dot", ls(&u), ls(&v), || vec![<$t>::dot_product_reduce(&ut, &vt, pm) as u128]);
                }
            }
        }
    };
}
pow2!(p8, u8, 8);
pow2!(p16, u16, 16);
pow2!(p32, u32, 32);
pow2!(p64, u64, 64);
pow2!(p128, u128, 128);

fn baby_bear(a: &Args, tr: &Tr, r: &mut R) {
    let m = BABY_BEAR_P as u128;
    let bb = BabyBearModulus;
    let c = Ctx { tr, be: "bb", w: 32, m };
    for s in 0..amount(a, 40, 8) {
        tr.begin(json!({"kind": "baby bear", "m": l(m)}));
        if s == 0 {
            for (v, k) in [(MONTY_ZERO, 0), (MONTY_ONE, 1), (MONTY_TWO, 2), (MONTY_NEG_ONE, m - 1)] {
                c.call("to", l(k), l(0), Some(vec![v as u128]));
            }
        }
        for _ in 0..50 {
            let (x, y) = (val(r, m), val(r, m));
            let (xt, yt) = (x as u32, y as u32);
            c.go("to", l(x), l(0), || vec![to_monty(xt) as u128]);
            c.go("from", l(x), l(0), || vec![from_monty(xt) as u128]);
            c.go("add", l(x), l(y), || vec![xt.add_reduce(yt, bb) as u128, asg!(xt, add_reduce_assign(yt, bb))]);
            c.go("sub", l(x), l(y), || vec![xt.sub_reduce(yt, bb) as u128, asg!(xt, sub_reduce_assign(yt, bb))]);
            c.go("neg", l(x), l(0), || vec![xt.neg_reduce(bb) as u128, asg!(xt, neg_reduce_assign(bb))]);
            c.go("mul", l(x), l(y), || vec![xt.mul_reduce(yt, bb) as u128, asg!(xt, mul_reduce_assign(yt, bb))]);
            let e: u64 = exponent(r);
            if e > 0 {
                c.go("exp", l(x), l(e as u128), || vec![xt.exp_reduce(e, bb) as u128]);
                c.go("exp", l(x), l(e as u32 as u128), || if e as u32 > 0 { vec![xt.exp_reduce(e as u32, bb) as u128] } else { vec![MONTY_ONE as u128] });
            }
            let j = r.gen_range(0..70u32);
            c.go("exp2", l(x), json!(j), || vec![xt.exp_power_of_2_reduce(j, bb) as u128]);
            if x > 0 {
                c.go("inv", l(x), l(0), || vec![xt.inv_reduce(bb) as u128, asg!(xt, inv_reduce_assign(bb)), xt.try_inv_reduce(bb).unwrap_or(0) as u128]);
                c.go("div", l(y), l(x), || vec![yt.div_reduce(xt, bb) as u128, asg!(yt, div_reduce_assign(xt, bb))]);
            }
        }
        if let Some(o) = tr.run("try_inv_reduce", || 0u32.try_inv_reduce(bb).is_ok()) {
            tr.ev("noinv", json!({"a": 0, "m": 3, "exists": o}));
        }
        for n in [0usize, 1, 2, 3, 16, 17, r.gen_range(4..50), 64, 65, 129, 300, 1025] {
            let u: Vec<u128> = (0..n).map(|_| val(r, m)).collect();
            let v: Vec<u128> = (0..n).map(|_| val(r, m)).collect();
            let (ut, vt): (Vec<u32>, Vec<u32>) = (u.iter().map(|x| *x as u32).collect(), v.iter().map(|x| *x as u32).collect());
            c.go("dot", ls(&u), ls(&v), || vec![u32::dot_product_reduce(&ut, &vt, bb) as u128]);
        }
    }
    // the zeroth power, on its own: see known-findings.json
    tr.begin(json!({"kind": "baby bear", "m": l(m), "probe": "bb-exp-zero"}));
    for x in [0u32, 1, MONTY_ONE, 77] {
        c.go("exp", l(x as u128), l(0), || vec![x.exp_reduce(0u32, bb) as u128]);
    }
}

fn goldilocks(a: &Args, tr: &Tr, r: &mut R) {
    let m = GOLDILOCKS_P as u128;
    let words = 1u128 << 64;
    let gm = GoldilocksModulus;
    let c = Ctx { tr, be: "gold", w: 64, m };
    // representatives at or above the modulus are legitimate results, hence legitimate operands
    let gval = |r: &mut R| match r.gen_range(0..4) {
        0 => m + r.gen_range(0..words - m),
        1 => words - 1 - r.gen_range(0..4u128),
        2 => val(r, m),
        _ => val(r, words),
    };
    for _ in 0..amount(a, 40, 10) {
        tr.begin(json!({"kind": "goldilocks", "m": l(m)}));
        for _ in 0..40 {
            let (x, y) = (gval(r), gval(r));
            let (xt, yt) = (x as u64, y as u64);
            c.go("canon", l(x), l(0), || vec![to_canonical_u64(xt) as u128]);
            c.go("reduce", l(x), l(0), || vec![xt.reduce(gm) as u128, asg!(xt, reduce_assign(gm))]);
            c.go("add", l(x), l(y), || vec![xt.add_reduce(yt, gm) as u128, asg!(xt, add_reduce_assign(yt, gm))]);
            c.go("sub", l(x), l(y), || vec![xt.sub_reduce(yt, gm) as u128, asg!(xt, sub_reduce_assign(yt, gm))]);
            c.go("neg", l(x), l(0), || vec![xt.neg_reduce(gm) as u128, asg!(xt, neg_reduce_assign(gm))]);
            c.go("mul", l(x), l(y), || vec![xt.mul_reduce(yt, gm) as u128, asg!(xt, mul_reduce_assign(yt, gm))]);
            let e: u64 = exponent(r);
            c.go("exp", l(x), l(e as u128), || vec![xt.exp_reduce(e, gm) as u128, xt.exp_reduce(e as u128, gm) as u128]);
            c.go("exp", l(x), l(e as u32 as u128), || vec![xt.exp_reduce(e as u32, gm) as u128]);
            let j = r.gen_range(0..70u32);
            c.go("exp2", l(x), json!(j), || vec![xt.exp_power_of_2_reduce(j, gm) as u128]);
            if x % m > 0 {
                c.go("inv", l(x), l(0), || vec![xt.inv_reduce(gm) as u128, asg!(xt, inv_reduce_assign(gm)), xt.try_inv_reduce(gm).unwrap_or(0) as u128]);
                c.go("div", l(y), l(x), || vec![yt.div_reduce(xt, gm) as u128, asg!(yt, div_reduce_assign(xt, gm))]);
            }
        }
        for z in [0, GOLDILOCKS_P] {
            if let Some(o) = tr.run("try_inv_reduce", || z.try_inv_reduce(gm).is_ok()) {
                tr.ev("noinv", json!({"a": 0, "m": 3, "exists": o}));
            }
        }
        for n in [0usize, 1, 2, 3, 16, 17, r.gen_range(4..50), 64, 65, 129, 300, 1025] {
            let u: Vec<u128> = (0..n).map(|_| gval(r)).collect();
            let v: Vec<u128> = (0..n).map(|_| gval(r)).collect();
            let (ut, vt): (Vec<u64>, Vec<u64>) = (u.iter().map(|x| *x as u64).collect(), v.iter().map(|x| *x as u64).collect());
            c.go("dot", ls(&u), ls(&v), || vec![u64::dot_product_reduce(&ut, &vt, gm) as u128]);
        }
    }
}

/// 8-bit words: every modulus, every operand.
fn rows(a: &Args, tr: &Tr, r: &mut R) {
    for m in 2..64u32 {
        tr.begin(json!({"kind": "rows", "m": m}));
        let Some(bm) = tr.run("new", || BarrettModulus::<u8>::new(m as u8)) else { continue };
        let mt = m as u8;
        let row = |f: &str, x: u32, from: u32, n: u32, g: &dyn Fn(u8) -> i64| {
            if let Some(o) = tr.run(f, || (from..from + n).map(|y| g(y as u8)).collect::<Vec<_>>()) {
                tr.ev("row", json!({"f": f, "m": m, "a": x, "from": from, "n": n, "out": o}));
            }
        };
        row("reduce", 0, 0, 256, &|y| y.reduce(bm) as i64);
        row("reduce", 0, 0, 256, &|y| { let mut t = y; t.reduce_assign(bm); t as i64 });
        row("lazy", 0, 0, 256, &|y| y.lazy_reduce(bm) as i64);
        row("neg", 0, 0, m, &|y| y.neg_reduce(bm) as i64);
        row("inv", 0, 1, m - 1, &|y| y.try_inv_reduce(mt).map_or(-1, |v| v as i64));
        for x in 0..m {
            let xt = x as u8;
            let sf = ShoupFactor::<u8>::new(xt, mt);
            row("add", x, 0, m, &|y| xt.add_reduce(y, bm) as i64);
            row("sub", x, 0, m, &|y| xt.sub_reduce(y, bm) as i64);
            row("mul", x, 0, m, &|y| xt.mul_reduce(y, bm) as i64);
            row("mullazy", x, 0, m, &|y| xt.lazy_mul_reduce(y, bm) as i64);
            row("mul", x, 0, 256, &|y| sf.mul_reduce(y, mt) as i64);
            row("mullazy", x, 0, 256, &|y| sf.mul_reduce_lazy(y, mt) as i64);
            row("exp", x, 0, 256, &|y| xt.exp_reduce(y, bm) as i64);
            row("exp2", x, 0, 20, &|y| xt.exp_power_of_2_reduce(y as u32, bm) as i64);
        }
        for hi in 0..256u32 {
            if !a.thorough && hi > 2 && hi < 254 && r.gen_range(0..6) > 0 { continue; }
            row("wide", hi, 0, 256, &|y| [y, hi as u8].reduce(bm) as i64);
            row("widelazy", hi, 0, 256, &|y| (y, hi as u8).lazy_reduce(bm) as i64);
        }
    }
    tr.begin(json!({"kind": "rows", "m": 256}));
    for x in 0..256u32 {
        let xt = x as u8;
        let row = |f: &str, g: &dyn Fn(u8) -> i64| {
            if let Some(o) = tr.run(f, || (0..=255u8).map(g).collect::<Vec<_>>()) {
                tr.ev("row", json!({"f": f, "m": 256, "a": x, "from": 0, "n": 256, "out": o}));
            }
        };
        row("cadd0", &|y| { let (l, h) = CarryingAdd::carrying_add(xt, y, false); l as i64 + 256 * h as i64 });
        row("cadd1", &|y| { let (l, h) = CarryingAdd::carrying_add(xt, y, true); l as i64 + 256 * h as i64 });
        row("bsub0", &|y| { let (l, h) = BorrowingSub::borrowing_sub(xt, y, false); l as i64 - 256 * h as i64 });
        row("bsub1", &|y| { let (l, h) = BorrowingSub::borrowing_sub(xt, y, true); l as i64 - 256 * h as i64 });
        row("wmul", &|y| { let (l, h) = WideningMul::widening_mul(xt, y); l as i64 + 256 * h as i64 });
    }
}

pub fn run(a: &Args, tr: &Tr) {
    let mut r = rng(a.seed, 14);
    let r = &mut r;
    w8(a, tr, r);
    w16(a, tr, r);
    w32(a, tr, r);
    w64(a, tr, r);
    p8(a, tr, r);
    p16(a, tr, r);
    p32(a, tr, r);
    p64(a, tr, r);
    p128(a, tr, r);
    baby_bear(a, tr, r);
    goldilocks(a, tr, r);
    rows(a, tr, r);
}

/// The alternative implementations of the wide operations that the feature `nightly` selects.
pub fn nightly(a: &Args, tr: &Tr) {
    let r = &mut rng(a.seed, 1014);
    w8(a, tr, r);
    w16(a, tr, r);
    w32(a, tr, r);
    w64(a, tr, r);
    baby_bear(a, tr, r);
    goldilocks(a, tr, r);
}
