//! Freshness of every encryption: own uniform mask, own error, for every row of every object.
use crate::common::*;
use algebra::{AsFrom, Basis, Field, FieldDiscreteGaussianSampler, NTTField, Polynomial};
use fhe_core::{BlindRotationKey, KeySwitchingLWEKey, KeySwitchingRLWEKey, LWEModulusType, LWESecretKeyType as LK, RingSecretKeyType as RK, SecretKeyPack, Steps};
use crate::fields::*;
use harness::*;
use lattice::{DiscreteGaussian, GadgetRLWE, NTTGadgetRLWE, LWE, NTTRGSW, NTTRLWE, RGSW, RLWE};
use rand::{Rng, RngCore, SeedableRng};
use serde_json::{json, Value};
use zkfhe::Encryptor;

/// mask and body of one row (an LWE row has a body of one value)
type Row = (Vec<u64>, Vec<u64>);
type P<F> = Polynomial<F>;

fn u<F: Field>(v: &[F]) -> Vec<u64> {
    v.iter().map(|x| v64(*x)).collect()
}
fn row<F: NTTField>(x: &RLWE<F>) -> Row {
    (u(x.a_slice()), u(x.b_slice()))
}
fn nrow<F: NTTField>(x: &NTTRLWE<F>) -> Row {
    row(&RLWE::from(x.clone()))
}
fn lrow<C: LWEModulusType>(x: &LWE<C>) -> Row {
    (x.a().iter().map(|v| w64(*v)).collect(), vec![w64(x.b())])
}
/// the errors' distribution for a deviation
fn errd(sig: f64, poly: bool) -> Value {
    if poly && sig == 3.2 { json!({"kind": "cbd"}) } else {
        let s = (sig * 10.0).round() as i64;
        json!({"kind": "gauss", "mean2": 0, "sigma10": s, "max10": 6 * s})
    }
}
struct Cx<'a> {
    a: &'a Args,
    tr: &'a Tr,
}
/// what is drawn: the modulus, the secret, the rows' messages, distances at which rows are compared
struct Set {
    m: u64,
    s: Vec<u64>,
    ring: bool,
    d: Value,
    msgs: Vec<Vec<u64>>,
    lags: Vec<usize>,
}
impl Cx<'_> {
    fn k(&self) -> usize {
        if self.a.thorough { 4000 } else { 900 }
    }
    /// Draws the object k times from one stream, and again from equal and from other streams.
    fn set(&self, r: &mut R, name: &str, w: &Set, k: usize, draw: &dyn Fn(&mut R) -> Vec<Row>) {
        self.seen(r, name, w, k, 1, &|g, _| draw(g))
    }
    /// The rows of a key can only be seen through its operations, which may split a value or its negation into digits:
    /// the same draws seen in each of `ways`; one of them must show the rows.
    fn seen(&self, r: &mut R, name: &str, w: &Set, k: usize, ways: usize, draw: &dyn Fn(&mut R, usize) -> Vec<Row>) {
        self.view(r, name, w, k, ways, false, draw)
    }
    /// `many`: so many rows that they are judged as draws of one row
    fn view(&self, r: &mut R, name: &str, w: &Set, k: usize, ways: usize, many: bool, draw: &dyn Fn(&mut R, usize) -> Vec<Row>) {
        let (n, rows) = (w.s.len(), w.msgs.len());
        self.tr.begin(json!({"kind": name, "m": w.m, "n": n, "s": w.s, "ring": w.ring, "d": w.d, "msgs": w.msgs, "lags": w.lags, "rows": rows}));
        let (s1, s2) = (r.gen::<u64>(), r.gen::<u64>());
        let Some((x, y, z)) = self.tr.run(name, || (draw(&mut R::seed_from_u64(s1), 0), draw(&mut R::seed_from_u64(s1), 0), draw(&mut R::seed_from_u64(s2), 0))) else { return };
        self.tr.ev("source", json!({"equal": x == y, "differs": x.iter().zip(&z).all(|(p, q)| p.0 != q.0)}));
        let start = R::seed_from_u64(r.gen());
        let mut views = vec![];
        for way in 0..ways {
            let mut g = start.clone();
            let mut all = vec![];
            for _ in 0..k {
                // what is drawn between two objects does not matter
                if g.gen_range(0..3) == 0 { g.next_u32(); }
                match self.tr.run(name, || draw(&mut g, way)) {
                    Some(v) => all.push(v),
                    None => return,
                }
            }
            if all.iter().any(|v| v.len() != rows || v.iter().any(|(a, b)| a.len() != n || b.len() != if w.ring { n } else { 1 })) {
                self.tr.ev("panic", json!({"in": name, "msg": "wrong shape"}));
                return;
            }
            views.push(json!(all.iter().map(|v| json!(v.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>())).collect::<Vec<_>>()));
        }
        self.tr.ev(if many { "many" } else { "rows" }, json!({"e": views}));
    }
    /// Vectors whose entries are independent draws of one distribution.
    fn keys(&self, r: &mut R, name: &str, m: u64, d: Value, lags: &[usize], k: usize, draw: &dyn Fn(&mut R) -> Vec<u64>) {
        self.tr.begin(json!({"kind": name, "m": m, "d": d, "lags": lags}));
        let (s1, s2) = (r.gen::<u64>(), r.gen::<u64>());
        let Some((x, y, z)) = self.tr.run(name, || {
            let f = |s| { let mut g = R::seed_from_u64(s); (0..100).map(|_| draw(&mut g)).collect::<Vec<_>>() };
            (f(s1), f(s1), f(s2))
        }) else { return };
        self.tr.ev("source", json!({"equal": x == y, "differs": x != z}));
        let mut g = R::seed_from_u64(r.gen());
        if let Some(v) = self.tr.run(name, || (0..k).map(|_| draw(&mut g)).collect::<Vec<_>>()) {
            self.tr.ev("vectors", json!({"v": v}));
        }
    }
}

/// a secret with coefficients -1, 0, 1 or larger
fn secret<F: NTTField>(r: &mut R, n: usize) -> Vec<F>
where
    F::Value: AsFrom<u64>,
{
    let m = m128::<F>() as u64;
    (0..n).map(|_| F::new(<F::Value as AsFrom<u64>>::as_from(match r.gen_range(0..4) { 0 => 1, 1 => m - 1, 2 => 0, _ => (m + 7) * (r.gen_range(0..2u64)) % m }))).collect()
}

/// every kind of sample over a ring
fn ring<F: NTTField>(c: &Cx, r: &mut R, name: &str, n: usize, bits: u32, sig: f64)
where
    F::Value: AsFrom<u64>,
{
    let m = m128::<F>() as u64;
    let f = |x: u64| F::new(<F::Value as AsFrom<u64>>::as_from(x));
    let s = secret::<F>(r, n);
    let key = P::new(s.clone()).into_ntt_polynomial();
    let e = FieldDiscreteGaussianSampler::new(0.0, sig).unwrap();
    let basis = Basis::<F>::new(bits);
    let len = basis.decompose_len();
    let zero = vec![0u64; n];
    let unit = |v: u64| { let mut x = zero.clone(); x[0] = v; x };
    let pw: Vec<u64> = (0..len).map(|i| ((1u128 << (bits as usize * i)) % m as u128) as u64).collect();
    let negs = |v: u64| -> Vec<u64> { s.iter().map(|x| ((m as u128 - v64(*x) as u128) * v as u128 % m as u128) as u64).collect() };
    let ones: Vec<_> = pw.iter().map(|p| unit(*p)).collect();
    let nsec: Vec<_> = pw.iter().map(|p| negs(*p)).collect();
    let zeros = vec![zero.clone(); len];
    let both = |a: &Vec<Vec<u64>>, b: &Vec<Vec<u64>>| a.iter().chain(b).cloned().collect::<Vec<_>>();
    let mk = |msgs: Vec<Vec<u64>>| { let rows = msgs.len(); Set { m, s: u(&s), ring: true, d: errd(sig, true), lags: if rows == 1 { vec![] } else { vec![1, rows / 2] }, msgs } };
    let nm = |x: &str| format!("{name} n={n} bits={bits} dev={sig} {x}");
    let k = c.k();
    c.set(r, &nm("RLWE"), &mk(vec![zero.clone()]), 2 * k, &|g| vec![row(&RLWE::<F>::generate_random_zero_sample(&key, e, g))]);
    c.set(r, &nm("NTTRLWE"), &mk(vec![zero.clone()]), 2 * k, &|g| vec![nrow(&NTTRLWE::<F>::generate_random_zero_sample(&key, e, g))]);
    let v = r.gen_range(0..3) * (m / 3);
    c.set(r, &nm("NTTRLWE value"), &mk(vec![unit(v)]), 2 * k, &|g| vec![nrow(&NTTRLWE::<F>::generate_random_value_sample(&key, f(v), e, g))]);
    let gr = |x: &GadgetRLWE<F>| x.data().iter().map(row).collect::<Vec<_>>();
    let tr = |x: &NTTGadgetRLWE<F>| x.data().iter().map(nrow).collect::<Vec<_>>();
    c.set(r, &nm("GadgetRLWE zero"), &mk(zeros.clone()), k, &|g| gr(&GadgetRLWE::<F>::generate_random_zero_sample(&key, basis, e, g)));
    c.set(r, &nm("GadgetRLWE one"), &mk(ones.clone()), k, &|g| gr(&GadgetRLWE::<F>::generate_random_one_sample(&key, basis, e, g)));
    c.set(r, &nm("GadgetRLWE -s"), &mk(nsec.clone()), k, &|g| gr(&GadgetRLWE::<F>::generate_random_neg_secret_sample(&key, basis, e, g)));
    c.set(r, &nm("NTTGadgetRLWE zero"), &mk(zeros.clone()), k, &|g| tr(&NTTGadgetRLWE::<F>::generate_random_zero_sample(&key, basis, e, g)));
    c.set(r, &nm("NTTGadgetRLWE one"), &mk(ones.clone()), k, &|g| tr(&NTTGadgetRLWE::<F>::generate_random_one_sample(&key, basis, e, g)));
    c.set(r, &nm("NTTGadgetRLWE -s"), &mk(nsec.clone()), k, &|g| tr(&NTTGadgetRLWE::<F>::generate_random_neg_secret_sample(&key, basis, e, g)));
    let g2 = |x: &RGSW<F>| [gr(x.c_neg_s_m()), gr(x.c_m())].concat();
    let t2 = |x: &NTTRGSW<F>| [tr(x.c_neg_s_m()), tr(x.c_m())].concat();
    c.set(r, &nm("RGSW zero"), &mk(both(&zeros, &zeros)), k, &|g| g2(&RGSW::<F>::generate_random_zero_sample(&key, basis, e, g)));
    c.set(r, &nm("RGSW one"), &mk(both(&nsec, &ones)), k, &|g| g2(&RGSW::<F>::generate_random_one_sample(&key, basis, e, g)));
    c.set(r, &nm("NTTRGSW zero"), &mk(both(&zeros, &zeros)), k, &|g| t2(&NTTRGSW::<F>::generate_random_zero_sample(&key, basis, e, g)));
    c.set(r, &nm("NTTRGSW one"), &mk(both(&nsec, &ones)), k, &|g| t2(&NTTRGSW::<F>::generate_random_one_sample(&key, basis, e, g)));
    // masks of point-value samples, as point values and as coefficients of native ones
    let d = json!({"kind": "uniform", "m": m});
    let ln = [1, n, n * len];
    c.keys(r, &nm("points RLWE"), m, d.clone(), &[1], 2 * k, &|g| u(&RLWE::<F>::generate_random_zero_sample(&key, e, g).a().clone().into_ntt_polynomial().data()));
    c.keys(r, &nm("points NTTRLWE"), m, d.clone(), &[1], 2 * k, &|g| u(NTTRLWE::<F>::generate_random_zero_sample(&key, e, g).a_slice()));
    c.keys(r, &nm("points NTTRLWE value"), m, d.clone(), &[1], 2 * k, &|g| u(NTTRLWE::<F>::generate_random_value_sample(&key, f(v), e, g).a_slice()));
    let pts = |x: &NTTGadgetRLWE<F>| x.data().iter().flat_map(|y| u(y.a_slice())).collect::<Vec<_>>();
    c.keys(r, &nm("points NTTRGSW one"), m, d.clone(), &ln, k, &|g| { let x = NTTRGSW::<F>::generate_random_one_sample(&key, basis, e, g); [pts(x.c_neg_s_m()), pts(x.c_m())].concat() });
    c.keys(r, &nm("points NTTRGSW zero"), m, d, &ln, k, &|g| { let x = NTTRGSW::<F>::generate_random_zero_sample(&key, basis, e, g); [pts(x.c_neg_s_m()), pts(x.c_m())].concat() });
}

/// LWE samples over any power-of-two modulus
macro_rules! words { ($c:expr, $r:expr, $t:ident, $q:expr, $n:expr, $sig:expr) => {{
    use algebra::modulus::PowOf2Modulus;
    let (q, n, sig) = ($q as u64, $n as usize, $sig as f64);
    let s: Vec<$t> = (0..n).map(|_| *pick($r, &[0, 1, (q - 1) as $t])).collect();
    let e = DiscreteGaussian::<$t>::new(q as $t, 0.0, sig).unwrap();
    let w = Set { m: q, s: s.iter().map(|x| *x as u64).collect(), ring: false, d: errd(sig, false), msgs: vec![vec![0]], lags: vec![] };
    let mo = PowOf2Modulus::<$t>::new(q as $t);
    $c.set($r, &format!("LWE {} q={q} n={n} dev={sig}", stringify!($t)), &w, if n > 60 { LONG } else { 2 * $c.k() }, &|g| vec![lrow(&LWE::<$t>::generate_random_zero_sample(&s, q as $t, mo, e, g))]);
}} }

fn pack<C: LWEModulusType, Q: NTTField>(c: &Cx, r: &mut R, cfg: &Cfg) -> Option<SecretKeyPack<C, Q>> {
    c.tr.run("keys", || SecretKeyPack::<C, Q>::new(cfg.params(), &mut *r)).or_else(|| { c.tr.begin(json!({"kind": "keys"})); None })
}
fn lift(v: u64, from: u64, to: u64) -> u64 {
    if v <= 1 { v } else { to - (from - v) }
}

/// Long objects, drawn less often: no position may follow another one, however far apart.
fn long_ring<F: NTTField>(c: &Cx, r: &mut R, name: &str, n: usize, sig: f64)
where
    F::Value: AsFrom<u64>,
{
    let m = m128::<F>() as u64;
    let s = secret::<F>(r, n);
    let key = P::new(s.clone()).into_ntt_polynomial();
    let e = FieldDiscreteGaussianSampler::new(0.0, sig).unwrap();
    let w = Set { m, s: u(&s), ring: true, d: errd(sig, true), lags: vec![], msgs: vec![vec![0; n]] };
    let nm = |x: &str| format!("{name} n={n} dev={sig} long {x}");
    let k = if n > 256 && !c.a.thorough { LONG / 4 } else { LONG };
    c.set(r, &nm("RLWE"), &w, k, &|g| vec![row(&RLWE::<F>::generate_random_zero_sample(&key, e, g))]);
    c.set(r, &nm("NTTRLWE"), &w, k, &|g| vec![nrow(&NTTRLWE::<F>::generate_random_zero_sample(&key, e, g))]);
    c.set(r, &nm("NTTRLWE value"), &w, k, &|g| vec![nrow(&NTTRLWE::<F>::generate_random_value_sample(&key, F::new(F::MODULUS_VALUE), e, g))]);
}
const LONG: usize = 160;
fn long_scheme<C: LWEModulusType, Q: NTTField>(c: &Cx, r: &mut R, cfg: &Cfg)
where
    Q::Value: AsFrom<u64>,
{
    let p = match pack::<C, Q>(c, r, cfg) { Some(x) => x, None => return };
    let tag = |x: &str| format!("{x} long {:?} {:?} {:?} n={} q={} N={}", cfg.steps, cfg.lk, cfg.rk, cfg.n, cfg.q, cfg.dim);
    let w = Set { m: cfg.q, s: p.lwe_secret_key().iter().map(|x| w64(*x)).collect(), ring: false, d: errd(cfg.sig.0, false), msgs: vec![vec![0]], lags: vec![] };
    c.set(r, &tag("encrypt"), &w, LONG, &|g| vec![lrow(&p.encrypt(0u8, g))]);
    let ld = json!({"kind": if matches!(cfg.lk, LK::Ternary) { "ternary" } else { "binary" }});
    let rd = match cfg.rk { RK::Binary => json!({"kind": "binary"}), RK::Ternary => json!({"kind": "ternary"}), RK::Gaussian => errd(cfg.sig.1, true) };
    let gen = |g: &mut R| SecretKeyPack::<C, Q>::new(cfg.params(), g);
    c.keys(r, &tag("LWE key"), cfg.q, ld, &[1], LONG, &|g| gen(g).lwe_secret_key().iter().map(|x| w64(*x)).collect());
    c.keys(r, &tag("ring key"), m128::<Q>() as u64, rd, &[1], LONG, &|g| u(gen(g).ring_secret_key().as_slice()));
}

/// fresh ciphertexts of every message, and the keys
fn scheme<C: LWEModulusType, Q: NTTField>(c: &Cx, r: &mut R, cfg: &Cfg)
where
    Q::Value: AsFrom<u64>,
{
    let Some(p) = pack::<C, Q>(c, r, cfg) else { return };
    let k = c.k();
    ciphertexts(c, r, cfg, &p, k);
    rotation_key(c, r, cfg, &p, k, false);
    switching_keys(c, r, cfg, &p, k, false);
    secret_keys::<C, Q>(c, r, cfg, k);
}
/// keys of many rows, drawn a few times
fn many_rows<C: LWEModulusType, Q: NTTField>(c: &Cx, r: &mut R, cfg: &Cfg, k: usize)
where
    Q::Value: AsFrom<u64>,
{
    let Some(p) = pack::<C, Q>(c, r, cfg) else { return };
    rotation_key(c, r, cfg, &p, k, true);
    switching_keys(c, r, cfg, &p, k, true);
}
type Pack<C, Q> = SecretKeyPack<C, Q>;
fn tagged(cfg: &Cfg, x: &str) -> String {
    format!("{x} {:?} {:?} {:?} n={} q={} N={} br={} ks={}", cfg.steps, cfg.lk, cfg.rk, cfg.n, cfg.q, cfg.dim, cfg.br, cfg.ks)
}
fn ciphertexts<C: LWEModulusType, Q: NTTField>(c: &Cx, r: &mut R, cfg: &Cfg, p: &Pack<C, Q>, k: usize)
where
    Q::Value: AsFrom<u64>,
{
    let q = cfg.q;
    let ls: Vec<u64> = p.lwe_secret_key().iter().map(|x| w64(*x)).collect();
    let tag = |x: &str| tagged(cfg, x);
    // ---- ciphertexts
    let en = Encryptor::new(p.clone());
    for msg in 0..cfg.t.min(4) {
        let w = |x| Set { m: q, s: ls.clone(), ring: false, d: errd(cfg.sig.0, false), msgs: vec![vec![x]], lags: vec![] };
        let code = (msg as u128 * q as u128 * 2 + cfg.t as u128) / (2 * cfg.t as u128);
        c.set(r, &tag("encrypt"), &w(code as u64 % q), k, &|g| vec![lrow(&p.encrypt(msg as u8, g))]);
        c.set(r, &tag("Encryptor"), &w(code as u64 % q), k, &|g| vec![lrow(&en.encrypt(msg as u8, g))]);
    }
}
fn rotation_key<C: LWEModulusType, Q: NTTField>(c: &Cx, r: &mut R, cfg: &Cfg, p: &Pack<C, Q>, k: usize, many: bool)
where
    Q::Value: AsFrom<u64>,
{
    let (q, dim) = (cfg.q, cfg.dim);
    let qr = m128::<Q>() as u64;
    let ls: Vec<u64> = p.lwe_secret_key().iter().map(|x| w64(*x)).collect();
    let rs = u(p.ring_secret_key().as_slice());
    let tag = |x: &str| tagged(cfg, x);
    // ---- blind rotation key: the rows a rotation by half a turn adds to a constant table
    let len = p.parameters().blind_rotation_basis().decompose_len();
    let basis = p.parameters().blind_rotation_basis();
    let ternary = cfg.lk == LK::Ternary;
    let f = |x: u64| Q::new(<Q::Value as AsFrom<u64>>::as_from(x % qr));
    let half = f((qr + 1) / 2);
    let signs: &[u64] = if ternary { &[1, 2] } else { &[1] };
    let mut msgs = vec![];
    for s in &ls {
        for sign in signs {
            for j in 0..len {
                let on = if *sign == 1 { *s == 1 } else { *s == q - 1 };
                let mut m = vec![0; dim];
                if on { m[0] = ((1u128 << (cfg.br as usize * j)) % qr as u128) as u64 }
                msgs.push(m);
            }
        }
    }
    let per = signs.len() * len;
    let w = Set { m: qr, s: rs.clone(), ring: true, d: errd(cfg.sig.1, true), msgs, lags: vec![1, len, per] };
    c.view(r, &tag("blind rotation key"), &w, k, 2, many, &|g, way| {
        let key = BlindRotationKey::generate(p, g);
        let mut out = vec![];
        let turn = |i: usize, a: u64, lut: &[Q]| -> Row {
            let mut x = vec![C::ZERO; cfg.n];
            x[i] = C::as_from(a);
            let y = key.blind_rotate(P::new(lut.to_vec()), &LWE::new(x, C::ZERO), basis);
            let sg = |v: Q| if way == 0 { v64(v) } else { v64(-v) };
            (y.a_slice().iter().map(|v| sg(*v)).collect(), y.b_slice().iter().zip(lut).map(|(p, q)| sg(*p - *q)).collect())
        };
        for i in 0..cfg.n {
            let (mut plus, mut minus) = (vec![], vec![]);
            for j in 0..len {
                let b = f(((1u128 << (cfg.br as usize * j)) % qr as u128) as u64);
                // (X^N - 1) * lut = B^j (or its negation)
                let mut lut = vec![Q::ZERO; dim];
                lut[0] = if way == 0 { -(b * half) } else { b * half };
                let s = turn(i, dim as u64, &lut);
                if !ternary { plus.push(s); continue; }
                // (X^(N/2) - 1) * lut, likewise
                lut[dim / 2] = lut[0];
                let t = turn(i, dim as u64 / 2, &lut);
                // s = plus + minus, t = plus + Y minus with Y = X^(N/2), Y^2 = -1: minus = (1 + Y)/2 (s - t)
                let solve = |s: &[u64], t: &[u64]| -> (Vec<u64>, Vec<u64>) {
                    let d: Vec<Q> = s.iter().zip(t).map(|(x, y)| (f(*x) - f(*y)) * half).collect();
                    let h = dim / 2;
                    let mi: Vec<Q> = (0..dim).map(|i| d[i] + if i >= h { d[i - h] } else { -d[i + h] }).collect();
                    let pl: Vec<Q> = s.iter().zip(&mi).map(|(x, y)| f(*x) - *y).collect();
                    (u(&pl), u(&mi))
                };
                let ((pa, ma), (pb, mb)) = (solve(&s.0, &t.0), solve(&s.1, &t.1));
                plus.push((pa, pb));
                minus.push((ma, mb));
            }
            out.extend(plus);
            out.extend(minus);
        }
        out
    });
}
fn switching_keys<C: LWEModulusType, Q: NTTField>(c: &Cx, r: &mut R, cfg: &Cfg, p: &Pack<C, Q>, k: usize, many: bool)
where
    Q::Value: AsFrom<u64>,
{
    let (q, dim) = (cfg.q, cfg.dim);
    let qr = m128::<Q>() as u64;
    let ls: Vec<u64> = p.lwe_secret_key().iter().map(|x| w64(*x)).collect();
    let rs = u(p.ring_secret_key().as_slice());
    let tag = |x: &str| tagged(cfg, x);
    let f = |x: u64| Q::new(<Q::Value as AsFrom<u64>>::as_from(x % qr));
    // ---- key switching keys
    if matches!(cfg.steps, Steps::BrMsKs) {
        let (len, top) = ((q.trailing_zeros()).div_ceil(cfg.ks) as usize, 1u64 << cfg.ks);
        let mut msgs = vec![];
        for j in 0..len { for i in 0..dim { for v in 1..top { msgs.push(vec![(v as u128 * lift(rs[i], qr, q) as u128 * (1u128 << (cfg.ks as usize * j)) % q as u128) as u64]); } } }
        let w = Set { m: q, s: ls.clone(), ring: false, d: errd(cfg.sig.2, false), msgs, lags: vec![1, top as usize - 1, (top as usize - 1) * dim] };
        c.view(r, &tag("switching table"), &w, k, 2, many, &|g, way| {
            let key = KeySwitchingLWEKey::<C>::generate(p, g);
            let mut out = vec![];
            for j in 0..len { for i in 0..dim { for v in 1..top {
                // a last digit may be narrower than the others
                let d = v << (cfg.ks as usize * j);
                let mut x = vec![C::ZERO; dim];
                x[i] = C::as_from(if way == 0 { d } else { (q - d) % q });
                let (a, b) = lrow(&key.key_switch_for_lwe(LWE::new(x, C::ZERO)));
                let sg = |x: &u64| if way == 0 { (q - x) % q } else { *x };
                out.push((a.iter().map(sg).collect(), b.iter().map(sg).collect()));
            } } }
            out
        });
    }
    if matches!(cfg.steps, Steps::BrKsMs) {
        let ext = cfg.n.next_power_of_two();
        let chunks = dim / ext;
        let kb = Basis::<Q>::new(cfg.ks);
        let len = kb.decompose_len();
        let mut sk: Vec<u64> = ls.iter().map(|x| lift(*x, q, qr)).collect();
        sk.resize(ext, 0);
        let pw: Vec<u64> = (0..len).map(|i| ((1u128 << (cfg.ks as usize * i)) % qr as u128) as u64).collect();
        let mut msgs = vec![];
        for i in 0..chunks { for p in &pw { msgs.push(rs[i * ext..(i + 1) * ext].iter().map(|x| (*x as u128 * *p as u128 % qr as u128) as u64).collect()); } }
        let w = Set { m: qr, s: sk, ring: true, d: errd(cfg.sig.2, true), msgs, lags: vec![1, len] };
        c.view(r, &tag("switching key"), &w, k, 4, many, &|g, way| {
            let key = KeySwitchingRLWEKey::<Q>::generate(p, g);
            let mut out = vec![];
            for i in 0..chunks { for pj in &pw {
                let at = |e: usize, v: Q| {
                    let mut x = vec![Q::ZERO; dim];
                    x[i * ext + e] = v;
                    let y = key.key_switch_for_lwe(LWE::new(x, Q::ZERO));
                    (y.a().to_vec(), y.b())
                };
                // extraction reverses and negates all coefficients of the mask but the first
                let sg = |v: Q, way: usize| v64(if way % 2 == 0 { v } else { -v });
                let at = |e: usize, way: usize| at(e, if way % 2 == 0 { -f(*pj) } else { f(*pj) });
                let (a, b0) = at(0, way);
                let av: Vec<u64> = (0..ext).map(|e| if e == 0 { sg(a[0], way) } else { sg(-a[ext - e], way) }).collect();
                let mut bv = vec![sg(b0, way)];
                for e in 1..ext { bv.push(sg(at(e, way / 2).1, way / 2)); }
                out.push((av, bv));
            } }
            out
        });
    }
}
fn secret_keys<C: LWEModulusType, Q: NTTField>(c: &Cx, r: &mut R, cfg: &Cfg, k: usize)
where
    Q::Value: AsFrom<u64>,
{
    let (q, qr) = (cfg.q, m128::<Q>() as u64);
    let tag = |x: &str| tagged(cfg, x);
    // ---- secret keys
    let ld = json!({"kind": if cfg.lk == LK::Ternary { "ternary" } else { "binary" }});
    let rd = match cfg.rk { RK::Binary => json!({"kind": "binary"}), RK::Ternary => json!({"kind": "ternary"}), RK::Gaussian => errd(cfg.sig.1, true) };
    let gen = |g: &mut R| SecretKeyPack::<C, Q>::new(cfg.params(), g);
    c.keys(r, &tag("LWE key"), q, ld.clone(), &[1], 5 * k, &|g| gen(g).lwe_secret_key().iter().map(|x| w64(*x)).collect());
    c.keys(r, &tag("ring key"), qr, if matches!(cfg.steps, Steps::BrMs) { ld.clone() } else { rd.clone() }, &[1], 5 * k, &|g| u(gen(g).ring_secret_key().as_slice()));
    if !matches!(cfg.steps, Steps::BrMs) && ld == rd {
        c.keys(r, &tag("both keys"), qr, ld, &[1, 2, 3], 5 * k, &|g| {
            let x = gen(g);
            let z = x.ring_secret_key().as_slice();
            x.lwe_secret_key().iter().zip(z).flat_map(|(a, b)| [lift(w64(*a), q, qr), v64(*b)]).collect()
        });
    }
}

pub fn run(a: &Args, tr: &Tr) {
    let r = &mut rng(a.seed, 21);
    let c = &Cx { a, tr };
    macro_rules! rings { ($($f:ident $n:expr, $bits:expr, $sig:expr;)*) => {$( ring::<$f>(c, r, stringify!($f), $n, $bits, $sig); )*} }
    rings! { Q132 4, 7, 1.0; W12289 8, 7, 3.2; Q12289 16, 4, 2.0; }
    words!(c, r, u16, 1 << 12, 7, 1.0);
    words!(c, r, u32, 1 << 27, 5, 3.2);
    words!(c, r, u16, 1 << 11, 150, 1.0);
    words!(c, r, u32, 1 << 20, 700, 3.2);
    long_ring::<DefaultFieldU32>(c, r, "DefaultFieldU32", 128, 3.2);
    long_ring::<W12289>(c, r, "W12289", 256, 2.0);
    let n = *pick(r, &[512, 1024]);
    long_ring::<Q132>(c, r, "Q132", n, 3.2);
    let base = |n, q, lk, dim, rk, br, steps, ks, sig| Cfg { n, t: 4, q, lk, dim, rk, br, steps, ks, sig };
    scheme::<u16, Q132>(c, r, &base(6, 1 << 10, LK::Binary, 2, RK::Binary, 9, Steps::BrMsKs, 2, (1.0, 1.0, 1.0)));
    scheme::<u16, W12289>(c, r, &base(4, 1 << 12, LK::Ternary, 8, RK::Ternary, 7, Steps::BrKsMs, 7, (3.2, 3.2, 3.2)));
    scheme::<u32, Q132>(c, r, &base(4, 1 << 12, LK::Binary, 4, RK::Gaussian, 14, Steps::BrKsMs, 9, (2.0, 3.2, 1.0)));
    scheme::<u32, Q132>(c, r, &base(4, 1 << 20, LK::Ternary, 4, RK::Ternary, 9, Steps::BrMs, 9, (3.2, 2.0, 1.0)));
    long_scheme::<u16, DefaultFieldU32>(c, r, &base(500, 1 << 10, LK::Binary, 256, RK::Ternary, 7, Steps::BrMsKs, 3, (2.0, 3.2, 1.0)));
    long_scheme::<u32, Q132>(c, r, &base(300, 1 << 14, LK::Ternary, 512, RK::Binary, 7, Steps::BrMsKs, 3, (1.0, 2.0, 1.0)));
    many_rows::<u16, Q132>(c, r, &base(120, 1 << 10, LK::Ternary, 32, RK::Binary, 9, Steps::BrMsKs, 2, (1.0, 2.0, 1.0)), 2);
    many_rows::<u16, W12289>(c, r, &base(8, 1 << 12, LK::Binary, 256, RK::Ternary, 5, Steps::BrKsMs, 4, (1.0, 2.0, 3.2)), 6);
    many_rows::<u32, Q132>(c, r, &base(128, 1 << 12, LK::Binary, 128, RK::Binary, 9, Steps::BrMs, 4, (1.0, 3.2, 1.0)), 2);
    if a.thorough {
        long_ring::<Q132>(c, r, "Q132", 1024, 3.2);
        long_scheme::<u16, DefaultFieldU32>(c, r, &base(1000, 1 << 12, LK::Ternary, 1024, RK::Gaussian, 7, Steps::BrKsMs, 3, (2.0, 3.2, 1.0)));
        rings! { Q12289 16, 3, 2.0; Q132 4, 9, 1.0; Q132 2, 5, 3.2; W7681 32, 13, 1.0; DefaultFieldU32 4, 27, 3.2; }
        words!(c, r, u8, 1 << 7, 33, 1.0);
        words!(c, r, u64, 1 << 28, 3, 4.0);
        scheme::<u16, Q132>(c, r, &base(7, 1 << 9, LK::Ternary, 2, RK::Ternary, 3, Steps::BrMsKs, 3, (1.0, 3.2, 2.0)));
        scheme::<u16, DefaultFieldU32>(c, r, &base(8, 1 << 12, LK::Binary, 8, RK::Binary, 7, Steps::BrKsMs, 4, (1.0, 3.2, 3.2)));
        scheme::<u64, W12289>(c, r, &base(8, 1 << 12, LK::Binary, 8, RK::Binary, 5, Steps::BrMs, 4, (1.0, 3.2, 3.2)));
    }
}
