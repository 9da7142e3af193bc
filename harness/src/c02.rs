//! Bootstrapping with arbitrary tables.
use algebra::{AsFrom, NTTField, Polynomial};
use crate::common::*;
use fhe_core::{LWEModulusType, LWESecretKeyType as LK, RingSecretKeyType as RK, SecretKeyPack, Steps};
use crate::fields::*;
use harness::*;
use lattice::LWE;
use rand::Rng;
use serde_json::{json, Value};
use zkfhe::bfhe::Evaluator;

fn lut<Q: NTTField>(r: &mut R, n: usize, kind: u64) -> Polynomial<Q>
where
    Q::Value: AsFrom<u64>,
{
    let m = m128::<Q>() as u64;
    let f = |x: u64| Q::new(<Q::Value as AsFrom<u64>>::as_from(x % m));
    let e = m / 8;
    Polynomial::new(match kind {
        0 => vec![f(e); n],
        1 => (0..n).map(|i| if i < n / 2 { f(m - e) } else { f(e) }).collect(),
        2 => (0..n).map(|i| if i < n / 4 { f(e) } else { f(m - e) }).collect(),
        // identity staircase
        3 => (0..n as u64).map(|i| f((i as u128 * m as u128 / (2 * n as u128)) as u64)).collect(),
        4 => { let mut v = vec![f(0); n]; v[r.gen_range(0..n)] = f(m - 1 - e); v }
        _ => vecf(r, n),
    })
}

#[allow(clippy::too_many_arguments)]
pub fn session<C: LWEModulusType, Q: NTTField>(tr: &Tr, r: &mut R, name: &str, c: &Cfg, progs: &[&Value], plain: usize, stat: bool)
where
    Q::Value: AsFrom<u64>,
{
    let Some((k, ev)) = tr.run("keys", || {
        let k = SecretKeyPack::<C, Q>::new(c.params(), &mut *r);
        let ev = Evaluator::new(&k, &mut *r);
        (k, ev)
    }) else {
        tr.begin(json!({"kind": name}));
        tr.ev("keys failed", json!({}));
        return;
    };
    let mut h = khead(name, c, &k);
    h["stat"] = json!(stat as u32);
    let sk: Vec<C> = k.lwe_secret_key().to_vec();
    // single calls: every phase when there are few, else phases around the borders of the table
    if plain > 0 {
        tr.begin(h.clone());
        let ph: Vec<u64> = if c.q <= plain as u64 { (0..c.q).collect() } else {
            (0..plain as u64).map(|i| match i { 0..=15 => (c.q / 8 * (i / 2) + (i % 2) * (c.q / 8 - 1)) % c.q, _ => r.gen::<u64>() % c.q }).collect()
        };
        let keep = lwe_with::<C>(r, &sk, c.q, c.q / 4);
        let table = lut::<Q>(r, c.dim, 9);
        let Some(o1) = tr.run("bootstrap", || lwc(&ev.bootstrap(keep.clone(), table.clone()))) else { return };
        for p in ph {
            let x = if r.gen_range(0..8) == 0 { any_lwe(r, c.n, c.q) } else { lwe_with::<C>(r, &sk, c.q, p) };
            let kind = r.gen_range(0..10);
            let l = lut::<Q>(r, c.dim, kind);
            if let Some(o) = tr.run("bootstrap", || lwc(&ev.bootstrap(x.clone(), l.clone()))) {
                tr.ev("boot", json!({"lut": pl(l.as_slice()), "x": lwc(&x), "outs": [o]}));
            }
        }
        if let Some(o) = tr.run("bootstrap", || [lwc(&ev.bootstrap(keep.clone(), table.clone())), lwc(&ev.clone().bootstrap(keep.clone(), table.clone()))]) {
            tr.ev("boot", json!({"lut": pl(table.as_slice()), "x": lwc(&keep), "outs": [o1, o[0], o[1]]}));
        }
    }
    for p in progs {
        let mut g: Vec<LWE<C>> = (0..3).map(|_| any_lwe(r, c.n, c.q)).collect();
        let mut h = h.clone();
        h["r"] = json!(g.iter().map(lwc).collect::<Vec<_>>());
        tr.begin(h);
        let mo = k.parameters().lwe_cipher_modulus();
        for st in p.as_array().unwrap() {
            let op = st[0].as_str().unwrap();
            let ix = |i: usize| st[i].as_u64().unwrap() as usize;
            let (d, a, b, kind) = (ix(1), ix(2), ix(3), st[4].as_u64().unwrap());
            let l = if op == "boot" { lut::<Q>(r, c.dim, kind) } else { Polynomial::zero(0) };
            let x = g[a].clone();
            let Some(o) = tr.run(op, || match op {
                "boot" => ev.bootstrap(x.clone(), l.clone()),
                "add" => x.add_reduce_component_wise_ref(&g[b], mo),
                "sub" => x.sub_reduce_component_wise_ref(&g[b], mo),
                _ => match kind { 0 => k.encrypt(r.gen_range(0..c.t as u8), &mut *r), 1 => LWE::new(vec![C::ZERO; c.n], C::as_from(r.gen::<u64>() % c.q)), _ => any_lwe(r, c.n, c.q) },
            }) else { break };
            g[d] = o;
            tr.ev("bstep", json!({"f": op, "d": d, "a": a, "b": b, "lut": pl(l.as_slice()), "out": lwc(&g[d])}));
        }
    }
}

/// The parameter sets all scheme-level checks use: (cost class, word type, field, set).
#[macro_export]
macro_rules! sets { ($go:ident) => {{
    use LK::{Binary as LB, Ternary as LT};
    use RK::{Binary as RB, Gaussian as RG, Ternary as RT};
    use Steps::*;
    let c = |n, q: u64, dim, lk, rk, br, steps, ks| Cfg { n, t: 4, q, lk, dim, rk, br, steps, ks, sig: QUIET };
    // ring key switch, then modulus switch: q = 2N, q < 2N, q > 2N
    $go!(0 u16 DefaultFieldU32 c(4, 64, 32, LT, RT, 3, BrKsMs, 1));
    $go!(0 u8 W12289 c(4, 64, 32, LB, RT, 7, BrKsMs, 4));
    $go!(0 u8 Q132 c(5, 128, 64, LB, RB, 9, BrKsMs, 5));
    $go!(0 u16 DefaultFieldU32 c(5, 128, 128, LB, RT, 9, BrKsMs, 2));
    $go!(0 u16 W7681 c(7, 128, 128, LT, RB, 4, BrKsMs, 3));
    $go!(0 u16 W12289 c(3, 1024, 16, LT, RT, 5, BrKsMs, 7));
    // the step between the entries of a table is four or eight
    $go!(0 u16 W12289 c(4, 64, 128, LT, RB, 7, BrKsMs, 4));
    $go!(1 u16 DefaultFieldU32 c(4, 64, 256, LB, RT, 9, BrKsMs, 2));
    $go!(0 u32 QBIG c(5, 1 << 20, 32, LT, RB, 16, BrKsMs, 21));
    $go!(0 u16 Q50 c(6, 1 << 12, 64, LT, RT, 10, BrKsMs, 25));
    $go!(0 u64 Q132 Cfg { sig: (1e-3, 3.2, 3.2), ..c(4, 1 << 11, 16, LT, RG, 3, BrKsMs, 2) });
    $go!(0 u16 DefaultFieldU32 Cfg { sig: (3.2, 3.2, 3.2), ..c(5, 1 << 13, 32, LB, RT, 2, BrKsMs, 1) });
    // modulus switch, then key switch by table
    $go!(0 u16 DefaultFieldU32 c(4, 1 << 12, 16, LB, RB, 3, BrMsKs, 4));
    $go!(0 u32 Q132 c(5, 1 << 14, 32, LT, RT, 7, BrMsKs, 7));
    $go!(0 u64 QBIG c(6, 1 << 16, 64, LT, RB, 31, BrMsKs, 1));
    $go!(0 u16 W12289 c(3, 1 << 10, 16, LT, RT, 2, BrMsKs, 3));
    $go!(1 u16 DefaultFieldU32 c(5, 1024, 512, LT, RT, 9, BrMsKs, 4));
    $go!(1 u16 DefaultFieldU32 c(6, 1024, 1024, LB, RB, 7, BrMsKs, 5));
    // more coefficients in the small key than in the ring's
    $go!(1 u16 DefaultFieldU32 c(80, 1 << 12, 64, LT, RT, 9, BrMsKs, 4));
    $go!(1 u32 Q50 c(70, 1 << 13, 64, LB, RB, 13, BrMsKs, 3));
    // no key switch, one key
    $go!(0 u16 DefaultFieldU32 c(64, 1 << 13, 64, LB, RB, 7, BrMs, 1));
    $go!(0 u32 Q50 c(32, 1 << 14, 32, LT, RT, 13, BrMs, 1));
    $go!(2 u16 W12289 c(512, 1024, 512, LB, RB, 7, BrMs, 1));
    $go!(2 u16 DefaultFieldU32 c(512, 512, 512, LB, RB, 14, BrMs, 1));
}} }

pub fn run(a: &Args, tr: &Tr) {
    let r = &mut rng(a.seed, 2);
    let beh = behaviours(&a.inputs[0]);
    let mut bi = beh.iter().cycle();
    let rounds = if a.thorough { 10 } else { 1 };
    for round in 0..rounds {
        macro_rules! go { ($cost:literal $c:ident $q:ident $set:expr) => {{
            if $cost < 2 || round < 1 {
                let progs: Vec<_> = (0..[4, 2, 1][$cost]).map(|_| bi.next().unwrap()).collect();
                session::<$c, $q>(tr, r, stringify!($c $q), &$set, &progs, [140, 40, 6][$cost], false);
            }
        }} }
        sets!(go);
    }
    let progs = [bi.next().unwrap()];
    let d = Cfg { n: 1024, t: 4, q: 1024, lk: LK::Ternary, dim: 1024, rk: RK::Ternary, br: 3, steps: Steps::BrKsMs, ks: 1, sig: (3.2, 6.4, 6.4) };
    session::<u16, DefaultFieldU32>(tr, r, "default", &d, if a.thorough { &progs } else { &[] }, 3, true);
    let d = Cfg { n: 512, t: 4, q: 1 << 14, br: 7, steps: Steps::BrMsKs, ks: 7, ..d };
    session::<u16, DefaultFieldU32>(tr, r, "custom", &d, if a.thorough { &progs } else { &[] }, 3, true);
}
