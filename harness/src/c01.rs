//! Circuits of gates.
use algebra::NTTField;
use crate::common::*;
use fhe_core::{LWEModulusType, LWESecretKeyType as LK, Parameters, RingSecretKeyType as RK, Steps};
use crate::fields::*;
use harness::*;
use lattice::LWE;
use rand::Rng;
use serde_json::{json, Value};
use zkfhe::{bfhe::Evaluator, bfhe::{CUSTOM_TERNARY_128_BITS_PARAMETERS, DEFAULT_TERNARY_128_BITS_PARAMETERS}, Decryptor, Encryptor, KeyGen};

fn gate<C: LWEModulusType, Q: NTTField>(ev: &Evaluator<C, Q>, g: &str, x: &LWE<C>, y: &LWE<C>, z: &LWE<C>) -> LWE<C> {
    match g {
        "not" => ev.not(x),
        "nand" => ev.nand(x, y),
        "and" => ev.and(x, y),
        "or" => ev.or(x, y),
        "nor" => ev.nor(x, y),
        "xor" => ev.xor(x, y),
        "xnor" => ev.xnor(x, y),
        "majority" => ev.majority(x, y, z),
        "mux" => ev.mux(x, y, z),
        _ => unreachable!(),
    }
}

#[allow(clippy::too_many_arguments)]
fn session<C: LWEModulusType, Q: NTTField>(tr: &Tr, r: &mut R, name: &str, c: &Cfg, params: Parameters<C, Q>, progs: &[&Value], len: usize, stat: bool, table: bool) {
    let Some((k, ev)) = tr.run("keys", || {
        let k = KeyGen::generate_secret_key(params, &mut *r);
        let ev = Evaluator::new(&k, &mut *r);
        (k, ev)
    }) else {
        tr.begin(json!({"kind": name}));
        tr.ev("keys failed", json!({}));
        return;
    };
    let (en, de) = (Encryptor::new(k.clone()), Decryptor::new(k.clone()));
    let mut h = khead(name, c, &k);
    h["stat"] = json!(stat as u32);
    h["wires"] = json!(4);
    let log = |g: &str, d: usize, ix: [usize; 3], o: &LWE<C>| {
        if let Some((m, e, m2)) = tr.run("decrypt", || { let (m, e) = de.decrypt_with_noise::<u8>(o); (m, e, de.decrypt::<u8>(o)) }) {
            tr.ev("gate", json!({"g": g, "d": d, "a": ix[0], "b": ix[1], "c": ix[2], "out": lwc(o), "dec": m, "dec2": m2, "noise": limbs(w64(e) as u128)}));
        }
    };
    if table {
        // every gate on every combination of inputs, each operand both fresh and produced by a gate
        tr.begin(h.clone());
        for bits in 0..8u8 {
            let mut w: Vec<LWE<C>> = vec![];
            for i in 0..3 {
                let v = bits >> i & 1;
                let (fresh, other) = (en.encrypt(v == 1, &mut *r), en.encrypt(v == 0, &mut *r));
                log("fresh", i, [v as usize, 0, 0], &fresh);
                w.push(fresh);
                if bits % 3 == i as u8 {
                    if let Some(o) = tr.run("not", || ev.not(&other)) {
                        log("fresh", 3, [1 - v as usize, 0, 0], &other);
                        log("not", i, [3, 3, 3], &o);
                        w[i] = o;
                    }
                }
            }
            for g in ["not", "nand", "and", "or", "nor", "xor", "xnor", "majority", "mux"] {
                for ix in [[0, 1, 2], [2, 0, 1], [0, 0, 1], [1, 0, 0]] {
                    let Some(o) = tr.run(g, || gate(&ev, g, &w[ix[0]], &w[ix[1]], &w[ix[2]])) else { continue };
                    log(g, 3, ix, &o);
                }
            }
        }
    }
    if !stat {
        // errors of the operands as large as each gate's table allows
        let mut h = h.clone();
        h["margin"] = json!(1);
        tr.begin(h);
        let sk: Vec<C> = k.lwe_secret_key().to_vec();
        let (q, hw) = (c.q as i64, sk.iter().filter(|x| !x.is_zero()).count() as i64);
        let two = 2 * c.dim as i64;
        // the rounding error of switching to 2N, in units of 1/q
        let ms = if q <= two { 0 } else { ((hw + 1) * q / (2 * two) + 1).min((4.0 * (hw + 1) as f64).sqrt().ceil() as i64 * q / two + 1) };
        let put = |r: &mut R, d: usize, v: bool, e: i64| {
            let x = lwe_with::<C>(r, &sk, c.q, ((if v { q / 4 } else { 0 }) + e).rem_euclid(q) as u64);
            tr.ev("given", json!({"d": d, "a": v as u8, "out": lwc(&x)}));
            x
        };
        for g in ["nand", "and", "or", "nor", "xor", "xnor", "majority", "mux"] {
            // xor doubles the errors and has twice the room
            let most = q / 8 - 1 - if g.starts_with('x') { ms / 2 } else { ms };
            if most < 0 { continue }
            let one = (q / 8 - 1).min(most.max(q / 16));
            for (round, &tot) in [most, -most, most, -most, most, -most, most, -most, r.gen_range(-most..=most), r.gen_range(-most..=most)].iter().enumerate() {
                let bits: Vec<bool> = (0..3).map(|i| if round < 8 { round >> i & 1 == 1 } else { r.gen() }).collect();
                let sgn = if round % 3 == 0 { -1 } else { 1 };
                let tot = tot * sgn;
                // e0 + e1 (+ e2) = tot, e0 - e1 = tot for xor, both e0 + e1 and e2 - e0 for mux
                let (e0, e1, e2) = match g {
                    "xor" | "xnor" => { let a = r.gen_range((tot - one).max(-one)..=(tot + one).min(one)); (a, a - tot, 0) }
                    "majority" => { let a = r.gen_range(-one / 2..=one / 2); let b = r.gen_range(-one / 2..=one / 2); (a, b, tot - a - b) }
                    "mux" => { let a = r.gen_range((tot - one).max(-one)..=(tot + one).min(one)); (a, tot - a, (tot + a).clamp(-one, one)) }
                    _ => { let a = r.gen_range((tot - one).max(-one)..=(tot + one).min(one)); (a, tot - a, 0) }
                };
                if e2.abs() > one || (g == "mux" && (e2 - e0).abs() > most) { continue }
                let w = [put(r, 0, bits[0], e0), put(r, 1, bits[1], e1), put(r, 2, bits[2], e2)];
                let Some(o) = tr.run(g, || gate(&ev, g, &w[0], &w[1], &w[2])) else { continue };
                log(g, 3, [0, 1, 2], &o);
            }
        }
    }
    for p in progs {
        tr.begin(h.clone());
        let mut w: Vec<LWE<C>> = vec![LWE::new(vec![C::ZERO; c.n], C::ZERO); 4];
        for st in p.as_array().unwrap().iter().take(len) {
            let g = st[0].as_str().unwrap();
            let ix = |i: usize| st[i].as_u64().unwrap() as usize;
            let (d, a, b, e) = (ix(1), ix(2), ix(3), ix(4));
            let o = if g == "fresh" { tr.run("encrypt", || if r.gen() { en.encrypt(a == 1, &mut *r) } else { k.encrypt(a as u8, &mut *r) }) }
                else { tr.run(g, || gate(&ev, g, &w[a], &w[b], &w[e])) };
            let Some(o) = o else { break };
            log(g, d, [a, b, e], &o);
            w[d] = o;
        }
    }
}

pub fn run(a: &Args, tr: &Tr) {
    let r = &mut rng(a.seed, 1);
    // the plain gates an application computes expected values with
    tr.begin(json!({"kind": "plain gates"}));
    for i in 0..8 {
        let [x, y, z] = [i & 1 == 1, i >> 1 & 1 == 1, i >> 2 & 1 == 1];
        use fhe_core::utils as u;
        for (g, v) in [("not", u::not(x)), ("and", u::and(x, y)), ("nand", u::nand(x, y)), ("or", u::or(x, y)), ("nor", u::nor(x, y)),
            ("xor", u::xor(x, y)), ("xnor", u::xnor(x, y)), ("majority", u::majority(x, y, z))] {
            tr.ev("plain", json!({"g": g, "x": x, "y": y, "z": z, "v": v}));
        }
    }
    let beh = behaviours(&a.inputs[0]);
    let mut bi = beh.iter().cycle();
    let rounds = if a.thorough { 12 } else { 1 };
    for round in 0..rounds {
        macro_rules! go { ($cost:literal $c:ident $q:ident $set:expr) => {{
            if $cost < 2 || round < 1 {
                let progs: Vec<_> = (0..[10, 4, 1][$cost]).map(|_| bi.next().unwrap()).collect();
                let set = $set;
                session::<$c, $q>(tr, r, stringify!($c $q), &set, set.params(), &progs, [24, 24, 14][$cost], false, $cost < 2);
            }
        }} }
        sets!(go);
    }
    let progs: Vec<_> = (0..if a.thorough { 6 } else { 1 }).map(|_| bi.next().unwrap()).collect();
    let d = Cfg { n: 1024, t: 4, q: 1024, lk: LK::Ternary, dim: 1024, rk: RK::Ternary, br: 3, steps: Steps::BrKsMs, ks: 1, sig: (3.2, 6.4, 6.4) };
    session(tr, r, "default", &d, *DEFAULT_TERNARY_128_BITS_PARAMETERS, &progs, if a.thorough { 24 } else { 12 }, true, a.thorough);
    let d = Cfg { n: 512, t: 4, q: 1 << 14, br: 7, steps: Steps::BrMsKs, ks: 7, ..d };
    session(tr, r, "custom", &d, *CUSTOM_TERNARY_128_BITS_PARAMETERS, &progs, 24, true, a.thorough);
}
