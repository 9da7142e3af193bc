//! Evaluation as a pure function: histories of concurrent calls.
use crate::common::*;
use algebra::{AsFrom, NTTField, Polynomial};
use fhe_core::{BlindRotationKey, KeySwitchingLWEKey, KeySwitchingRLWEKey, LWEModulusType, LWESecretKeyType as LK, RingSecretKeyType as RK, SecretKeyPack, Steps};
use crate::fields::*;
use harness::*;
use lattice::{LWE, RLWE};
use rand::Rng;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Barrier};
use zkfhe::{bfhe::Evaluator, bfhe::{CUSTOM_TERNARY_128_BITS_PARAMETERS, DEFAULT_TERNARY_128_BITS_PARAMETERS}};

/// contents as small numbers
#[derive(Default)]
struct Ids(HashMap<String, usize>);
impl Ids {
    fn of(&mut self, v: Value) -> usize {
        let n = self.0.len();
        *self.0.entry(v.to_string()).or_insert(n)
    }
}

fn eval<C: LWEModulusType, Q: NTTField>(ev: &Evaluator<C, Q>, g: &str, x: &LWE<C>, y: &LWE<C>, z: &LWE<C>) -> LWE<C> {
    match g {
        "not" => ev.not(x),
        "nand" => ev.nand(x, y),
        "and" => ev.and(x, y),
        "or" => ev.or(x, y),
        "nor" => ev.nor(x, y),
        "xor" => ev.xor(x, y),
        "xnor" => ev.xnor(x, y),
        "majority" => ev.majority(x, y, z),
        "mux" => ev.mux(x, y, z),
        _ => unreachable!(),
    }
}
/// Some: result and the operands afterwards
type Out<C> = Option<(LWE<C>, [LWE<C>; 3])>;

struct Call {
    th: u64,
    g: String,
    d: usize,
    src: [usize; 3],
}

fn arity(g: &str) -> usize {
    match g { "not" => 1, "majority" | "mux" => 3, _ => 2 }
}

fn log<C: LWEModulusType>(tr: &Tr, ids: &mut Ids, op: &str, c: &Call, args: &[LWE<C>; 3], out: &Out<C>) {
    let n = arity(&c.g);
    match out {
        None => tr.ev("panic", json!({"in": c.g})),
        Some((o, after)) => {
            let a: Vec<usize> = args[..n].iter().map(|x| ids.of(lwc(x))).collect();
            let b: Vec<usize> = after[..n].iter().map(|x| ids.of(lwc(x))).collect();
            let r = ids.of(lwc(o));
            tr.ev(op, json!({"g": c.g, "th": c.th, "d": c.d, "src": c.src[..n], "args": a, "after": b, "res": r}));
        }
    }
}

/// one call on operands that are shared with nobody, borrowed as the caller would
fn single<C: LWEModulusType, Q: NTTField>(ev: &Evaluator<C, Q>, c: &Call, args: &[LWE<C>; 3]) -> Out<C> {
    let mine = args.clone();
    // the same object for the same wire
    let at = |i: usize| &mine[(0..i).find(|j| c.src[*j] == c.src[i]).unwrap_or(i)];
    let o = caught(|| eval(ev, &c.g, at(0), at(1), at(2))).ok()?;
    let after = [at(0).clone(), at(1).clone(), at(2).clone()];
    Some((o, after))
}

#[allow(clippy::too_many_arguments)]
fn history<C: LWEModulusType, Q: NTTField>(tr: &Tr, r: &mut R, name: &str, c: &Cfg, k: &SecretKeyPack<C, Q>, ev0: &Evaluator<C, Q>, prog: &Value, len: usize) {
    let mut ids = Ids::default();
    let mut w: Vec<LWE<C>> = (0..6).map(|i| k.encrypt((i & 1) as u8, &mut *r)).collect();
    let init: Vec<usize> = w.iter().map(|x| ids.of(lwc(x))).collect();
    tr.begin(json!({"kind": format!("{name} {} n={} q={} N={}", steps_name(c.steps), c.n, c.q, c.dim), "wires": init}));
    let mut ev = ev0.clone();
    let mut pool: Option<rayon::ThreadPool> = None;
    let mut round: Vec<Call> = vec![];
    let fixed = [any_lwe::<C>(r, c.n, c.q), any_lwe(r, c.n, c.q), any_lwe(r, c.n, c.q)];
    let steps = prog.as_array().unwrap();
    for (si, st) in steps.iter().take(len).chain([&json!(["sync", 0, "", 0, 0, 0, 0])]).enumerate() {
        let ix = |i: usize| st[i].as_u64().unwrap() as usize;
        let call = || Call { th: ix(1) as u64, g: st[2].as_str().unwrap().into(), d: ix(3), src: [ix(4), ix(5), ix(6)] };
        match st[0].as_str().unwrap() {
            "call" => round.push(call()),
            "all" => {
                // the same call on every thread at once: one decides the wire, the others must agree
                for th in 0..4 {
                    let mut c = call();
                    c.th = th;
                    round.push(c);
                }
                run_round(tr, &mut ids, &ev, ev0, &pool, &mut round, &mut w, true, si);
            }
            "sync" => run_round(tr, &mut ids, &ev, ev0, &pool, &mut round, &mut w, false, si),
            "clone" => {
                ev = ev.clone();
                tr.ev("quiet", json!({"what": "clone"}));
            }
            "pool" => {
                pool = Some(rayon::ThreadPoolBuilder::new().num_threads(ix(1)).build().unwrap());
                tr.ev("quiet", json!({"what": "pool"}));
            }
            "probe" => {
                for g in ["nand", "mux", "xor"] {
                    let c = Call { th: 0, g: g.into(), d: 0, src: [0, 1, 2] };
                    log(tr, &mut ids, "side", &c, &fixed, &single(&ev, &c, &fixed));
                }
            }
            "fresh" => {
                let (d, v) = (ix(3), ix(4));
                w[d] = k.encrypt(v as u8, &mut *r);
                let id = ids.of(lwc(&w[d]));
                tr.ev("fresh", json!({"d": d, "res": id}));
            }
            _ => unreachable!(),
        }
    }
    // the number of threads does not show
    let a = [w[0].clone(), w[3].clone(), w[5].clone()];
    for n in [1, 40, 2, 16, 5, 12] {
        let Ok(p) = rayon::ThreadPoolBuilder::new().num_threads(n).build() else { continue };
        for g in ["mux", "xor", "majority"] {
            let c = Call { th: 0, g: g.into(), d: 0, src: [0, 1, 2] };
            let o = p.install(|| single(&ev, &c, &a));
            log(tr, &mut ids, "side", &c, &a, &o);
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn run_round<C: LWEModulusType, Q: NTTField>(tr: &Tr, ids: &mut Ids, ev: &Evaluator<C, Q>, ev0: &Evaluator<C, Q>, pool: &Option<rayon::ThreadPool>, round: &mut Vec<Call>, w: &mut [LWE<C>], all: bool, si: usize) {
    if round.is_empty() { return }
    tr.flush();
    let shared: &[LWE<C>] = w;
    let args = |c: &Call| [shared[c.src[0]].clone(), shared[c.src[1]].clone(), shared[c.src[2]].clone()];
    // all calls of the round at the same time, on borrowed wires
    let bar = Arc::new(Barrier::new(round.len()));
    let outs: Vec<Out<C>> = std::thread::scope(|s| {
        let hs: Vec<_> = round.iter().map(|c| {
            let bar = bar.clone();
            s.spawn(move || {
                bar.wait();
                let f = || eval(ev, &c.g, &shared[c.src[0]], &shared[c.src[1]], &shared[c.src[2]]);
                let o = caught(|| match pool { Some(p) => p.install(f), None => f() }).ok()?;
                Some((o, [shared[c.src[0]].clone(), shared[c.src[1]].clone(), shared[c.src[2]].clone()]))
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (i, c) in round.iter().enumerate() {
        log(tr, ids, if all && i > 0 { "side" } else { "call" }, c, &args(c), &outs[i]);
    }
    // again, alone, in the opposite order, on the original evaluator or the copy
    for (i, c) in round.iter().enumerate().rev() {
        if all && i > 0 { continue }
        let a = args(c);
        log(tr, ids, "side", c, &a, &single(if (i + si) % 2 == 0 { ev0 } else { ev }, c, &a));
        if c.g == "mux" {
            // its definition
            let side = |g: &str, x: [LWE<C>; 3], ids: &mut Ids| {
                let c = Call { th: 9, g: g.into(), d: 0, src: [0, 1, 2] };
                let o = single(ev, &c, &x);
                log(tr, ids, "side", &c, &x, &o);
                o.map(|o| o.0)
            };
            let z = a[0].clone();
            let Some(na) = side("not", [a[0].clone(), z.clone(), z.clone()], ids) else { continue };
            let Some(x) = side("and", [a[0].clone(), a[1].clone(), z.clone()], ids) else { continue };
            let Some(y) = side("and", [na, a[2].clone(), z.clone()], ids) else { continue };
            if side("or", [x, y, z], ids).is_none() { continue }
            tr.ev("muxdef", json!({"args": a.iter().map(|x| ids.of(lwc(x))).collect::<Vec<_>>()}));
        }
    }
    for (c, o) in round.iter().zip(outs) {
        if let Some((o, _)) = o { w[c.d] = o }
    }
    tr.ev("sync", json!({}));
    round.clear();
}

/// every wire table, bootstraps with tables, key switches and rotations on shared keys
fn keyed<C: LWEModulusType, Q: NTTField>(tr: &Tr, r: &mut R, name: &str, c: &Cfg, k: &SecretKeyPack<C, Q>, ev: &Evaluator<C, Q>, rounds: usize)
where
    Q::Value: AsFrom<u64>,
{
    let mut ids = Ids::default();
    let none: [usize; 0] = [];
    tr.begin(json!({"kind": format!("keys {name} {}", steps_name(c.steps)), "wires": none}));
    let Some((br, ksl, ksr)) = tr.run("keys", || {
        (BlindRotationKey::generate(k, &mut *r), matches!(c.steps, Steps::BrMsKs).then(|| KeySwitchingLWEKey::generate(k, &mut *r)), matches!(c.steps, Steps::BrKsMs).then(|| KeySwitchingRLWEKey::generate(k, &mut *r)))
    }) else { return };
    let (br2, ksl2, ksr2) = (br.clone(), ksl.clone(), ksr.clone());
    let basis = k.parameters().blind_rotation_basis();
    let luts: Vec<_> = (0..3).map(|_| Polynomial::<Q>::new(vecf(r, c.dim))).collect();
    let small: Vec<LWE<C>> = (0..3).map(|_| any_lwe(r, c.n, (2 * c.dim as u64).min(c.q))).collect();
    let big: Vec<LWE<C>> = (0..3).map(|_| any_lwe(r, c.dim, c.q)).collect();
    let bigq: Vec<LWE<Q>> = (0..3).map(|_| LWE::new(vecf(r, c.dim), coeff(r))).collect();
    let rlwe: Vec<RLWE<Q>> = (0..3).map(|_| RLWE::new(Polynomial::new(vecf(r, c.dim)), Polynomial::new(vecf(r, c.dim)))).collect();
    let one = |op: usize, i: usize, j: usize, copy: bool| -> Option<(String, Vec<Value>, Vec<Value>, Value)> {
        let (b, l, q) = if copy { (&br2, &ksl2, &ksr2) } else { (&br, &ksl, &ksr) };
        let a = || pl(luts[j].as_slice());
        match op {
            0 => { let o = ev.bootstrap(small[i].clone(), luts[j].clone()); Some(("boot".into(), vec![lwc(&small[i]), a()], vec![lwc(&small[i]), a()], lwc(&o))) }
            1 => { let x0 = lwc(&small[i]); let o = b.blind_rotate(luts[j].clone(), &small[i], basis); Some(("br".into(), vec![x0, a()], vec![lwc(&small[i]), a()], rl(&o))) }
            2 => { let o = l.as_ref()?.key_switch_for_lwe(big[i].clone()); Some(("kst".into(), vec![lwc(&big[i])], vec![lwc(&big[i])], lwc(&o))) }
            3 => { let o = q.as_ref()?.key_switch_for_lwe(bigq[i].clone()); Some(("ksl".into(), vec![lw(&bigq[i])], vec![lw(&bigq[i])], lw(&o))) }
            _ => { let o = q.as_ref()?.key_switch_for_rlwe(rlwe[i].clone()); Some(("ksr".into(), vec![rl(&rlwe[i])], vec![rl(&rlwe[i])], lw(&o))) }
        }
    };
    for _ in 0..rounds {
        let picks: Vec<(usize, usize, usize, bool)> = (0..r.gen_range(1..5)).map(|_| (r.gen_range(0..5), r.gen_range(0..3), r.gen_range(0..3), r.gen())).collect();
        tr.flush();
        let bar = Barrier::new(picks.len());
        let outs: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = picks.iter().map(|p| { let (bar, one) = (&bar, &one); s.spawn(move || { bar.wait(); caught(|| one(p.0, p.1, p.2, p.3)) }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for o in outs {
            match o {
                Err(m) => tr.ev("panic", json!({"msg": m})),
                Ok(None) => {}
                Ok(Some((g, a, b, o))) => {
                    let (a, b): (Vec<_>, Vec<_>) = (a.into_iter().map(|x| ids.of(x)).collect(), b.into_iter().map(|x| ids.of(x)).collect());
                    let o = ids.of(o);
                    tr.ev("side", json!({"g": g, "th": 0, "d": 0, "src": a, "args": a, "after": b, "res": o}));
                }
            }
        }
    }
}

/// one evaluator used very often
fn long<C: LWEModulusType, Q: NTTField>(tr: &Tr, r: &mut R, name: &str, c: &Cfg, ev: &Evaluator<C, Q>, num: usize) {
    let mut ids = Ids::default();
    let none: [usize; 0] = [];
    tr.begin(json!({"kind": format!("long {name} {}", steps_name(c.steps)), "wires": none}));
    let fixed: Vec<LWE<C>> = (0..6).map(|_| any_lwe::<C>(r, c.n, c.q)).collect();
    for i in 0..num {
        let g = ["nand", "and", "or", "nor", "xor", "xnor", "majority", "not"][r.gen_range(0..8)];
        let src = [r.gen_range(0..6), r.gen_range(0..6), r.gen_range(0..6)];
        let c = Call { th: 0, g: g.into(), d: 0, src };
        let x = [fixed[src[0]].clone(), fixed[src[1]].clone(), fixed[src[2]].clone()];
        let o = single(ev, &c, &x);
        // the first calls, the last ones, and a share of those between
        if i < 300 || i + 300 > num || i % 16 == 0 { log(tr, &mut ids, "side", &c, &x, &o) }
    }
}

/// Everything a parameter set computes from one seed: keys, ciphertexts, gates, bootstraps, decryptions.
fn solo<C: LWEModulusType, Q: NTTField>(seed: u64, set: u64, c: &Cfg) -> Vec<(String, Vec<Value>, Value)>
where
    Q::Value: AsFrom<u64>,
{
    let r = &mut rng(seed, 2000 + set);
    let mut out = vec![];
    let done = caught(|| {
        let k = SecretKeyPack::<C, Q>::new(c.params(), &mut *r);
        let ev = Evaluator::new(&k, &mut *r);
        out.push(("key".to_string(), vec![json!(set)], json!([k.lwe_secret_key().iter().map(|x| w64(*x)).collect::<Vec<_>>(), k.ring_secret_key().iter().map(|x| v64(*x)).collect::<Vec<_>>()])));
        let mut w: Vec<LWE<C>> = (0..4).map(|i| if i < 2 { k.encrypt(i as u8, &mut *r) } else { any_lwe(r, c.n, c.q) }).collect();
        for (i, x) in w.iter().enumerate() { out.push(("encrypt".to_string(), vec![json!(i)], lwc(x))) }
        for g in ["nand", "mux", "majority", "xor", "not", "and", "or", "nor", "xnor"] {
            let (i, j, l) = (r.gen_range(0..w.len()), r.gen_range(0..w.len()), r.gen_range(0..w.len()));
            let o = eval(&ev, g, &w[i], &w[j], &w[l]);
            out.push((g.to_string(), [i, j, l][..arity(g)].iter().map(|i| lwc(&w[*i])).collect(), lwc(&o)));
            out.push(("decrypt".to_string(), vec![lwc(&o)], json!(k.decrypt::<u8>(&o))));
            w.push(o);
        }
        let lut = Polynomial::<Q>::new(vecf(r, c.dim));
        let o = ev.bootstrap(w[3].clone(), lut.clone());
        out.push(("bootstrap".to_string(), vec![lwc(&w[3]), pl(lut.as_slice())], lwc(&o)));
    });
    if let Err(m) = done { out.push(("panic".into(), vec![], json!(m))) }
    out
}
fn solos(seed: u64, only: Option<u64>, each: &mut dyn FnMut(u64, String, Vec<(String, Vec<Value>, Value)>)) {
    let mut set = 0;
    macro_rules! go { ($cost:literal $c:ident $q:ident $set:expr) => {{
        set += 1;
        if $cost < 2 && only.is_none_or(|x| x == set) {
            let c: Cfg = $set;
            let c = Cfg { sig: (3.2, 6.4, 3.2), ..c };
            each(set, format!("{} {} n={} q={} N={}", stringify!($c $q), steps_name(c.steps), c.n, c.q, c.dim), solo::<$c, $q>(seed, set, &c));
        }
    }} }
    sets!(go);
}
/// the worker: one parameter set in a process that never saw another one
pub fn worker(a: &Args, tr: &Tr) {
    let set = a.inputs[0].parse().unwrap();
    solos(a.seed, Some(set), &mut |_, _, v| {
        for (g, x, o) in v { tr.ev("side", json!({"g": g, "x": x, "o": o})) }
    });
}
/// All parameter sets one after another, forwards and backwards, against each one alone in its own process.
fn company(a: &Args, tr: &Tr) {
    let mut got: HashMap<u64, (String, Vec<Vec<(String, Vec<Value>, Value)>>)> = HashMap::new();
    let mut order = vec![];
    solos(a.seed, None, &mut |i, name, v| { order.push(i); got.entry(i).or_insert((name, vec![])).1.push(v) });
    for i in order.iter().rev() { solos(a.seed, Some(*i), &mut |i, _, v| got.get_mut(&i).unwrap().1.push(v)) }
    let exe = std::env::current_exe().unwrap();
    let alone: Vec<_> = order.iter().map(|i| {
        let f = format!("{}.{i}", a.out);
        let h = std::process::Command::new(&exe).args(["C20w", "--seed", &a.seed.to_string(), "--in", &i.to_string(), "--out", &f]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap();
        (*i, f, h)
    }).collect();
    for (i, f, mut h) in alone {
        let st = h.wait().unwrap();
        let (name, mine) = &got[&i];
        let mut ids = Ids::default();
        let none: [usize; 0] = [];
        tr.begin(json!({"kind": format!("alone and in company: {name}"), "wires": none}));
        if !st.success() { tr.ev("worker failed", json!({})); }
        let mut put = |g: &str, x: &[Value], o: &Value| {
            if g == "panic" { return tr.ev("panic", json!({"msg": o})) }
            let x: Vec<usize> = x.iter().map(|v| ids.of(v.clone())).collect();
            let o = ids.of(o.clone());
            tr.ev("side", json!({"g": g, "th": 0, "d": 0, "src": x, "args": x, "after": x, "res": o}));
        };
        for v in behaviours(&f) { put(v["g"].as_str().unwrap(), v["x"].as_array().unwrap(), &v["o"]) }
        for v in mine { for (g, x, o) in v { put(g, x, o) } }
        let _ = std::fs::remove_file(&f);
    }
}

pub fn run(a: &Args, tr: &Tr) {
    company(a, tr);
    let r = &mut rng(a.seed, 20);
    let beh = behaviours(&a.inputs[0]);
    let mut bi = beh.iter().cycle();
    for round in 0..if a.thorough { 8 } else { 1 } {
        macro_rules! go { ($cost:literal $c:ident $q:ident $set:expr) => {{
            if $cost == 0 || round < 1 {
                let c: Cfg = $set;
                // noise everywhere: nothing here depends on its size
                let c = Cfg { sig: (3.2, 6.4, 3.2), ..c };
                match tr.run("keys", || {
                    let k = SecretKeyPack::<$c, $q>::new(c.params(), &mut *r);
                    let ev = Evaluator::new(&k, &mut *r);
                    (k, ev)
                }) {
                    None => { tr.begin(json!({"kind": "keys", "wires": []})); tr.ev("keys failed", json!({})); }
                    Some((k, ev)) => {
                        let name = stringify!($c $q);
                        for _ in 0..[6, 2, 1][$cost] { history(tr, r, name, &c, &k, &ev, bi.next().unwrap(), [40, 30, 8][$cost]); }
                        keyed(tr, r, name, &c, &k, &ev, [60, 30, 4][$cost]);
                        if $cost == 0 { long(tr, r, name, &c, &ev, if a.thorough { 6000 } else { 1200 }); }
                    }
                }
            }
        }} }
        sets!(go);
    }
    let d = Cfg { n: 1024, t: 4, q: 1024, lk: LK::Ternary, dim: 1024, rk: RK::Ternary, br: 3, steps: Steps::BrKsMs, ks: 1, sig: (3.2, 6.4, 6.4) };
    let e = Cfg { n: 512, t: 4, q: 1 << 14, br: 7, steps: Steps::BrMsKs, ks: 7, ..d };
    for (name, c, p, len) in [("default", d, *DEFAULT_TERNARY_128_BITS_PARAMETERS, 4), ("custom", e, *CUSTOM_TERNARY_128_BITS_PARAMETERS, 10)] {
        let k = SecretKeyPack::new(p, &mut *r);
        let ev = Evaluator::new(&k, &mut *r);
        history(tr, r, name, &c, &k, &ev, bi.next().unwrap(), if a.thorough { 40 } else { len });
    }
}
