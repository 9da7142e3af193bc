//! Concurrent requests to the shared transform tables (C13).  Every history runs in a process of its
//! own, so that its first requests meet caches that are not set up.
use algebra::derive::*;
use algebra::transformation::{AbstractNTT, NTTTable};
use algebra::{AsFrom, Field, NTTField, Polynomial};
use crate::fields::{m128, pl, v64};
use harness::*;
#[path = "../fields.rs"]
#[allow(dead_code)]
mod fields;
use rand::Rng;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier, Mutex};

macro_rules! fields { ($($n:ident $t:ident = $m:literal;)*) => {
    $(
        #[derive(Field, Prime, DecomposableField, FheField, NTT)]
        #[modulus = $m]
        pub struct $n($t);
    )*
    fn session(i: usize, log: &Log, r: &mut R, prog: &Value) {
        let mut k = 0;
        $( if i % COUNT == k { return history::<$n>(stringify!($n), log, r, prog) } k += 1; )*
        let _ = k;
    }
    fn storm(i: usize, log: &Log, r: &mut R) {
        let mut k = 0;
        $( if i % COUNT == k { return all_at_once::<$n>(stringify!($n), log, r, if cfg!(miri) { (3, 3, 3) } else { (8, 6, 5) }) } k += 1; )*
        let _ = k;
    }
    const COUNT: usize = [$(stringify!($n)),*].len();
} }
fields! {
    F0 u32 = 12289; F1 u32 = 132120577; F2 u64 = 1125899904679937; F3 u16 = 7681;
    F4 u32 = 7681; F5 u64 = 12289; F6 u32 = 1073479681; F7 u8 = 41;
    G0 u32 = 12289; G1 u32 = 132120577; G2 u64 = 1125899904679937; G3 u16 = 15361;
    G4 u32 = 15361; G5 u64 = 7681; G6 u32 = 1073479681; G7 u8 = 17;
}

/// lines go to stdout at once, so that a crash loses nothing
struct Log(Mutex<()>);
impl Log {
    fn ev(&self, op: &str, v: Value) {
        let s = serde_json::to_string(&v).unwrap();
        let rest = s.trim_start_matches('{');
        let line = format!("{{\"op\":\"{op}\"{}{rest}\n", if rest.starts_with('}') { "" } else { "," });
        let _g = self.0.lock().unwrap();
        let mut o = std::io::stdout().lock();
        o.write_all(line.as_bytes()).unwrap();
        o.flush().unwrap();
    }
}

/// tables are told apart by where they live; every one seen is kept alive
struct Seen<F: NTTField>(Mutex<Vec<Arc<F::Table>>>);
impl<F: NTTField> Seen<F> {
    fn id(&self, t: &Arc<F::Table>) -> usize {
        let mut v = self.0.lock().unwrap();
        match v.iter().position(|x| Arc::ptr_eq(x, t)) {
            Some(i) => i,
            None => { v.push(Arc::clone(t)); v.len() - 1 }
        }
    }
}

fn sizes<F: Field>() -> (Vec<u32>, Vec<u32>) {
    let top = (m128::<F>() - 1).trailing_zeros();
    let good = (0..top.min(6)).collect();
    (good, vec![top, top + 1, 31, 32, 62, 63, 64, 100])
}

/// what a table that was returned does: everything for small sizes, two values and the way back for large ones
fn table<F: NTTField<Table = NTTTable<F>>>(th: usize, id: usize, t: &NTTTable<F>, n: u32, x: &[F]) -> Value
where
    F::Value: AsFrom<u64>,
    NTTTable<F>: AbstractNTT<F>,
{
    let small = n <= 6;
    let x = if small { x[..1 << n].to_vec() } else { let mut v = vec![F::zero(); 1 << n]; v[..2].copy_from_slice(&x[..2]); v };
    let mut v = x.clone();
    t.transform_slice(&mut v);
    let mut b = v.clone();
    t.inverse_transform_slice(&mut b);
    let k = if small { x.len() } else { 2 };
    json!({"th": th, "ok": 1, "id": id, "root": limbs(v64(t.root()) as u128), "size": v.len(), "x": pl(&x[..k]), "fwd": pl(&v[..k]), "back": pl(&b[..k]), "rest": b[k..].iter().all(|c| *c == F::zero()) as u32})
}

/// a size too large to be checked value by value
fn large<F: Field>(r: &mut R) -> Option<u32> {
    let top = (m128::<F>() - 1).trailing_zeros();
    (top > 7 && !cfg!(miri)).then(|| r.gen_range(7..top.min(15)))
}

fn request<F: NTTField<Table = NTTTable<F>>>(log: &Log, seen: &Seen<F>, th: usize, kind: &str, sz: &[u32], x: &[F])
where
    F::Value: AsFrom<u64>,
    NTTTable<F>: AbstractNTT<F>,
{
    log.ev("inv", json!({"th": th, "kind": kind, "sizes": sz}));
    let res = caught(|| match kind {
        "get" => match F::get_ntt_table(sz[0]) {
            Err(_) => json!({"th": th, "ok": 0}),
            Ok(t) => table(th, seen.id(&t), &t, sz[0], x),
        },
        "init" => json!({"th": th, "ok": F::init_ntt_table(sz).is_ok() as u32}),
        _ => {
            let p = Polynomial::<F>::new(x[..1 << sz[0]].to_vec());
            let q = p.clone().into_ntt_polynomial();
            let b = q.clone().into_native_polynomial();
            json!({"th": th, "ok": 1, "x": pl(p.as_slice()), "fwd": pl(q.as_slice()), "back": pl(b.as_slice())})
        }
    });
    match res {
        Ok(v) => log.ev("ret", v),
        Err(m) => log.ev("panic", json!({"th": th, "in": kind, "msg": m})),
    }
}

fn points<F: Field>(r: &mut R) -> Vec<F>
where
    F::Value: AsFrom<u64>,
{
    (0..64).map(|_| F::new(<F::Value as AsFrom<u64>>::as_from(r.gen::<u64>() % m128::<F>() as u64))).collect()
}

fn history<F: NTTField<Table = NTTTable<F>>>(name: &str, log: &Log, r: &mut R, prog: &Value)
where
    F::Value: AsFrom<u64>,
    NTTTable<F>: AbstractNTT<F>,
    F: Send + Sync,
    NTTTable<F>: Send + Sync,
{
    log.ev("begin", json!({"kind": name, "m": limbs(m128::<F>())}));
    let (good, bad) = sizes::<F>();
    let shift = r.gen_range(0..4);
    let big = large::<F>(r);
    let size = |n: usize| if n < 5 { good[(n + shift) % good.len()] } else { bad[(n - 5 + shift) % bad.len()] };
    let x = points::<F>(r);
    let seen = Seen::<F>(Mutex::new(vec![]));
    let mut queues: Vec<Vec<(String, Vec<u32>)>> = vec![vec![]; 4];
    for st in prog.as_array().unwrap() {
        let ix = |i: usize| st[i].as_u64().unwrap() as usize;
        let k = st[0].as_str().unwrap();
        if k != "sync" {
            if k == "many" {
                // any of the supported sizes, in any order, perhaps repeated
                let most = if cfg!(miri) { 5 } else { 10 };
                let mut s: Vec<u32> = (0..ix(2)).map(|_| r.gen_range(0..=((m128::<F>() - 1).trailing_zeros() - 1).min(most))).collect();
                if ix(3) == 1 { *s.last_mut().unwrap() = bad[r.gen_range(0..bad.len())] }
                queues[ix(1)].push(("init".into(), s));
                continue;
            }
            let size = |n: usize| if n == 4 && k != "poly" { big.unwrap_or(size(n)) } else { size(n) };
            let s = if k == "init" { vec![size(ix(2)), size(ix(3))] } else { vec![size(ix(2))] };
            queues[ix(1)].push((k.into(), s));
            continue;
        }
        let n = queues.iter().filter(|q| !q.is_empty()).count();
        let bar = Barrier::new(n);
        std::thread::scope(|s| {
            for (th, q) in queues.iter().enumerate().filter(|q| !q.1.is_empty()) {
                let (bar, seen, x) = (&bar, &seen, &x);
                s.spawn(move || {
                    bar.wait();
                    for (k, sz) in q { request::<F>(log, seen, th, k, sz, x) }
                });
            }
        });
        log.ev("sync", json!({}));
        queues.iter_mut().for_each(|q| q.clear());
    }
}

/// many first requests as close together as possible; logged only afterwards
fn all_at_once<F: NTTField<Table = NTTTable<F>>>(name: &str, log: &Log, r: &mut R, (threads, requests, top): (usize, usize, usize))
where
    F::Value: AsFrom<u64>,
    NTTTable<F>: AbstractNTT<F>,
    F: Send + Sync,
    NTTTable<F>: Send + Sync,
{
    log.ev("begin", json!({"kind": name, "m": limbs(m128::<F>())}));
    let (mut good, bad) = sizes::<F>();
    good.truncate(top);
    good.extend(large::<F>(r));
    let x = points::<F>(r);
    let seen = Seen::<F>(Mutex::new(vec![]));
    let same = r.gen::<bool>();
    let plans: Vec<Vec<(&str, Vec<u32>)>> = (0..threads).map(|t| (0..requests).map(|i| {
        let n = good[(if same { i } else { r.gen_range(0..good.len()) }) % good.len()];
        match r.gen_range(0..8) { 0 => ("get", vec![bad[(i + t) % bad.len()]]), 1 => ("init", vec![n, good[(i + t) % good.len()]]), 2 => ("init", vec![n, bad[(i + t) % bad.len()]]), _ => ("get", vec![n]) }
    }).collect()).collect();
    let bar = Barrier::new(threads);
    let outs: Vec<Vec<Result<Option<Arc<NTTTable<F>>>, ()>>> = std::thread::scope(|s| {
        let hs: Vec<_> = plans.iter().map(|p| { let bar = &bar; s.spawn(move || {
            bar.wait();
            p.iter().map(|(k, sz)| if *k == "get" { F::get_ntt_table(sz[0]).map(Some).map_err(|_| ()) } else { F::init_ntt_table(sz).map(|_| None).map_err(|_| ()) }).collect()
        }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for (th, (p, o)) in plans.iter().zip(outs).enumerate() {
        if o.is_empty() { log.ev("panic", json!({"th": th})) }
        for ((k, sz), o) in p.iter().zip(o) {
            log.ev("inv", json!({"th": th, "kind": k, "sizes": sz}));
            log.ev("ret", match o {
                Err(()) => json!({"th": th, "ok": 0}),
                Ok(None) => json!({"th": th, "ok": 1}),
                Ok(Some(t)) => table(th, seen.id(&t), &t, sz[0], &x),
            });
        }
    }
    log.ev("sync", json!({}));
}

/// worker KIND INDEX SEED COUNT [PROGRAMS]: this process's caches are fresh
fn worker(v: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let num = |i: usize| v[i].parse::<usize>().unwrap();
    let (index, seed, count) = (num(1), num(2), num(3));
    let r = &mut rng(seed as u64, 1000 + index as u64);
    let log = Log(Mutex::new(()));
    let progs: Vec<Value> = if v.len() > 4 { behaviours(&v[4]) } else { vec![] };
    for i in 0..count {
        if v[0] == "storm" { storm(index + i, &log, r) } else { session(index + i, &log, r, &progs[(index * count + i) % progs.len()]) }
    }
}

fn main() {
    let v: Vec<String> = std::env::args().skip(1).collect();
    if v[0] == "worker" { return worker(&v[1..]) }
    let a = args();
    let mut out = std::fs::File::create(&a.out).unwrap();
    let exe = std::env::current_exe().unwrap();
    let (n_hist, n_storm) = if a.thorough { (400, 400) } else { (60, 60) };
    let jobs: Vec<(&str, usize)> = (0..n_hist).map(|i| ("history", i)).chain((0..n_storm).map(|i| ("storm", i))).collect();
    for (kind, i) in jobs {
        let mut c = Command::new(&exe);
        c.args(["worker", kind, &i.to_string(), &a.seed.to_string(), if kind == "storm" { "16" } else { "4" }, &a.inputs[0]]);
        let mut ch = c.stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        let mut o = ch.stdout.take().unwrap();
        let rd = std::thread::spawn(move || { let mut b = vec![]; let _ = o.read_to_end(&mut b); b });
        let t0 = std::time::Instant::now();
        let end = loop {
            if let Some(s) = ch.try_wait().unwrap() { break if s.success() { None } else { Some("crash") } }
            if t0.elapsed().as_secs() > 30 { let _ = ch.kill(); let _ = ch.wait(); break Some("hang") }
            std::thread::sleep(std::time::Duration::from_millis(1));
        };
        let mut b = rd.join().unwrap();
        b.truncate(b.iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1));
        if end.is_some() && b.is_empty() { b.extend(b"{\"op\":\"begin\",\"kind\":\"worker\",\"m\":[]}\n") }
        out.write_all(&b).unwrap();
        if let Some(e) = end { writeln!(out, "{{\"op\":\"{e}\"}}").unwrap(); return }
    }
}
