//! Field definitions (GenDerive) given to the compiler: writes a crate with one definition per file, lets cargo
//! build it, and takes files with errors out until the rest compiles; that rest is run.
use harness::*;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{exit, Command};

fn setup_error(s: &str) -> ! {
    println!("{s}");
    exit(77)
}

// ------------------------------------------------------------------ choosing literals
fn powmod(mut b: u128, mut e: u128, m: u128) -> u128 {
    let mul = |mut x: u128, mut y: u128| { let mut r = 0; while y > 0 { if y & 1 == 1 { r = (r + x) % m; } x = 2 * x % m; y >>= 1; } r };
    let mut r = 1 % m;
    b %= m;
    while e > 0 { if e & 1 == 1 { r = mul(r, b); } b = mul(b, b); e >>= 1; }
    r
}
fn prime(n: u128) -> bool {
    const BASES: [u128; 12] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37];
    if n < 2 { return false; }
    for p in BASES { if n % p == 0 { return n == p; } }
    BASES.iter().all(|&a| strong(a, n))
}
fn strong(a: u128, n: u128) -> bool {
    let s = (n - 1).trailing_zeros();
    let mut x = powmod(a, (n - 1) >> s, n);
    x == 1 || (0..s).any(|_| { let y = x; x = powmod(x, 2, n); y == n - 1 })
}
fn literal(r: &mut R, kind: &str, w: u32) -> u128 {
    let top = 1u128 << (w - 2);
    match kind {
        "zero" => 0,
        "one" => 1,
        "two" => 2,
        "three" => 3,
        "small" => r.gen_range(2..top.min(200)),
        "random" => r.gen_range(2..top),
        "odd" => r.gen_range(1..top / 2) * 2 + 1,
        "prime" => loop { let s = r.gen_range(0..w / 2); let x = r.gen_range(2..top >> s); if prime(x) { break x; } },
        "ntt" => {
            let j = r.gen_range(2..w - 3);
            (0..4000).map(|_| (r.gen_range(1..(top >> j).max(2)) << j) + 1).find(|x| *x < top && prime(*x)).unwrap_or(17)
        }
        "top" => top - 1,
        "topm" => top - r.gen_range(2..6),
        "topprime" => (2..top).rev().find(|x| prime(*x)).unwrap(),
        // composites that many bases take for primes
        "liar" => {
            // half of them pass for base 2, which is always tried
            let two = r.gen();
            (0..60000).find_map(|_| {
                let k = r.gen_range(2..1u128 << (w / 2 - 1));
                let (p, q) = (k + 1, k * r.gen_range(2..4) + 1);
                (p * q < top && (two || p % 4 == 3) && prime(p) && prime(q) && (!two || strong(2, p * q))).then_some(p * q)
            }).unwrap_or(if w > 8 { 2047 } else { 49 })
        }
        "pow2" => 1 << r.gen_range(1..w - 2),
        "spare1" => top,
        "spare1r" => r.gen_range(top..2 * top),
        "spare0" => 2 * top,
        "spare0r" => r.gen_range(2 * top..4 * top),
        "max" => 4 * top - 1,
        "over" => 4 * top,
        "overr" => 4 * top + r.gen_range(0..top),
        _ => setup_error(kind),
    }
}
fn text(r: &mut R, x: u128, note: &str) -> String {
    match note {
        "under" => { let s = x.to_string(); let mut o = String::new(); for (i, c) in s.chars().enumerate() { if i > 0 && r.gen_bool(0.4) { o.push('_'); } o.push(c); } o }
        "hex" => format!("{x:#x}"),
        "oct" => format!("{x:#o}"),
        "bin" => format!("{x:#b}"),
        _ => x.to_string(),
    }
}

struct Def {
    head: Value,
    src: String,
}
fn definition(r: &mut R, d: &Value, i: usize) -> Def {
    let s = |k: usize| d[k].as_str().unwrap();
    let (shape, ty, attr, mag, note, layout) = (s(0), s(1), s(2), s(3), s(4), d[5].as_i64().unwrap());
    let w = match ty { "u8" => 8, "u16" => 16, "u64" => 64, _ => 32 };
    let x = literal(r, mag, w);
    let lit = text(r, x, note);
    let at = match attr {
        "int" => format!("#[modulus = {lit}]"),
        "missing" => String::new(),
        "string" => format!("#[modulus = \"{x}\"]"),
        "neg" => format!("#[modulus = -{x}]"),
        "float" => format!("#[modulus = {x}.0]"),
        "list" => format!("#[modulus({x})]"),
        "path" => "#[modulus]".into(),
        "ident" => "#[modulus = K]".into(),
        "bool" => "#[modulus = true]".into(),
        "char" => "#[modulus = 'a']".into(),
        "expr" => format!("#[modulus = {x} + 1]"),
        _ => setup_error(attr),
    };
    let vis = ["pub ", "pub(crate) ", "", "pub ", "pub ", "pub "][layout as usize];
    let inner = if layout == 4 { "pub " } else { "" };
    let body = match shape {
        "tuple1" => format!("{vis}struct F({inner}{ty});"),
        "tuple0" => format!("{vis}struct F();"),
        "tuple2" => format!("{vis}struct F({inner}{ty}, {ty});"),
        "named" => format!("{vis}struct F {{ v: {ty} }}"),
        "unit" => format!("{vis}struct F;"),
        "enum" => format!("{vis}enum F {{ A({ty}) }}"),
        "generic" => format!("{vis}struct F<const K: usize>({ty});"),
        _ => setup_error(shape),
    };
    let dv = match layout {
        1 => "#[derive(Field, Prime)]\n#[derive(DecomposableField)]\n#[derive(FheField, NTT)]",
        3 => "#[derive(NTT, FheField, DecomposableField, Prime, Field)]",
        _ => "#[derive(Field, Prime, DecomposableField, FheField, NTT)]",
    };
    let deco = match layout {
        2 => format!("{dv}\n/// A field.\n#[allow(dead_code)]\n{at}"),
        5 => format!("{dv}\n{at}\n#[repr(transparent)]"),
        _ => format!("{dv}\n{at}"),
    };
    let head = json!({"kind": format!("{body} {at}"), "shape": shape, "ty": ty, "attr": attr, "lit": limbs(x), "id": i});
    let mut src = String::from("#![allow(unused)]\nuse algebra::derive::*;\nuse algebra::{Field as _, ModulusConfig, NTTField, PrimeField};\nuse crate::fields::*;\nuse harness::*;\nuse serde_json::json;\nuse rand::Rng;\nconst K: u32 = 7681;\n");
    writeln!(src, "{deco}\n{body}").unwrap();
    writeln!(src, r####"
pub fn facts(tr: &Tr, r: &mut R, a: &Args) {{
    let head: serde_json::Value = serde_json::from_str(r###"{head}"###).unwrap();
    tr.begin(head.clone());
    tr.ev("verdict", json!({{"accepted": true}}));
    let l = |x: F| limbs(v64(x) as u128);
    if let Some((m, bm, mx, neg, tm, prime)) = tr.run("constants", || (F::MODULUS_VALUE, <F as ModulusConfig>::MODULUS.value(), F::max(), F::neg_one(), <F as algebra::ConstNegOne>::NEG_ONE, (0..40).filter(|_| F::is_prime_field()).count())) {{
        tr.ev("facts", json!({{"m": limbs(m as u128), "bm": limbs(bm as u128), "max": l(mx), "neg": l(neg), "tmax": l(tm), "prime": prime, "w": std::mem::size_of::<F>() * 8}}));
    }}
    for i in 0..24 {{
        let m = F::MODULUS_VALUE as u64;
        let x = match i {{ 0 => m, 1 => m - 1, 2 => m + 1, 3 => u64::MAX, 4 => 2 * m, 5 => 1 << 63, _ => r.gen::<u64>() >> r.gen_range(0..64) }};
        if let Some(y) = tr.run("from", || F::from(x as usize)) {{ tr.ev("conv", json!({{"x": limbs(x as u128), "out": l(y)}})); }}
    }}
    if {is_prime} {{
        if let Some(ok) = tr.run("tables", || (0..=if a.thorough {{ 18 }} else {{ 16 }}).map(|k| F::get_ntt_table(k).is_ok()).collect::<Vec<_>>()) {{ tr.ev("tables", json!({{"ok": ok}})); }}
        crate::c15::field::<F>(tr, r, "F{i}", if a.thorough {{ 60 }} else {{ 8 }});
    }}
}}
pub fn ntt(tr: &Tr, r: &mut R, a: &Args) {{
    if {is_prime} {{ for k in 0..=6 {{ if F::get_ntt_table(k).is_ok() && (k < 4 || a.thorough || r.gen_bool(0.3)) {{ crate::c12::one::<F>(a, tr, r, "F{i}", k); }} }} }}
}}
pub fn dec(tr: &Tr, r: &mut R, _a: &Args) {{ crate::c09::field::<F>(tr, r, "F{i}"); }}
"####, is_prime = prime(x)).unwrap();
    Def { head, src }
}

// ------------------------------------------------------------------ the compiler
fn files(v: &Value, out: &mut BTreeSet<usize>) {
    match v {
        Value::Object(o) => {
            if let Some(f) = o.get("file_name").and_then(|f| f.as_str()) {
                let n = f.rsplit('/').next().unwrap();
                if let Some(i) = n.strip_prefix('d').and_then(|n| n.strip_suffix(".rs")).and_then(|n| n.parse().ok()) { out.insert(i); }
            }
            o.values().for_each(|x| files(x, out));
        }
        Value::Array(a) => a.iter().for_each(|x| files(x, out)),
        _ => {}
    }
}
fn cargo(dir: &Path, target: &Path) -> Result<(), BTreeSet<usize>> {
    let home = std::env::var("HOME").unwrap_or("/root".into());
    let o = Command::new("cargo").args(["build", "--offline", "--message-format=json"]).current_dir(dir)
        .env("CARGO_TARGET_DIR", target).env("CARGO_NET_OFFLINE", "true").env("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
        .env("PATH", format!("{home}/.cargo/bin:/root/.cargo/bin:{}", std::env::var("PATH").unwrap_or("/usr/bin:/bin".into())))
        .env("HOME", home).env_remove("RUSTFLAGS").env_remove("RUSTC_WRAPPER").env_remove("CARGO_BUILD_TARGET").output();
    let o = o.unwrap_or_else(|e| setup_error(&e.to_string()));
    if o.status.success() { return Ok(()); }
    let mut bad = BTreeSet::new();
    let mut msgs = String::new();
    for line in String::from_utf8_lossy(&o.stdout).lines() {
        let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
        if v["reason"] == "compiler-message" && v["message"]["level"] == "error" {
            files(&v["message"], &mut bad);
            msgs.push_str(v["message"]["rendered"].as_str().unwrap_or(""));
        }
    }
    if bad.is_empty() { setup_error(&format!("probe crate does not build: {msgs}\n{}", String::from_utf8_lossy(&o.stderr))); }
    Err(bad)
}

fn main() {
    let a = args();
    let out = PathBuf::from(&a.out);
    let dir = out.parent().unwrap().join("derive");
    let probe = dir.join("probe");
    let run_probe = |sub: &str, out: &str| {
        Command::new(&probe).args([sub, "--seed", &a.seed.to_string(), "--tier", if a.thorough { "thorough" } else { "quick" }, "--out", out]).status()
            .map(|s| s.code().unwrap_or(139)).unwrap_or(77)
    };
    if a.sub != "C22" { exit(run_probe(&a.sub, &a.out)); }
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("src")).unwrap();
    let here = env!("CARGO_MANIFEST_DIR");
    let mut r = rng(a.seed, 22);
    let mut defs = vec![];
    for p in &a.inputs {
        for b in behaviours(p) {
            for d in b.as_array().unwrap() {
                if d[0] != "end" { let i = defs.len(); defs.push(definition(&mut r, d, i)); }
            }
        }
    }
    let own = std::fs::read_to_string(format!("{here}/Cargo.toml")).unwrap();
    let cut = own.find("[features]").unwrap()..own.find("[patch").unwrap();
    let toml = own.replace(&own[cut], "")
        .replace("name = \"harness\"", "name = \"probe\"").replace("path = \"stub\"", &format!("path = \"{here}/stub\""))
        .replace("[dependencies]", &format!("[dependencies]\nharness = {{ path = \"{here}\" }}"))
        + "\n[profile.dev.package.probe]\nopt-level = 0\n";
    std::fs::write(dir.join("Cargo.toml"), toml).unwrap();
    let _ = std::fs::copy(format!("{here}/Cargo.lock"), dir.join("Cargo.lock"));
    for (i, d) in defs.iter().enumerate() { std::fs::write(dir.join(format!("src/d{i}.rs")), &d.src).unwrap(); }
    let target = std::env::current_exe().unwrap().parent().unwrap().parent().unwrap().to_path_buf();
    let mut left: BTreeSet<usize> = (0..defs.len()).collect();
    let mut rounds = 0;
    loop {
        let mut m = String::from("#![allow(unused, unexpected_cfgs)]\nuse harness::*;\n");
        for f in ["fields", "c09", "c12", "c15"] { writeln!(m, "#[path = \"{here}/src/{f}.rs\"] mod {f};").unwrap(); }
        for i in &left { writeln!(m, "mod d{i};").unwrap(); }
        m.push_str("fn main() {\n let a = args(); let tr = Tr::new(&a.out); let mut r = rng(a.seed, 23);\n match a.sub.as_str() {\n");
        for f in ["facts", "ntt", "dec"] {
            writeln!(m, "  \"{f}\" => {{ {} }}", left.iter().map(|i| format!("d{i}::{f}(&tr, &mut r, &a);")).collect::<String>()).unwrap();
        }
        m.push_str("  _ => std::process::exit(77),\n }\n}\n");
        std::fs::write(dir.join("src/main.rs"), m).unwrap();
        rounds += 1;
        match cargo(&dir, &target) {
            Ok(()) => break,
            Err(bad) => {
                let n = left.len();
                left.retain(|i| !bad.contains(i));
                if left.len() == n || rounds > 12 { setup_error("errors that belong to no definition"); }
            }
        }
    }
    std::fs::copy(target.join("debug/probe"), &probe).unwrap();
    println!("{} definitions, {} accepted, {rounds} builds", defs.len(), left.len());
    let tmp = dir.join("facts.ndjson");
    let rc = run_probe("facts", tmp.to_str().unwrap());
    {
        let tr = Tr::new(&a.out);
        for (i, d) in defs.iter().enumerate() {
            if !left.contains(&i) {
                tr.begin(d.head.clone());
                tr.ev("verdict", json!({"accepted": false}));
            }
        }
    }
    let mut all = std::fs::read(&a.out).unwrap();
    all.extend(std::fs::read(&tmp).unwrap_or_default());
    std::fs::write(&a.out, all).unwrap();
    exit(rc)
}
