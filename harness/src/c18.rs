//! AES-128 and the seeded generator.
use algebra::utils::{Aes, Block, Prg};
use harness::*;
use rand::{Rng, RngCore, SeedableRng};
use serde_json::{json, Value};

fn b16(b: Block) -> Vec<u8> {
    let x: [u8; 16] = b.into();
    x.to_vec()
}
fn many<const N: usize>(aes: &Aes, v: &[Block]) -> Vec<Block> {
    let mut x = [Block::ZERO; N];
    x.copy_from_slice(v);
    aes.encrypt_many_blocks(x).to_vec()
}

fn aes(a: &Args, tr: &Tr, r: &mut R) {
    let mut keys: Vec<[u8; 16]> = vec![[0; 16], [255; 16], core::array::from_fn(|i| i as u8)];
    for i in 0..(if a.thorough { 400 } else { 24 }) {
        let mut k = [0u8; 16];
        if i < 8 {
            k[i * 2] = 1 << i; // single-bit keys
        } else {
            r.fill_bytes(&mut k);
        }
        keys.push(k);
    }
    for (ki, k) in keys.iter().enumerate() {
        tr.begin(json!({"key": k, "kind": "aes"}));
        let Some(aes) = tr.run("Aes::new", || Aes::new(Block::from(*k))) else { continue };
        let mut blocks: Vec<Block> = (0..20).map(|_| Block::from(r.gen::<u128>())).collect();
        blocks[0] = Block::ZERO;
        blocks[1] = Block::from(u128::MAX);
        let emit = |form: &str, ins: &[Block], out: &[Block]| {
            let i: Vec<_> = ins.iter().map(|b| b16(*b)).collect();
            let o: Vec<_> = out.iter().map(|b| b16(*b)).collect();
            tr.ev("enc", json!({"form": form, "ins": i, "out": o}));
        };
        for b in &blocks[..3] {
            if let Some(o) = tr.run("encrypt_block", || aes.encrypt_block(*b)) {
                emit("block", &[*b], &[o]);
            }
        }
        macro_rules! many_n { ($($n:literal)*) => {$(
            if ki % 4 == $n % 4 || a.thorough {
                if let Some(o) = tr.run("encrypt_many_blocks", || many::<$n>(&aes, &blocks[20 - $n..])) {
                    emit("many", &blocks[20 - $n..], &o);
                }
            })*} }
        many_n!(1 2 3 4 5 7 8 9 16);
        // slices of every length 0..=20: whole batches of eight and every remainder
        if ki == 3 {
            // long slices and a large batch
            let more: Vec<Block> = (0..300).map(|_| Block::from(r.gen::<u128>())).collect();
            for n in [31usize, 32, 33, 64, 65, 128, 131, 257, 300] {
                let mut s = more[..n].to_vec();
                if tr.run("encrypt_block_slice", || aes.encrypt_block_slice(&mut s)).is_some() {
                    emit("slice", &more[..n], &s);
                }
            }
            if let Some(o) = tr.run("encrypt_many_blocks", || many::<33>(&aes, &more[..33])) { emit("many", &more[..33], &o); }
            if let Some(o) = tr.run("encrypt_many_blocks", || many::<100>(&aes, &more[..100])) { emit("many", &more[..100], &o); }
        }
        let ls: Vec<usize> = if a.thorough || ki < 2 { (0..=20).collect() } else { vec![ki % 21, (ki * 5 + 8) % 21] };
        for n in ls {
            let mut s = blocks[..n].to_vec();
            if tr.run("encrypt_block_slice", || aes.encrypt_block_slice(&mut s)).is_some() {
                emit("slice", &blocks[..n], &s);
            }
        }
    }
}

fn block_ops(a: &Args, tr: &Tr, r: &mut R) {
    tr.begin(json!({"key": vec![0; 16], "kind": "block"}));
    for _ in 0..(if a.thorough { 300 } else { 40 }) {
        let (x, y): (u128, u128) = (r.gen(), if r.gen_bool(0.2) { 0 } else { r.gen() });
        let (bx, by) = (Block::from(x), Block::from(y));
        let (vx, vy) = (x.to_le_bytes().to_vec(), y.to_le_bytes().to_vec());
        let mut outs = vec![("xor", bx ^ by), ("and", bx & by), ("or", bx | by)];
        let mut t = bx;
        t ^= by;
        outs.push(("xor", t));
        t = bx;
        t &= by;
        outs.push(("and", t));
        t = bx;
        t |= by;
        outs.push(("or", t));
        outs.push(("id", Block::new(&x.to_le_bytes())));
        outs.push(("id", Block::from([x as u64, (x >> 64) as u64])));
        outs.push(("id", Block::try_from_slice(&x.to_le_bytes()).unwrap_or_default()));
        outs.push(("id", Block::from(u128::from(bx))));
        let w: [u64; 2] = bx.into();
        outs.push(("id", Block::from(w)));
        let mut m = Block::default();
        m.as_mut().copy_from_slice(bx.as_ref());
        outs.push(("id", m));
        for (k, o) in outs {
            tr.ev("blk", json!({"k": k, "x": vx, "y": vy, "out": b16(o)}));
        }
        tr.ev("blkeq", json!({"x": vx, "y": vy, "eq": bx == by}));
        let z = Block::from(x ^ (1u128 << r.gen_range(0..128)));
        tr.ev("blkeq", json!({"x": vx, "y": b16(z), "eq": bx == z}));
        tr.ev("blkeq", json!({"x": vx, "y": vx, "eq": bx == Block::from(x)}));
    }
    for n in 0..20usize {
        tr.ev("slice", json!({"n": n, "some": Block::try_from_slice(&vec![7u8; n]).is_some()}));
    }
}

fn k0() -> [u8; 16] { [0; 16] }
fn read(g: &mut Prg, k: &str, n: usize) -> Vec<u8> {
    match k {
        "u32" => g.next_u32().to_le_bytes().to_vec(),
        "u64" => g.next_u64().to_le_bytes().to_vec(),
        "block" => b16(g.random_block()),
        "bool" => vec![g.random_bool() as u8],
        "byte" => vec![g.random_byte()],
        "fill" => { let mut v = vec![0; n]; g.fill_bytes(&mut v); v }
        "tryfill" => { let mut v = vec![0; n]; g.try_fill_bytes(&mut v).unwrap(); v }
        "bytes" => { let mut v = vec![0; n]; g.random_bytes(&mut v); v }
        "blocks" => { let mut v = vec![Block::ZERO; n]; g.random_blocks(&mut v); v.iter().flat_map(|b| b16(*b)).collect() }
        "bools" => { let mut v = vec![false; n]; g.random_bools(&mut v); v.iter().map(|b| *b as u8).collect() }
        _ => unreachable!(),
    }
}

/// Replays call sequences generated by TLC from GenPrg.tla.
fn prg(a: &Args, tr: &Tr, r: &mut R) {
    for beh in behaviours(&a.inputs[0]) {
        let mut k = [0u8; 16];
        if r.gen_bool(0.9) { r.fill_bytes(&mut k); }
        tr.begin(json!({"key": k, "kind": "prg"}));
        let Some(g0) = tr.run("from_seed", || Prg::from_seed(Block::from(k))) else { continue };
        let mut gs = vec![g0];
        for call in beh.as_array().unwrap() {
            let (op, n) = (call[0].as_str().unwrap(), call[1].as_u64().unwrap() as usize);
            let g = r.gen_range(0..gs.len());
            if op == "clone" {
                if gs.len() > 3 { continue; }
                let c = gs[g].clone();
                gs.push(c);
                tr.ev("clone", json!({"g": g + 1}));
            } else if let Some(out) = tr.run(op, || read(&mut gs[g], op, n)) {
                tr.ev("read", json!({"g": g + 1, "k": op, "n": n, "out": out}));
            } else { break; }
        }
    }
    // generators made without a seed have seeds of their own
    tr.begin(json!({"key": k0(), "kind": "fresh"}));
    if let Some(outs) = tr.run("Prg::new", || {
        let mut gs: Vec<Prg> = (0..24).map(|i| if i % 3 == 2 { Prg::default() } else { Prg::new() }).collect();
        gs.extend((0..4).map(|_| std::thread::spawn(Prg::new).join().unwrap()));
        gs.iter_mut().map(|g| { let mut v = vec![0u8; 32]; g.fill_bytes(&mut v); v }).collect::<Vec<_>>()
    }) {
        tr.ev("fresh", json!({"outs": outs}));
    }
    // seeding from another generator takes that generator's next 16 bytes as the key
    for _ in 0..4 {
        let mut src = rng(r.gen(), 0);
        let mut peek = src.clone();
        let mut k = [0u8; 16];
        peek.fill_bytes(&mut k);
        let _: &Value = &json!(0);
        tr.begin(json!({"key": k, "kind": "from_rng"}));
        if let Some(Ok(mut g)) = tr.run("from_rng", || Prg::from_rng(&mut src)) {
            for (op, n) in [("u64", 1), ("fill", 131), ("u32", 1), ("blocks", 9)] {
                if let Some(out) = tr.run(op, || read(&mut g, op, n)) {
                    tr.ev("read", json!({"g": 1, "k": op, "n": n, "out": out}));
                }
            }
        }
    }
    // a long run: the counter keeps counting, no 2^k-block period
    let mut k = [0u8; 16];
    r.fill_bytes(&mut k);
    tr.begin(json!({"key": k, "kind": "long"}));
    let mut g = Prg::from_seed(Block::from(k));
    let mut skipped = 0u64;
    for (n, keep) in [(256usize, 1usize), (16 * 300, 0), (256, 1), (16 * 65_500, 0), (1024, 1)] {
        let mut v = vec![0u8; n];
        if tr.run("fill_bytes", || g.fill_bytes(&mut v)).is_none() { break; }
        if keep == 1 {
            tr.ev("read", json!({"g": 1, "k": "bytes", "n": n, "out": v}));
        } else {
            tr.ev("skip", json!({"g": 1, "n": n}));
        }
        skipped += n as u64;
    }
    let _ = skipped;
    // single reads of many kilobytes through every call; windows of the result are recorded
    for i in 0..if a.thorough { 60 } else { 14 } {
        let k = ["fill", "tryfill", "bytes", "blocks", "bools"][i % 5];
        let n = if k == "blocks" { r.gen_range(300..9000) } else { r.gen_range(4500..140_000) };
        let Some(out) = tr.run(k, || read(&mut g, k, n)) else { break };
        let mut at: Vec<usize> = (8..17).map(|e| (1 << e) - 8).collect();
        at.extend((0..4).map(|_| r.gen_range(0..out.len() / 4) * 4));
        at.push((out.len() - 17) / 4 * 4);
        let parts: Vec<Value> = at.into_iter().filter(|o| o + 16 < out.len())
            .map(|o| json!({"o": o, "out": out[o..(o + 24).min(out.len())]})).collect();
        tr.ev("long", json!({"g": 1, "k": k, "n": n, "len": out.len(), "parts": parts}));
    }
    if let Some(out) = tr.run("u32", || read(&mut g, "u32", 1)) {
        tr.ev("read", json!({"g": 1, "k": "u32", "n": 1, "out": out}));
    }
}

/// Far into the stream: around blocks 2^24, 2^31 and 2^32 (64 GiB).
fn far(k: [u8; 16]) -> Vec<(&'static str, usize, Vec<u8>)> {
    let mut g = Prg::from_seed(Block::from(k));
    let mut buf = vec![0u8; 1 << 16];
    let mut log = vec![];
    let mut skip = |g: &mut Prg, n: usize| {
        for _ in 0..n >> 16 { g.fill_bytes(&mut buf) }
        g.fill_bytes(&mut buf[..n & 0xffff]);
    };
    let near = 40 * 16;
    skip(&mut g, (1 << 28) - near);
    log.push(("skip", (1 << 28) - near, vec![]));
    for pages in [0, 126, 127] {
        skip(&mut g, pages << 28);
        log.push(("pages", pages, vec![]));
        let mut v = vec![0u8; 2 * near];
        g.fill_bytes(&mut v);
        log.push(("read", 2 * near, v));
        skip(&mut g, (1 << 28) - 2 * near);
        log.push(("skip", (1 << 28) - 2 * near, vec![]));
    }
    let mut v = vec![0u8; 2 * near];
    g.fill_bytes(&mut v);
    log.push(("read", 2 * near, v));
    log
}

pub fn run(a: &Args, tr: &Tr) {
    let mut r = rng(a.seed, 18);
    let mut k = [0u8; 16];
    r.fill_bytes(&mut k);
    let far = std::thread::spawn(move || far(k));
    aes(a, tr, &mut r);
    block_ops(a, tr, &mut r);
    prg(a, tr, &mut r);
    tr.begin(json!({"key": k, "kind": "far"}));
    match far.join() {
        Ok(log) => for (what, n, out) in log {
            match what {
                "pages" => tr.ev("pages", json!({"k": n})),
                "skip" => tr.ev("skip", json!({"g": 1, "n": n})),
                _ => tr.ev("read", json!({"g": 1, "k": "bytes", "n": n, "out": out})),
            }
        },
        Err(_) => tr.ev("panic", json!({"what": "a long run"})),
    }
}
