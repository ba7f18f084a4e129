use crate::crypto::*;
use hcommon::bytes::{bytes_len, from_hex, key32, message, to_hex, transport, TRANSPORTS};
use hcommon::runner::no_panic;
use hcommon::{aesref, ensure, *};
use proptest::prelude::*;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KM { key: Hex, msg: Hex, nonce: Hex }
fn km(max: usize, nlen: usize) -> BoxedStrategy<KM> {
    (key32(), message(max), bytes_len(nlen..nlen + 1)).prop_map(|(key, msg, nonce)| KM { key, msg, nonce }).boxed()
}
fn lens(i: Info, m: &[u8]) -> Info {
    let n = m.len();
    i.label(if n == 0 { "empty" } else if n % 16 == 0 { "whole blocks" } else if n < 16 { "below one block" } else { "partial last block" })
        .label_if(n > 8192, "long").label_if(n > 65536, "very long")
}

pub fn p17(ctx: &mut Ctx) {
    aesref::self_test();
    ctx.rule("key x message (empty, block boundaries +-1, text, up to 20 kB) x nonce; non-trivial: message of at least 1 byte");
    let max = if ctx.thorough { 300_000 } else { 20_000 };
    ctx.run("gcm-encrypt", ctx.n(6000, 60000), || km(max, 12), |c| {
        let ct = no_panic("encrypt_gcm", || encrypt_gcm(&c.key, &c.msg))?.map_err(|e| format!("encrypt_gcm failed: {e}"))?;
        ensure!(ct.len() == c.msg.len() + 28, "ciphertext of {} message bytes has {} bytes", c.msg.len(), ct.len());
        let want = aesref::gcm_seal(&c.key, &ct[..12], &c.msg);
        ensure!(ct[12..] == want[..], "not AES-256-GCM of the message under the leading nonce: {} instead of {}", to_hex(&ct[12..]), to_hex(&want));
        let back = no_panic("decrypt_gcm", || decrypt_gcm(&c.key, &ct))?.map_err(|e| format!("own ciphertext refused: {e}"))?;
        ensure!(back == c.msg.0, "round trip changed the message");
        Ok(lens(Info::new(!c.msg.is_empty()), &c.msg))
    });
    ctx.run("gcm-decrypt-foreign", ctx.n(6000, 60000), || km(max, 12), |c| {
        let mut ct = c.nonce.0.clone();
        ct.extend(aesref::gcm_seal(&c.key, &c.nonce, &c.msg));
        let back = no_panic("decrypt_gcm", || decrypt_gcm(&c.key, &ct))?.map_err(|e| format!("standard ciphertext refused: {e}"))?;
        ensure!(back == c.msg.0, "decryption of a standard ciphertext gave {} instead of the message", to_hex(&back));
        Ok(lens(Info::new(!c.msg.is_empty()), &c.msg))
    });
    // few, very long messages
    ctx.run("gcm-long", ctx.n(24, 200), || (key32(), 60_000usize..1_200_000, any::<u8>()).prop_map(|(key, n, b)| (key, n, b)).boxed(), |(key, n, b)| {
        let msg: Vec<u8> = (0..*n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(*b)).collect();
        let ct = encrypt_gcm(key, &msg).map_err(|e| format!("encrypt_gcm failed: {e}"))?;
        ensure!(ct.len() == n + 28, "length {} for {}", ct.len(), n);
        let back = decrypt_gcm(key, &ct).map_err(|e| format!("own ciphertext refused: {e}"))?;
        ensure!(back == msg, "round trip changed a long message");
        if *n < 200_000 { ensure!(ct[12..] == aesref::gcm_seal(key, &ct[..12], &msg)[..], "not AES-256-GCM"); }
        Ok(Info::new(true))
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tamper { Flip { pos: usize, mask: u8 }, SetByte { pos: usize, val: u8 }, Truncate { n: usize }, DropFront { n: usize }, Remove { pos: usize, n: usize },
    Append { b: Hex }, Prepend { b: Hex }, Insert { pos: usize, b: Hex }, Swap { a: usize, b: usize }, Key { pos: usize, mask: u8 }, Rotate { n: usize }, SwapBlocks { a: usize, b: usize }, ZeroTag, Duplicate, Transport { kind: u8 } }
fn tamper() -> BoxedStrategy<Tamper> {
    let pos = || prop_oneof![2 => 0usize..12, 3 => 0usize..100_000, 2 => (0usize..17).prop_map(|d| 1_000_000_000 - d)];
    prop_oneof![
        6 => (pos(), 0u32..8).prop_map(|(pos, b)| Tamper::Flip { pos, mask: 1 << b }),
        2 => (pos(), 1u8..=255).prop_map(|(pos, mask)| Tamper::Flip { pos, mask }),
        1 => (pos(), any::<u8>()).prop_map(|(pos, val)| Tamper::SetByte { pos, val }),
        2 => (1usize..40).prop_map(|n| Tamper::Truncate { n }),
        1 => (0usize..2000).prop_map(|n| Tamper::Truncate { n }),
        1 => (1usize..40).prop_map(|n| Tamper::DropFront { n }),
        1 => (pos(), 1usize..33).prop_map(|(pos, n)| Tamper::Remove { pos, n }),
        1 => bytes_len(1..40).prop_map(|b| Tamper::Append { b }),
        1 => bytes_len(1..40).prop_map(|b| Tamper::Prepend { b }),
        1 => (pos(), bytes_len(1..40)).prop_map(|(pos, b)| Tamper::Insert { pos, b }),
        1 => (pos(), pos()).prop_map(|(a, b)| Tamper::Swap { a, b }),
        3 => (0usize..32, 0u32..8).prop_map(|(pos, b)| Tamper::Key { pos, mask: 1 << b }),
        1 => (1usize..60).prop_map(|n| Tamper::Rotate { n }),
        1 => (0usize..12, 0usize..12).prop_map(|(a, b)| Tamper::SwapBlocks { a, b }),
        1 => Just(Tamper::ZeroTag), 1 => Just(Tamper::Duplicate), 3 => (0..TRANSPORTS).prop_map(|kind| Tamper::Transport { kind }),
    ].boxed()
}
/// position counted from the front, or from the end for the huge ones
fn at(pos: usize, len: usize) -> usize { if len == 0 { 0 } else if pos > 900_000_000 { len - 1 - (1_000_000_000 - pos).min(len - 1) } else { pos % len } }
fn apply(t: &Tamper, key: &mut Vec<u8>, d: &mut Vec<u8>) {
    let n = d.len();
    match t {
        Tamper::Flip { pos, mask } => d[at(*pos, n)] ^= mask,
        Tamper::SetByte { pos, val } => d[at(*pos, n)] = *val,
        Tamper::Truncate { n: k } => d.truncate(n.saturating_sub(*k)),
        Tamper::DropFront { n: k } => { d.drain(..(*k).min(n)); }
        Tamper::Remove { pos, n: k } => { let p = at(*pos, n); d.drain(p..(p + k).min(n)); }
        Tamper::Append { b } => d.extend_from_slice(b),
        Tamper::Prepend { b } => { let mut v = b.0.clone(); v.extend_from_slice(d); *d = v; }
        Tamper::Insert { pos, b } => { let p = at(*pos, n); d.splice(p..p, b.iter().copied()); }
        Tamper::Swap { a, b } => d.swap(at(*a, n), at(*b, n)),
        Tamper::Key { pos, mask } => key[*pos] ^= mask,
        Tamper::Rotate { n: k } => d.rotate_left(k % n),
        Tamper::SwapBlocks { a, b } => { for i in 0..16 { let (x, y) = (12 + a * 16 + i, 12 + b * 16 + i); if x < n && y < n { d.swap(x, y) } } }
        Tamper::ZeroTag => for i in n - 16..n { d[i] = 0 },
        Tamper::Duplicate => { let c = d.clone(); d.extend(c) }
        Tamper::Transport { kind } => *d = transport(*kind, d),
    }
}

pub fn p18(ctx: &mut Ctx) {
    aesref::self_test();
    ctx.rule("a valid ciphertext x one to three alterations (bit flips anywhere, byte changes, cuts, insertions, reorderings, key bits); non-trivial: the altered pair differs from the valid one");
    ctx.run("gcm-tamper", ctx.n(60000, 600000), || (km(400, 12), any::<bool>(), proptest::collection::vec(tamper(), 1..4)).boxed(), |(c, own, ts)| {
        let valid = if *own { encrypt_gcm(&c.key, &c.msg).map_err(|e| format!("encrypt_gcm failed: {e}"))? } else { let mut v = c.nonce.0.clone(); v.extend(aesref::gcm_seal(&c.key, &c.nonce, &c.msg)); v };
        let (mut key, mut data) = (c.key.0.clone(), valid.clone());
        for t in ts { if !data.is_empty() && (data.len() >= 16) { apply(t, &mut key, &mut data) } }
        let changed = key != c.key.0 || data != valid;
        let r = no_panic("decrypt_gcm", || decrypt_gcm(&key, &data))?;
        let mut i = Info::new(changed);
        for t in ts { i = i.label(format!("{:?}", t).split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()); }
        if !changed { ensure!(r.is_ok(), "valid ciphertext refused"); return Ok(i.label("unchanged")); }
        if let Ok(p) = r { return Err(format!("an altered ciphertext was accepted and gave {} bytes (message had {})", p.len(), c.msg.len())); }
        Ok(i)
    });
    // every kind of damage that transport does, on its own and doubled
    ctx.run("gcm-transport", ctx.n(1500, 15000), || km(600, 12), |c| {
        let ct = encrypt_gcm(&c.key, &c.msg).map_err(|e| format!("encrypt_gcm failed: {e}"))?;
        for k in 0..TRANSPORTS { for d in [transport(k, &ct), transport(k, &transport(k, &ct))] { if d != ct { ensure!(no_panic("decrypt_gcm", || decrypt_gcm(&c.key, &d))?.is_err(), "a ciphertext with transport damage {} was accepted", k); } } }
        Ok(Info::new(true))
    });
    // every single bit of short ciphertexts and of the key
    ctx.run("gcm-every-bit", ctx.n(160, 2000), || km(48, 12), |c| {
        let m = &c.msg[..c.msg.len().min(48)];
        let ct = encrypt_gcm(&c.key, m).map_err(|e| format!("encrypt_gcm failed: {e}"))?;
        for i in 0..ct.len() * 8 { let mut d = ct.clone(); d[i / 8] ^= 1 << (i % 8); ensure!(decrypt_gcm(&c.key, &d).is_err(), "flipped bit {} of byte {} of {} went unnoticed", i % 8, i / 8, ct.len()); }
        for i in 0..256 { let mut k = c.key.0.clone(); k[i / 8] ^= 1 << (i % 8); ensure!(decrypt_gcm(&k, &ct).is_err(), "a key differing in bit {} of byte {} opened the ciphertext", i % 8, i / 8); }
        for n in 0..ct.len() { ensure!(no_panic("decrypt_gcm", || decrypt_gcm(&c.key, &ct[..n]))?.is_err(), "the first {} of {} bytes were accepted", n, ct.len()); }
        for n in 1..=ct.len() { ensure!(no_panic("decrypt_gcm", || decrypt_gcm(&c.key, &ct[n..]))?.is_err(), "without the first {} of {} bytes it was accepted", n, ct.len()); }
        Ok(Info::new(true))
    });
    ctx.run("gcm-bad-arguments", ctx.n(20000, 200000), || (prop_oneof![3 => 0usize..100, 1 => 0usize..2000, 1 => Just(31usize), 1 => Just(33usize), 1 => Just(16usize), 1 => Just(24usize), 1 => Just(64usize)], any::<u8>(), bytes_len(0..80), key32()).boxed(), |(klen, kb, data, key)| {
        let k: Vec<u8> = (0..*klen).map(|i| (i as u8) ^ kb).collect();
        let e = no_panic("encrypt_gcm", || encrypt_gcm(&k, data))?;
        let d = no_panic("decrypt_gcm", || decrypt_gcm(&k, data))?;
        if *klen != 32 {
            ensure!(e.is_err(), "encryption accepted a key of {} bytes", klen);
            ensure!(d.is_err(), "decryption accepted a key of {} bytes", klen);
            // a longer key whose first bytes are the right key
            let ct = encrypt_gcm(key, data).map_err(|e| format!("encrypt_gcm failed: {e}"))?;
            let mut k2 = key.0.clone(); k2.resize(*klen, *kb);
            ensure!(no_panic("decrypt_gcm", || decrypt_gcm(&k2, &ct))?.is_err(), "decryption accepted a key of {} bytes", klen);
        }
        let short = &data[..data.len().min(27)];
        ensure!(no_panic("decrypt_gcm", || decrypt_gcm(key, short))?.is_err(), "{} bytes of input accepted", short.len());
        Ok(Info::new(*klen != 32 || short.len() < 28))
    });
}

pub fn p19(ctx: &mut Ctx) {
    aesref::self_test();
    ctx.rule("key x message x initial counter block (random, all ones, low half near overflow); non-trivial: message of at least 1 byte or a bad argument");
    let max = if ctx.thorough { 300_000 } else { 20_000 };
    ctx.run("ctr-encrypt", ctx.n(6000, 60000), || km(max, 16), |c| {
        let ct = no_panic("encrypt_ctr", || encrypt_ctr(&c.key, &c.msg))?.map_err(|e| format!("encrypt_ctr failed: {e}"))?;
        ensure!(ct.len() == c.msg.len() + 16, "ciphertext of {} message bytes has {} bytes", c.msg.len(), ct.len());
        ensure!(ct[16..] == aesref::ctr64(&c.key, &ct[..16], &c.msg)[..], "not AES-256-CTR of the message under the leading counter block");
        let back = no_panic("decrypt_ctr", || decrypt_ctr(&c.key, &ct))?.map_err(|e| format!("own ciphertext refused: {e}"))?;
        ensure!(back == c.msg.0, "round trip changed the message");
        Ok(lens(Info::new(!c.msg.is_empty()), &c.msg))
    });
    let near = || prop_oneof![2 => bytes_len(16..17), 2 => (bytes_len(8..9), 0u64..300).prop_map(|(h, d)| { let mut v = h.0; v.extend_from_slice(&(u64::MAX - d).to_be_bytes()); Hex(v) }),
        1 => (bytes_len(8..9), 0u64..300).prop_map(|(h, d)| { let mut v = h.0; v.extend_from_slice(&(0xffff_ffffu64 - d).to_be_bytes()); Hex(v) })];
    ctx.run("ctr-decrypt-foreign", ctx.n(8000, 80000), || (key32(), message(max), near()).prop_map(|(key, msg, nonce)| KM { key, msg, nonce }).boxed(), |c| {
        let mut ct = c.nonce.0.clone(); ct.extend(aesref::ctr64(&c.key, &c.nonce, &c.msg));
        let back = no_panic("decrypt_ctr", || decrypt_ctr(&c.key, &ct))?.map_err(|e| format!("standard ciphertext refused: {e}"))?;
        ensure!(back == c.msg.0, "decryption of a standard ciphertext is wrong");
        let wraps = u64::from_be_bytes(c.nonce[8..16].try_into().unwrap()).checked_add((c.msg.len() as u64 + 15) / 16).is_none();
        Ok(lens(Info::new(!c.msg.is_empty()), &c.msg).label_if(wraps, "counter wraps"))
    });
    ctx.run("ctr-bad-arguments", ctx.n(20000, 200000), || (prop_oneof![3 => 0usize..100, 1 => 0usize..2000, 1 => Just(31usize), 1 => Just(33usize), 1 => Just(16usize), 1 => Just(24usize), 1 => Just(64usize)], any::<u8>(), bytes_len(0..80), key32()).boxed(), |(klen, kb, data, key)| {
        let k: Vec<u8> = (0..*klen).map(|i| (i as u8) ^ kb).collect();
        let e = no_panic("encrypt_ctr", || encrypt_ctr(&k, data))?;
        let d = no_panic("decrypt_ctr", || decrypt_ctr(&k, data))?;
        if *klen != 32 {
            ensure!(e.is_err(), "encryption accepted a key of {} bytes", klen);
            ensure!(d.is_err(), "decryption accepted a key of {} bytes", klen);
        } else {
            ensure!(e.is_ok(), "encryption refused a 32-byte key");
            ensure!(d.is_ok() == (data.len() >= 16), "decryption of {} bytes: {:?}", data.len(), d.is_ok());
        }
        let short = &data[..data.len().min(15)];
        ensure!(no_panic("decrypt_ctr", || decrypt_ctr(key, short))?.is_err(), "{} bytes of input accepted", short.len());
        let at16 = no_panic("decrypt_ctr", || decrypt_ctr(key, &[*kb; 16]))?;
        ensure!(matches!(&at16, Ok(v) if v.is_empty()), "a bare counter block must decrypt to the empty message");
        Ok(Info::new(*klen != 32 || data.len() < 17))
    });
}

// ------------------------------------------------------------------ nonces
fn nonces_for(mode: &str, key: &[u8], msg: &[u8], n: usize, out: &mut Vec<Vec<u8>>) {
    for _ in 0..n {
        let (c, k) = if mode == "gcm" { (encrypt_gcm(key, msg).unwrap(), 12) } else { (encrypt_ctr(key, msg).unwrap(), 16) };
        out.push(c[..k].to_vec());
    }
}
pub fn dump_nonces() {
    let a: Vec<String> = std::env::args().collect();
    let mut v = vec![];
    nonces_for(&a[2], &[7; 32], b"same message", a[3].parse().unwrap(), &mut v);
    for x in v { println!("{}", to_hex(&x)); }
}
/// A process that has encrypted before (or not) splits into several, which all go on encrypting.
pub fn fork_nonces() {
    extern "C" { fn fork() -> i32; fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32; fn _exit(code: i32) -> !; }
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<usize>().unwrap();
    let (before, kids, each, after) = (n(3), n(4), n(5), n(6));
    let print = |v: &[Vec<u8>]| { let s: String = v.iter().map(|x| to_hex(x) + "\n").collect(); std::io::Write::write_all(&mut std::io::stdout(), s.as_bytes()).unwrap(); std::io::Write::flush(&mut std::io::stdout()).unwrap(); };
    let mut v = vec![]; nonces_for(&a[2], &[7; 32], b"same message", before, &mut v); print(&v);
    for _ in 0..kids {
        match unsafe { fork() } {
            0 => { let mut v = vec![]; nonces_for(&a[2], &[7; 32], b"same message", each, &mut v); print(&v); unsafe { _exit(0) } }
            p => { assert!(p > 0); let mut st = 0; unsafe { waitpid(p, &mut st, 0); } assert_eq!(st, 0); }
        }
        let mut v = vec![]; nonces_for(&a[2], &[7; 32], b"same message", after, &mut v); print(&v);
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan { mode: bool, threads: Vec<Vec<(u8, u8, u16)>>, procs: u8, per_proc: u16 }
fn plan() -> BoxedStrategy<Plan> {
    let step = (0u8..3, 0u8..4, prop_oneof![1 => 1u16..4, 1 => 20u16..200]);
    (any::<bool>(), proptest::collection::vec(proptest::collection::vec(step, 1..6), 1..9), 0u8..4, 1u16..40)
        .prop_map(|(mode, threads, procs, per_proc)| Plan { mode, threads, procs, per_proc }).boxed()
}
pub fn p20(ctx: &mut Ctx) {
    ctx.rule("histories of encryptions over several threads and processes, with repeated and varied keys and messages, both modes; non-trivial: at least two threads or processes");
    let all: std::sync::Mutex<HashMap<Vec<u8>, u32>> = Default::default();
    let exe = std::env::current_exe().unwrap();
    let keys = [vec![7u8; 32], vec![0; 32], (0..32).collect::<Vec<u8>>()];
    let msgs: [&[u8]; 4] = [b"same message", b"", b"\0\0\0\0", &[5; 100]];
    ctx.run_t("nonce-histories", ctx.n(160, 1500), 4, plan, |p| {
        let mode = if p.mode { "gcm" } else { "ctr" };
        let mut seqs: Vec<Vec<Vec<u8>>> = vec![];
        let kids: Vec<_> = (0..p.procs).map(|_| std::process::Command::new(&exe).args(["--nonces", mode, &p.per_proc.to_string()]).stdout(std::process::Stdio::piped()).spawn().expect("child")).collect();
        std::thread::scope(|s| {
            let hs: Vec<_> = p.threads.iter().map(|steps| { let (keys, msgs) = (&keys, &msgs); s.spawn(move || {
                let mut v = vec![];
                for (k, m, n) in steps { nonces_for(mode, &keys[*k as usize], msgs[*m as usize], *n as usize, &mut v); }
                v
            }) }).collect();
            for h in hs { match h.join() { Ok(v) => seqs.push(v), Err(_) => return Err("an encryption panicked".to_string()) } }
            Ok(())
        })?;
        for k in kids {
            let o = k.wait_with_output().expect("child output");
            ensure!(o.status.success(), "an encrypting process failed");
            seqs.push(String::from_utf8_lossy(&o.stdout).lines().filter_map(from_hex).collect());
        }
        let mut g = all.lock().unwrap();
        let mut here = HashSet::new();
        for n in seqs.iter().flatten() {
            ensure!(here.insert(n.clone()), "nonce {} was used twice in one history", to_hex(n));
            let tag = if p.mode { 12 } else { 16 };
            ensure!(n.len() == tag, "short nonce");
        }
        for n in &here { *g.entry(n.clone()).or_default() += 1; }
        for n in &here { ensure!(g[n] == 1, "nonce {} was already used in an earlier history", to_hex(n)); }
        // bytes within one sequence must vary at every position (chance of a false alarm below 1e-30)
        let flat: Vec<&Vec<u8>> = seqs.iter().flatten().collect();
        if flat.len() >= 40 {
            for b in 0..flat[0].len() { ensure!(flat.iter().any(|x| x[b] != flat[0][b]), "byte {} of the nonce is constant over {} encryptions", b, flat.len()); }
        }
        // no sequence may advance by small constant steps
        for s in &seqs { if s.len() >= 8 {
            let num = |x: &Vec<u8>| x.iter().fold([0u128; 1], |a, b| [(a[0] << 8) | *b as u128])[0];
            let close = s.windows(2).filter(|w| num(&w[1]).wrapping_sub(num(&w[0])) < 1 << 40 || num(&w[0]).wrapping_sub(num(&w[1])) < 1 << 40).count();
            ensure!(close < 3, "consecutive nonces are close to each other ({} of {})", close, s.len() - 1);
        } }
        Ok(Info::new(p.threads.len() + p.procs as usize > 1).label(mode).label_if(p.procs > 1, "several processes").label_if(p.threads.len() > 1, "several threads"))
    });
    ctx.rule("a process that encrypts, splits into up to five and goes on, as do its parts; non-trivial: it encrypted before splitting");
    ctx.run_t("nonce-forks", ctx.n(60, 800), 4, || (any::<bool>(), 0usize..40, 1usize..5, 1usize..20, 0usize..3).boxed(), |(gcm, before, kids, each, after)| {
        let o = std::process::Command::new(&exe).arg("--forks").arg(if *gcm { "gcm" } else { "ctr" }).args([before, kids, each, after].map(|x| x.to_string())).output().expect("child");
        ensure!(o.status.success(), "an encrypting process failed: {}", String::from_utf8_lossy(&o.stderr));
        let v: Vec<Vec<u8>> = String::from_utf8_lossy(&o.stdout).lines().filter_map(from_hex).collect();
        ensure!(v.len() == before + kids * (each + after), "{} nonces", v.len());
        let mut seen = HashSet::new();
        for n in &v { ensure!(seen.insert(n.clone()), "nonce {} was used twice by the parts of a process that was split", to_hex(n)); }
        Ok(Info::new(*before > 0).label(if *gcm { "gcm, split" } else { "ctr, split" }))
    });
    // long histories within one thread: a counter or pool of nonces would come round
    ctx.run_t("nonce-long-history", ctx.n(4, 8), 4, || (any::<bool>(), 0u8..3, 0u8..4, 200_000u32..300_000, any::<bool>()).boxed(), |(gcm, k, m, n, mixed)| {
        let (mut seen, mut v) = (HashSet::new(), vec![]);
        for i in 0..*n {
            // either one key and one message throughout, or changing ones with decryptions in between
            let (k, m) = if *mixed { (i as usize % 3, (i as usize / 7) % 4) } else { (*k as usize, *m as usize) };
            nonces_for(if *gcm { "gcm" } else { "ctr" }, &keys[k], msgs[m], 1, &mut v);
            if *mixed && i % 1000 == 0 { let _ = decrypt_gcm(&keys[k], &[9; 40]); }
            let x = v.pop().unwrap();
            let x = u128::from_be_bytes(std::array::from_fn(|i| *x.get(i).unwrap_or(&0)));
            ensure!(seen.insert(x), "encryption {} of one thread uses a nonce that an earlier one used", i);
        }
        Ok(Info::new(true).label(if *gcm { "gcm, long" } else { "ctr, long" }).label_if(*mixed, "long, changing keys"))
    });
    // bit balance over everything collected: every bit position is a fair coin (8 standard deviations)
    let g = all.lock().unwrap();
    let mut problems = vec![];
    for len in [12usize, 16] {
        let v: Vec<&Vec<u8>> = g.keys().filter(|k| k.len() == len).collect();
        let n = v.len() as f64;
        if n < 1000.0 { continue; }
        for bit in 0..len * 8 {
            let ones = v.iter().filter(|x| (x[bit / 8] >> (bit % 8)) & 1 == 1).count() as f64;
            if (ones - n / 2.0).abs() > 8.0 * (n / 4.0).sqrt() { problems.push(format!("bit {} of the {}-byte nonce is set in {} of {}", bit, len, ones, n)); }
        }
        for byte in 0..len {
            let mut h = [0f64; 256]; for x in &v { h[x[byte] as usize] += 1.0; }
            let chi: f64 = h.iter().map(|c| (c - n / 256.0).powi(2) / (n / 256.0)).sum();
            if n > 5000.0 && chi > 255.0 + 20.0 * (510f64).sqrt() { problems.push(format!("byte {} of the {}-byte nonce is not uniform (chi-square {:.0})", byte, len, chi)); }
        }
        // single-byte correlations between neighbouring positions
        for b in 0..len - 1 { let same = v.iter().filter(|x| x[b] == x[b + 1]).count() as f64; if same > n / 256.0 + 10.0 * (n / 256.0).sqrt() + 5.0 { problems.push(format!("bytes {} and {} of the {}-byte nonce agree too often", b, b + 1, len)); } }
    }
    let total = g.len();
    drop(g);
    ctx.note(format!("{} nonces collected", total));
    let problems = problems.join("; ");
    ctx.run_t("nonce-distribution", 1, 1, || Just(total).boxed(), |_| { ensure!(problems.is_empty(), "{}", problems); Ok(Info::new(total > 1000)) });
}
