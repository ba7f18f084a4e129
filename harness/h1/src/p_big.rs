//! P38: size is no obstacle.
use crate::circom::parse_inputs;
use crate::crypto::*;
use crate::p_r1cs::{exact, Desc};
use crate::p_snap::{big_case, roundtrips};
use crate::sym_parser::{get_input_signals, parse_sym_file};
use hcommon::bytes::key32;
use hcommon::runner::no_panic;
use hcommon::scratch::Scratch;
use hcommon::{aesref, ensure, *};
use proptest::prelude::*;
use std::collections::HashMap;

thread_local! { static DIR: Scratch = Scratch::new("big"); }
fn mix(mut x: u64) -> u64 { x = x.wrapping_add(0x9e3779b97f4a7c15); x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb); x ^ (x >> 31) }
/// Sizes up to `max`: around powers of two, around powers of ten, anything large.
pub fn size(max: u32) -> BoxedStrategy<u32> {
    let top = 32 - max.leading_zeros();
    prop_oneof![
        3 => (top.saturating_sub(5)..=top, 0u32..5).prop_map(move |(b, d)| ((1u64 << b) as u32).saturating_add(d).saturating_sub(2).clamp(1, max)),
        1 => (3u32..8, 0u32..3).prop_map(move |(b, d)| (10u32.pow(b) + d - 1).clamp(1, max)),
        3 => (max / 16..=max).boxed(),
    ].boxed()
}
fn bytes(n: usize, seed: u64) -> Vec<u8> { let mut v: Vec<u8> = (0..(n + 7) / 8).flat_map(|i| mix(seed ^ i as u64).to_le_bytes()).collect(); v.truncate(n); v }
pub fn p38(ctx: &mut Ctx) {
    ctx.rule("files, inputs, snapshots and messages thousands of times larger than usual, with sizes around powers of two and ten; non-trivial: at least 10000 elements or 100000 bytes");
    let t = ctx.thorough;
    // shape: many constraints, one with many factors, many wires and labels, a huge unknown section
    ctx.run("big-r1cs", ctx.n(48, 400), move || (0u8..4, size(if t { 600_000 } else { 150_000 }), any::<u64>(), any::<[u8; 3]>()).boxed(), |(shape, n, seed, order)| {
        let f = |k: u64| (mix(*seed ^ k) as u32, mix(seed.wrapping_add(k)) % 100_000);
        let mut d = Desc { field_size: 32, prime_seed: *seed as u8, n_pub_out: 2, n_pub_in: 3, n_prv_in: 4, n_internal: 5, n_labels: *seed, constraints: vec![[vec![f(1)], vec![f(2), f(3)], vec![]]; 3], labels: None, order: *order, unknown: vec![] };
        match shape {
            0 => d.constraints = (0..*n as u64).map(|i| [vec![f(3 * i)], vec![f(3 * i + 1)], if i % 7 == 0 { vec![f(3 * i + 2), f(i)] } else { vec![f(3 * i + 2)] }]).collect(),
            1 => { let big: Vec<(u32, u64)> = (0..*n as u64).map(f).collect(); let k = *seed as usize % 3; d.constraints[1][k] = big; d.n_internal = *n; }
            2 => { match seed % 4 { 0 => d.n_pub_out = *n, 1 => d.n_pub_in = *n, 2 => d.n_prv_in = *n, _ => d.n_internal = *n } d.labels = Some(*seed); }
            _ => d.unknown = vec![(order[0], 9, n.saturating_mul(16), 1), (order[1], 77, 3, 1)],
        }
        exact(&d)?;
        Ok(Info::new(*n >= 10_000).label(["many constraints", "many factors", "many wires", "a huge unknown section"][*shape as usize]))
    });
    ctx.run("big-sym", ctx.n(40, 400), move || (size(if t { 1_000_000 } else { 250_000 }), any::<u64>(), any::<bool>(), 0u8..4, prop_oneof![Just(None), any::<u32>().prop_map(Some)]).boxed(), |(n, seed, crlf, long, max)| {
        // names: plain, indexed, nested deep, or very long
        let n = if *long == 3 { *n / 100 + 1 } else { *n };
        let name = |i: u32| match long { 0 => format!("main.a[{}][{}]", i / 1000, i % 1000), 1 => format!("main.c{}.d[{}]", i % 777, i), 2 => format!("main.x{}", i), _ => format!("main.{}{}", "sub.".repeat(60 + i as usize % 9), i) };
        let wire = |i: u32| { let w = mix(*seed ^ i as u64); if w % 5 == 0 { -1i64 } else { (w >> 20) as i64 % (2 * n as i64) } };
        let mut o = String::new(); for i in 0..n { o.push_str(&format!("{},{},{},{}{}", i, wire(i), i % 99, name(i), if *crlf { "\r\n" } else { "\n" })); }
        let got = no_panic("parse_sym_file", || parse_sym_file(&o))?.map_err(|e| format!("a well-formed symbol file of {n} lines was refused: {e}"))?;
        let want: HashMap<String, u32> = (0..n).filter(|i| wire(*i) >= 0).map(|i| (name(i), wire(i) as u32)).collect();
        ensure!(got.len() == want.len(), "{} of {} signals in a file of {} lines", got.len(), want.len(), n);
        for (k, v) in &want { ensure!(got.get(k) == Some(v), "signal {k:?}: {:?} instead of {v}", got.get(k)); }
        let max = max.map(|m| m % (2 * n));
        let sel = no_panic("get_input_signals", || get_input_signals(&got, max))?;
        let wsel: HashMap<&str, u32> = want.iter().filter(|(_, v)| max.map_or(true, |m| **v <= m)).map(|(k, v)| (&k[5..], *v)).collect();
        ensure!(sel.len() == wsel.len() && wsel.iter().all(|(k, v)| sel.get(*k) == Some(v)), "selection of {} signals instead of {}", sel.len(), wsel.len());
        Ok(Info::new(n >= 2000).label_if(*long == 3, "very long names"))
    });
    ctx.run("big-inputs", ctx.n(40, 400), move || (size(if t { 1_000_000 } else { 250_000 }), any::<u64>(), 0u8..5).boxed(), |(n, seed, shape)| {
        let leaf = |i: u32| { let x = mix(*seed ^ i as u64); if x % 2 == 0 { (format!("{x}"), format!("{x}")) } else { (format!("\"{x}\""), format!("{x}")) } };
        let n = if *shape == 2 { 1 + *seed as u32 % 120 } else if *shape == 3 { *n * 8 } else { *n };
        let (text, want): (String, Vec<(String, Vec<String>)>) = match shape {
            0 => { let l: Vec<_> = (0..n).map(leaf).collect(); (format!("{{\"a\":[{}],\"b\":\"1\"}}", l.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(",")), vec![("a".into(), l.into_iter().map(|x| x.1).collect()), ("b".into(), vec!["1".into()])]) }
            1 => { let l: Vec<_> = (0..n).map(leaf).collect(); let w = 1 + (*seed as usize >> 7) % 900; (format!("{{\"a\":[{}]}}", l.chunks(w).map(|c| format!("[{}]", c.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(",\n")), vec![("a".into(), l.into_iter().map(|x| x.1).collect())]) }
            2 => (format!("{{\"deep\":{}7{}}}", "[".repeat(n as usize), "]".repeat(n as usize)), vec![("deep".into(), vec!["7".into()])]),
            3 => { let s: String = (0..n).map(|i| char::from(b'0' + (mix(*seed ^ (i / 16) as u64) >> (4 * (i % 16)) & 7) as u8)).collect(); (format!("{{\"long\":\"{s}\"}}"), vec![("long".into(), vec![s])]) }
            _ => { let l: Vec<_> = (0..n).map(leaf).collect(); (format!("{{{}}}", l.iter().enumerate().map(|(i, x)| format!("\"k{i}\":{}", x.0)).collect::<Vec<_>>().join(",")), l.into_iter().enumerate().map(|(i, x)| (format!("k{i}"), vec![x.1])).collect()) }
        };
        let p = DIR.with(|d| d.write("in.json", text.as_bytes()));
        let got = no_panic("parse_inputs", || parse_inputs(&p))?.map_err(|e| format!("a large valid object was refused: {}", format!("{e:#}").chars().take(200).collect::<String>()))?;
        ensure!(got.len() == want.len(), "{} names instead of {}", got.len(), want.len());
        for (k, v) in &want { let g = got.get(k).ok_or_else(|| format!("{k} is missing"))?; ensure!(g.len() == v.len(), "{k}: {} values instead of {}", g.len(), v.len()); ensure!(g == v, "{k}: value {:?} differs", g.iter().zip(v).position(|(a, b)| a != b)); }
        Ok(Info::new(n >= 10_000 || *shape == 2).label(["flat", "rows", "deep", "a very long number", "many names"][*shape as usize]))
    });
    ctx.run("big-snapshot", ctx.n(16, 150), move || (size(if t { 60_000 } else { 20_000 }), 0u8..4, any::<u64>()).boxed(), |(n, shape, seed)| { roundtrips(&big_case(*n, *shape, *seed))?; Ok(Info::new(*n >= 1000)) });
    let max = if t { 60_000_000 } else { 12_000_000 };
    let gcm = |(key, n, seed): &(Hex, u32, u64)| {
        let m = bytes(*n as usize, *seed);
        let ct = no_panic("encrypt_gcm", || encrypt_gcm(key, &m))?.map_err(|e| format!("encrypt_gcm failed on {n} bytes: {e}"))?;
        ensure!(ct.len() == m.len() + 28, "{} bytes for a message of {n}", ct.len());
        // the cipher text is the counter mode key stream from block 2 on
        let mut iv = ct[..12].to_vec(); iv.extend([0, 0, 0, 2]);
        for at in [0usize, m.len() / 2 / 16, m.len().saturating_sub(40) / 16] { let (a, b) = (16 * at, (16 * at + 64).min(m.len())); let mut j = iv.clone(); j[12..].copy_from_slice(&(2 + at as u32).to_be_bytes()); ensure!(ct[12 + a..12 + b] == aesref::ctr64(key, &j, &m[a..b])[..], "not AES-256-GCM at byte {a}"); }
        let back = no_panic("decrypt_gcm", || decrypt_gcm(key, &ct))?.map_err(|e| format!("a message of {n} bytes does not decrypt: {e}"))?;
        ensure!(back == m, "a message of {n} bytes was changed");
        let mut bad = ct; let at = (mix(*seed) % bad.len() as u64) as usize; bad[at] ^= 1 << (seed % 8);
        ensure!(no_panic("decrypt_gcm", || decrypt_gcm(key, &bad))?.is_err(), "a change at byte {at} of {} went unnoticed", bad.len());
        Ok(Info::new(*n >= 100_000))
    };
    let ctr = |(key, n, seed): &(Hex, u32, u64)| {
        let m = bytes(*n as usize, *seed);
        let ct = no_panic("encrypt_ctr", || encrypt_ctr(key, &m))?.map_err(|e| format!("encrypt_ctr failed on {n} bytes: {e}"))?;
        ensure!(ct.len() == m.len() + 16, "{} bytes for a message of {n}", ct.len());
        for at in [0usize, m.len() / 2 / 16, m.len().saturating_sub(40) / 16] {
            let (a, b) = (16 * at, (16 * at + 64).min(m.len())); let mut j = ct[..16].to_vec(); let c = u64::from_be_bytes(j[8..].try_into().unwrap()).wrapping_add(at as u64); j[8..].copy_from_slice(&c.to_be_bytes());
            ensure!(ct[16 + a..16 + b] == aesref::ctr64(key, &j, &m[a..b])[..], "not AES-256-CTR at byte {a}");
        }
        let back = no_panic("decrypt_ctr", || decrypt_ctr(key, &ct))?.map_err(|e| format!("a message of {n} bytes does not decrypt: {e}"))?;
        ensure!(back == m, "a message of {n} bytes was changed");
        Ok(Info::new(*n >= 100_000))
    };
    ctx.run("big-message-gcm", ctx.n(32, 200), move || (key32(), size(max), any::<u64>()).boxed(), gcm);
    ctx.run("big-message-ctr", ctx.n(32, 200), move || (key32(), size(max), any::<u64>()).boxed(), ctr);
    // beyond 2^24 bytes
    ctx.run("huge-message-gcm", ctx.n(6, 32), move || (key32(), huge(t), any::<u64>()).boxed(), gcm);
    ctx.run("huge-message-ctr", ctx.n(6, 32), move || (key32(), huge(t), any::<u64>()).boxed(), ctr);
}
fn huge(t: bool) -> BoxedStrategy<u32> { let top = if t { 28u32 } else { 26 }; prop_oneof![3 => (24..=top, 0u32..5).prop_map(|(b, d)| (1 << b) + d - 2), 1 => (1u32 << 24)..(1 << top)].boxed() }
