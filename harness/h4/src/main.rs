//! P41: the core library with and without the standard library gives the same results.
#![allow(dead_code)]
#[path = "../../h3/src/circ.rs"]
mod circ;
#[path = "../../h3/src/syn.rs"]
mod syn;
#[path = "../../h3/src/toy.rs"]
mod toy;

use ark_bn254::{Bn254, Fr};
use ark_ec::pairing::Pairing;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use circ::*;
use hcommon::field::{fe, F};
use hcommon::runner::no_panic;
use hcommon::{ensure, *};
use proptest::prelude::*;
use rand::{rngs::StdRng, SeedableRng};
use syn::*;
use toy::Toy;
use zkenc_core as full;
use zkenc_core_nostd as bare;

#[global_allocator]
static GLOBAL: hcommon::alloc::Guarded = hcommon::alloc::Guarded;

fn ser<T: CanonicalSerialize>(x: &T) -> Vec<u8> { let mut o = vec![]; x.serialize_compressed(&mut o).unwrap(); o }
/// The kind of an error, without its text.
fn kind(e: impl core::fmt::Debug) -> String { format!("{e:?}").chars().take_while(|c| c.is_alphanumeric()).collect() }

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step { Keep, Change(u32, u64), Con(Tweak), Hole(u32), OtherCt(u32, u64), Longer(F, u8), Cut(u8), Full }
fn step() -> BoxedStrategy<Step> {
    let u = any::<u32>;
    prop_oneof![4 => Just(Step::Keep), 3 => (u(), any::<u64>()).prop_map(|(a, b)| Step::Change(a, b)), 3 => tweak().prop_map(Step::Con), 2 => u().prop_map(Step::Hole), 2 => (u(), any::<u64>()).prop_map(|(a, b)| Step::OtherCt(a, b)), 1 => (fe(), 0u8..5).prop_map(|(x, n)| Step::Longer(x, n)), 1 => any::<u8>().prop_map(Step::Cut), 2 => Just(Step::Full)].boxed()
}
fn one<E: Pairing<ScalarField = Fr>>(c: &Circ, st: &Step, o: &Order, seed: u64) -> Res {
    let n = c.n_pub() as usize; let at = c.assignment(); let rows = c.rows();
    let mut enc = Syn::of(&rows, n, &at);
    if !matches!(st, Step::Full) { enc = enc.public_only(); }
    if let Step::Hole(k) = st { if n > 0 && k % 2 == 0 { enc.inst[*k as usize / 2 % n] = None; } }
    let enc = enc.ordered(o);
    let a = no_panic("encap", || full::encap::<E, _, _>(enc.clone(), &mut StdRng::seed_from_u64(seed)))?.map(|(ct, k)| (ser(&ct), k.0)).map_err(kind);
    let b = no_panic("encap without std", || bare::encap::<E, _, _>(enc, &mut StdRng::seed_from_u64(seed)))?.map(|(ct, k)| (ser(&ct), k.0)).map_err(kind);
    ensure!(a == b, "encapsulation depends on the standard library: {} with it, {} without", short(&a), short(&b));
    let Ok((mut bytes, key)) = a else { return Ok(Info::new(true).label("encapsulation refused")) };
    // a ciphertext, possibly changed, read by both
    if let Step::Cut(k) = st { let l = bytes.len(); if k % 2 == 0 { bytes.truncate(l - 1 - *k as usize % l.min(60)); } else { let i = mix(seed) as usize % l; bytes[i] ^= 1 << (k / 2 % 8); } }
    let f = no_panic("decoding", || full::Ciphertext::<E>::deserialize_compressed(&bytes[..]))?.map_err(kind);
    let g = no_panic("decoding without std", || bare::Ciphertext::<E>::deserialize_compressed(&bytes[..]))?.map_err(kind);
    ensure!(f.as_ref().map(ser).map_err(|e| e.clone()) == g.as_ref().map(ser).map_err(|e| e.clone()), "decoding a ciphertext depends on the standard library");
    let (Ok(mut f), Ok(mut g)) = (f, g) else { return Ok(Info::new(true).label("decoding refused")) };
    let (mut at, mut rows) = (at, c.rows_k());
    let mut hole = None;
    match st {
        Step::Change(k, s) => { let k = 1 + *k as usize % (at.len() - 1).max(1); if k < at.len() { at[k] = other(&at[k], &mut Rng(*s)); } }
        Step::Con(t) => rows = tweaked(rows, t, c.n_wires()),
        Step::Hole(k) => hole = Some(*k as usize / 2),
        Step::OtherCt(k, s) => if !f.public_inputs.is_empty() { let k = *k as usize % f.public_inputs.len(); let x = to_fr(&other(&to_f(&f.public_inputs[k]), &mut Rng(*s))); f.public_inputs[k] = x; g.public_inputs[k] = x; },
        Step::Longer(x, m) => for k in 0..=*m { let x = if k % 2 == 0 { to_fr(x) } else { Fr::from(0u64) }; f.public_inputs.push(x); g.public_inputs.push(x); },
        _ => {}
    }
    let mut dec = Syn::of(&plain(rows), n, &at).ordered(o);
    if let Some(h) = hole { let m = dec.inst.len() + dec.wit.len(); if m > 0 { let h = h % m; if h < dec.inst.len() { dec.inst[h] = None } else { let k = h - dec.inst.len(); dec.wit[k] = None } } }
    let a = no_panic("decap", || full::decap::<E, _>(dec.clone(), &f))?.map(|k| k.0).map_err(kind);
    let b = no_panic("decap without std", || bare::decap::<E, _>(dec, &g))?.map(|k| k.0).map_err(kind);
    ensure!(a == b, "decapsulation depends on the standard library: {a:?} with it, {b:?} without");
    if matches!((st, o), (Step::Keep, Order::PublicFirst)) { ensure!(b.as_ref() == Ok(&key), "a satisfying assignment does not recover the key without the standard library: {b:?}"); }
    // verification against the recorded, changed, shorter and longer lists
    let p = f.public_inputs.clone(); let mut lists = vec![p.clone(), c.publics().iter().map(to_fr).collect(), vec![]];
    if !p.is_empty() { let mut q = p.clone(); q[seed as usize % p.len()] += Fr::from(1u64); lists.push(q); lists.push(p[1..].to_vec()); lists.push(p[..p.len() - 1].to_vec()); }
    let mut q = p.clone(); q.push(Fr::from(0u64)); lists.push(q);
    for l in lists {
        let (x, y) = (no_panic("verify_ciphertext", || full::verify_ciphertext(&f, &l))?, no_panic("verify_ciphertext without std", || bare::verify_ciphertext(&g, &l))?);
        ensure!(x == y && y == (l == p), "verification against {} values: {x} with the standard library, {y} without, the lists are {}", l.len(), if l == p { "equal" } else { "different" });
    }
    Ok(Info::new(!c.cons.is_empty() && n > 0).label(if a.is_ok() { "key recovered" } else { "decapsulation refused" }))
}
fn short(x: &Result<(Vec<u8>, [u8; 32]), String>) -> String { match x { Ok((c, k)) => format!("a ciphertext of {} bytes and key {}", c.len(), bytes::to_hex(k)), Err(e) => e.clone() } }
fn mix(mut x: u64) -> u64 { x = x.wrapping_add(0x9e3779b97f4a7c15); x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); x ^ (x >> 31) }

fn main() {
    let mut ctx = Ctx::from_args();
    if ctx.check != "P41" { eprintln!("no such check here"); std::process::exit(2) }
    ctx.rule("a circuit x allocation order x random source x assignment (complete, changed, with holes, of another circuit) x ciphertext (as made, damaged, with other publics), given to both builds of the core library; non-trivial: a circuit with constraints and public inputs, or a refusal");
    ctx.run("core-toy", ctx.n(8000, 150000), || (circ(6), step(), order(), any::<u64>()).boxed(), |(c, w, o, s)| one::<Toy>(c, w, o, *s));
    ctx.run("core-toy-large", ctx.n(120, 2500), || (circ(150), step(), order(), any::<u64>()).boxed(), |(c, w, o, s)| one::<Toy>(c, w, o, *s));
    ctx.run("core-bn254", ctx.n(300, 6000), || (circ(5), step(), order(), any::<u64>()).boxed(), |(c, w, o, s)| one::<Bn254>(c, w, o, *s));
    ctx.finish()
}
