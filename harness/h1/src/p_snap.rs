use crate::p_r1cs::{desc, Desc};
use crate::{core_serializable as k, serializable as c};
use hcommon::alloc::bounded;
use hcommon::runner::no_panic;
use hcommon::scratch::Scratch;
use hcommon::{ensure, *};
use proptest::prelude::*;
use std::collections::BTreeMap;

type L = Vec<(u32, Hex)>;
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cir { field_size: u32, prime: Hex, n: [u32; 5], cons: Vec<[L; 3]>, labels: Option<BTreeMap<u32, String>> }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case { cir: Cir, wit: BTreeMap<u32, Hex>, name: String, desc: Option<String> }
fn num() -> BoxedStrategy<u32> { prop_oneof![2 => 0u32..20, 1 => any::<u32>(), 1 => Just(u32::MAX), 1 => Just(0)].boxed() }
fn txt() -> BoxedStrategy<String> { prop_oneof![3 => "\\PC{0,16}", 1 => Just(String::new()), 2 => "[\\x00-\\x1f\"\\\\/\u{7f}-\u{a0}\u{2028}a-z]{0,8}", 1 => "\\PC{100,300}"].boxed() }
fn hx(n: usize) -> BoxedStrategy<Hex> { hcommon::bytes::bytes_len(0..n) }
fn case(maxc: usize) -> BoxedStrategy<Case> {
    let lc = || proptest::collection::vec((num(), hx(40)), 0..4);
    let cons = proptest::collection::vec((lc(), lc(), lc()).prop_map(|(a, b, c)| [a, b, c]), 0..maxc);
    let labels = proptest::option::of(proptest::collection::btree_map(num(), txt(), 0..8));
    let wit = proptest::collection::btree_map(num(), hx(40), 0..maxc * 2 + 1);
    ((num(), hx(70), [num(), num(), num(), num(), num()]), cons, labels, wit, txt(), proptest::option::of(txt()))
        .prop_map(|((field_size, prime, n), cons, labels, wit, name, desc)| Case { cir: Cir { field_size, prime, n, cons, labels }, wit, name, desc }).boxed()
}
macro_rules! conv { ($m:ident, $to:ident, $from:ident, $wto:ident, $wfrom:ident, $tto:ident, $tfrom:ident) => {
    fn $to(x: &Cir) -> $m::SerializableCircuit {
        let lc = |l: &L| $m::SerializableLC { factors: l.iter().map(|(w, b)| $m::SerializableFactor { wire_id: *w, coefficient_bytes: b.0.clone() }).collect() };
        $m::SerializableCircuit { field_size: x.field_size, prime_bytes: x.prime.0.clone(), n_wires: x.n[0], n_pub_out: x.n[1], n_pub_in: x.n[2], n_prv_in: x.n[3], n_constraints: x.n[4],
            constraints: x.cons.iter().map(|k| $m::SerializableConstraint { a: lc(&k[0]), b: lc(&k[1]), c: lc(&k[2]) }).collect(),
            wire_labels: x.labels.as_ref().map(|m| m.iter().map(|(k, v)| (*k, v.clone())).collect()) }
    }
    fn $from(x: &$m::SerializableCircuit) -> Cir {
        let lc = |l: &$m::SerializableLC| l.factors.iter().map(|f| (f.wire_id, Hex(f.coefficient_bytes.clone()))).collect::<L>();
        Cir { field_size: x.field_size, prime: Hex(x.prime_bytes.clone()), n: [x.n_wires, x.n_pub_out, x.n_pub_in, x.n_prv_in, x.n_constraints],
            cons: x.constraints.iter().map(|k| [lc(&k.a), lc(&k.b), lc(&k.c)]).collect(), labels: x.wire_labels.as_ref().map(|m| m.iter().map(|(k, v)| (*k, v.clone())).collect()) }
    }
    fn $wto(x: &BTreeMap<u32, Hex>) -> $m::SerializableWitness { $m::SerializableWitness { assignments: x.iter().map(|(k, v)| (*k, v.0.clone())).collect() } }
    fn $wfrom(x: &$m::SerializableWitness) -> BTreeMap<u32, Hex> { x.assignments.iter().map(|(k, v)| (*k, Hex(v.clone()))).collect() }
    fn $tto(x: &Case) -> $m::SerializableTestCase { $m::SerializableTestCase { circuit: $to(&x.cir), witness: $wto(&x.wit), name: x.name.clone(), description: x.desc.clone() } }
    fn $tfrom(x: &$m::SerializableTestCase) -> Case { Case { cir: $from(&x.circuit), wit: $wfrom(&x.witness), name: x.name.clone(), desc: x.description.clone() } }
} }
conv!(c, c_to, c_from, cw_to, cw_from, ct_to, ct_from);
conv!(k, k_to, k_from, kw_to, kw_from, kt_to, kt_from);
thread_local! { static DIR: Scratch = Scratch::new("snap"); }
fn s<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Result<T, Fail> { r.map_err(|e| format!("{what} failed: {e}")) }

/// Through every format, both copies of it, and files.
pub fn roundtrips(x: &Case) -> Res {
    let eq = |what: &str, got: Cir| -> Result<(), Fail> { ensure!(got == x.cir, "circuit through {}: {:?} became {:?}", what, x.cir, got); Ok(()) };
    let (a, b) = (c_to(&x.cir), k_to(&x.cir));
    let (ja, jb) = (s("to_json", a.to_json())?, s("to_json (core)", b.to_json())?);
    let (ba, bb) = (s("to_bincode", a.to_bincode())?, s("to_bincode (core)", b.to_bincode())?);
    eq("JSON", c_from(&s("from_json", c::SerializableCircuit::from_json(&ja))?))?;
    eq("JSON (core)", k_from(&s("from_json (core)", k::SerializableCircuit::from_json(&jb))?))?;
    eq("JSON, cli to core", k_from(&s("from_json (core)", k::SerializableCircuit::from_json(&ja))?))?;
    eq("JSON, core to cli", c_from(&s("from_json", c::SerializableCircuit::from_json(&jb))?))?;
    eq("bincode", c_from(&s("from_bincode", c::SerializableCircuit::from_bincode(&ba))?))?;
    eq("bincode (core)", k_from(&s("from_bincode (core)", k::SerializableCircuit::from_bincode(&bb))?))?;
    eq("bincode, cli to core", k_from(&s("from_bincode (core)", k::SerializableCircuit::from_bincode(&ba))?))?;
    eq("bincode, core to cli", c_from(&s("from_bincode", c::SerializableCircuit::from_bincode(&bb))?))?;
    let (wa, wb) = (cw_to(&x.wit), kw_to(&x.wit));
    let (wja, wjb) = (s("witness to_json", wa.to_json())?, s("witness to_json (core)", wb.to_json())?);
    for (n, g) in [("cli", cw_from(&s("witness from_json", c::SerializableWitness::from_json(&wja))?)), ("core", kw_from(&s("witness from_json (core)", k::SerializableWitness::from_json(&wjb))?)),
        ("cli to core", kw_from(&s("witness from_json (core)", k::SerializableWitness::from_json(&wja))?)), ("core to cli", cw_from(&s("witness from_json", c::SerializableWitness::from_json(&wjb))?))] {
        ensure!(g == x.wit, "witness through JSON ({}): {:?} became {:?}", n, x.wit, g);
    }
    DIR.with(|d| -> Result<(), Fail> {
        let f = |n: &str| d.s(n);
        // files are written over longer or shorter predecessors
        s("save_json", a.save_json(&f("a.json")))?; eq("JSON file", c_from(&s("load_json", c::SerializableCircuit::load_json(&f("a.json")))?))?;
        eq("JSON file, cli to core", k_from(&s("load_json", k::SerializableCircuit::load_json(&f("a.json")))?))?;
        s("save_bincode", a.save_bincode(&f("a.bin")))?; eq("bincode file", c_from(&s("load_bincode", c::SerializableCircuit::load_bincode(&f("a.bin")))?))?;
        eq("bincode file, cli to core", k_from(&s("load_bincode", k::SerializableCircuit::load_bincode(&f("a.bin")))?))?;
        s("save_json (core)", b.save_json(&f("b.json")))?; eq("JSON file, core to cli", c_from(&s("load_json", c::SerializableCircuit::load_json(&f("b.json")))?))?;
        eq("JSON file (core)", k_from(&s("load_json", k::SerializableCircuit::load_json(&f("b.json")))?))?;
        s("save_bincode (core)", b.save_bincode(&f("b.bin")))?; eq("bincode file, core to cli", c_from(&s("load_bincode", c::SerializableCircuit::load_bincode(&f("b.bin")))?))?;
        eq("bincode file (core)", k_from(&s("load_bincode", k::SerializableCircuit::load_bincode(&f("b.bin")))?))?;
        s("witness save_json", wa.save_json(&f("w.json")))?;
        ensure!(kw_from(&s("witness load_json (core)", k::SerializableWitness::load_json(&f("w.json")))?) == x.wit && cw_from(&s("witness load_json", c::SerializableWitness::load_json(&f("w.json")))?) == x.wit, "witness file differs");
        s("witness save_json (core)", wb.save_json(&f("w2.json")))?;
        ensure!(cw_from(&s("witness load_json", c::SerializableWitness::load_json(&f("w2.json")))?) == x.wit && kw_from(&s("witness load_json (core)", k::SerializableWitness::load_json(&f("w2.json")))?) == x.wit, "witness file (core) differs");
        s("case save_json", ct_to(x).save_json(&f("t.json")))?;
        for g in [ct_from(&s("case load_json", c::SerializableTestCase::load_json(&f("t.json")))?), kt_from(&s("case load_json (core)", k::SerializableTestCase::load_json(&f("t.json")))?)] { ensure!(g == *x, "test case file: {:?} became {:?}", x, g); }
        s("case save_json (core)", kt_to(x).save_json(&f("t2.json")))?;
        for g in [ct_from(&s("case load_json", c::SerializableTestCase::load_json(&f("t2.json")))?), kt_from(&s("case load_json (core)", k::SerializableTestCase::load_json(&f("t2.json")))?)] { ensure!(g == *x, "test case file (core): {:?} became {:?}", x, g); }
        Ok(())
    })?;
    Ok(Info::new(!x.cir.cons.is_empty() || !x.wit.is_empty()).label_if(x.cir.labels.is_some(), "labels").label_if(x.cir.cons.len() > 50, "large").label_if(x.cir.cons.is_empty() && x.wit.is_empty(), "empty"))
}
/// Many constraints, one long combination, many labels, or many assignments.
pub fn big_case(n: u32, shape: u8, seed: u64) -> Case {
    let m = |k: u64| { let mut x = (k ^ seed).wrapping_mul(0x9e3779b97f4a7c15); x ^= x >> 29; x.wrapping_mul(0xbf58476d1ce4e5b9) };
    let f = |k: u64| (m(k) as u32 % 100_000, Hex((0..4).flat_map(|i| m(k ^ i << 40).to_le_bytes()).collect()));
    let mut c = Case { cir: Cir { field_size: 32, prime: Hex(vec![7; 32]), n: [n, 1, 2, 3, n], cons: vec![[vec![f(1)], vec![], vec![f(2), f(3)]]; 2], labels: None }, wit: BTreeMap::new(), name: "big".into(), desc: None };
    match shape {
        0 => c.cir.cons = (0..n as u64).map(|i| [vec![f(i)], vec![f(i + 1)], vec![]]).collect(),
        1 => c.cir.cons[1][seed as usize % 3] = (0..n as u64).map(f).collect(),
        2 => c.cir.labels = Some((0..n).map(|i| (i, format!("main.sub{}.x[{}]", i % 13, i))).collect()),
        _ => c.wit = (0..n).map(|i| (i.wrapping_mul(3), f(i as u64).1)).collect(),
    }
    c
}

pub fn p22(ctx: &mut Ctx) {
    ctx.rule("circuits, witnesses and test cases with 0..7 (some 0..300) constraints, extreme numbers, arbitrary text; both copies of the format; conversions of parsed files; non-trivial: at least one constraint or assignment");
    ctx.run("snapshot-small", ctx.n(5000, 60000), || case(7), roundtrips);
    ctx.run("snapshot-large", ctx.n(60, 600), || case(300), roundtrips);
    // snapshots of many mebibytes
    let t = ctx.thorough;
    ctx.run("snapshot-huge", ctx.n(16, 60), move || (60_000u32..if t { 400_000 } else { 200_000 }, 0u8..4, any::<u64>()).boxed(), |(n, shape, seed)| {
        let x = big_case(*n, *shape, *seed);
        let (a, b, wa, wb) = (c_to(&x.cir), k_to(&x.cir), cw_to(&x.wit), kw_to(&x.wit));
        let eq = |n: &str, g: Cir| -> Result<(), Fail> { ensure!(g == x.cir, "{}: a large snapshot came back as another one", n); Ok(()) };
        let e = s("to_bincode", a.to_bincode())?; let big = e.len() > 8 << 20;
        eq("bincode", c_from(&s("from_bincode", c::SerializableCircuit::from_bincode(&e))?))?;
        let e = s("to_bincode (core)", b.to_bincode())?;
        eq("bincode (core)", k_from(&s("from_bincode (core)", k::SerializableCircuit::from_bincode(&e))?))?;
        DIR.with(|d| -> Result<(), Fail> {
            let f = |n: &str| d.s(n);
            s("save_bincode", a.save_bincode(&f("h.bin")))?; eq("bincode file", c_from(&s("load_bincode", c::SerializableCircuit::load_bincode(&f("h.bin")))?))?;
            s("save_bincode (core)", b.save_bincode(&f("h.bin")))?; eq("bincode file (core)", k_from(&s("load_bincode (core)", k::SerializableCircuit::load_bincode(&f("h.bin")))?))?;
            s("save_json", a.save_json(&f("h.json")))?; eq("JSON file", c_from(&s("load_json", c::SerializableCircuit::load_json(&f("h.json")))?))?;
            s("save_json (core)", b.save_json(&f("h.json")))?; eq("JSON file (core)", k_from(&s("load_json (core)", k::SerializableCircuit::load_json(&f("h.json")))?))?;
            s("witness save_json", wa.save_json(&f("h.json")))?;
            ensure!(cw_from(&s("witness load_json", c::SerializableWitness::load_json(&f("h.json")))?) == x.wit, "a large witness file came back as another one");
            s("witness save_json (core)", wb.save_json(&f("h.json")))?;
            ensure!(kw_from(&s("witness load_json (core)", k::SerializableWitness::load_json(&f("h.json")))?) == x.wit, "a large witness file (core) came back as another one");
            for n in ["h.bin", "h.json"] { let _ = std::fs::remove_file(f(n)); }
            Ok(())
        })?;
        Ok(Info::new(true).label_if(big, "more than 8 MiB").label_if(!x.wit.is_empty(), "witness"))
    });
    ctx.run("convert-r1cs", ctx.n(10000, 100000), || desc(9, 40), |d: &Desc| {
        let r = DIR.with(|s| { let p = s.write("c.r1cs", &d.bytes()); crate::r1cs::R1csFile::from_file(&p) }).map_err(|e| format!("a well-formed file was refused: {e:#}"))?;
        let g = c_from(&no_panic("to_serializable", || r.to_serializable())?);
        let w = Cir { field_size: d.field_size, prime: Hex(d.prime()), n: [d.n_wires(), d.n_pub_out, d.n_pub_in, d.n_prv_in, d.constraints.len() as u32],
            cons: d.cons().into_iter().map(|x| x.map(|l| l.into_iter().map(|(a, b)| (a, Hex(b))).collect())).collect(), labels: None };
        ensure!((g.field_size, &g.prime, g.n, &g.cons) == (w.field_size, &w.prime, w.n, &w.cons), "snapshot of a parsed file: {:?} instead of {:?}", g, w);
        Ok(Info::new(!d.constraints.is_empty()))
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Dmg { Cut(u32), Bytes(Vec<(u32, u8)>), Len(u32, u8), Raw(Hex), Missing(u32) }
fn dmg() -> BoxedStrategy<Dmg> {
    prop_oneof![4 => any::<u32>().prop_map(Dmg::Cut), 4 => proptest::collection::vec((any::<u32>(), any::<u8>()), 1..6).prop_map(Dmg::Bytes), 4 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Dmg::Len(a, b)),
        1 => hx(60).prop_map(Dmg::Raw), 1 => any::<u32>().prop_map(Dmg::Missing)].boxed()
}
fn hurt(b: &[u8], d: &Dmg, step: usize) -> Option<(Vec<u8>, bool)> {
    if b.is_empty() { return None; }
    Some(match d {
        Dmg::Cut(n) => (b[..*n as usize % b.len()].to_vec(), true),
        Dmg::Bytes(m) => { let mut v = b.to_vec(); for (p, x) in m { let p = *p as usize % v.len(); v[p] = *x } (v, false) }
        Dmg::Len(p, x) => { let mut v = b.to_vec(); let p = *p as usize % v.len() / step * step; let val: u64 = [u64::MAX, 1 << 63, 1 << 40, 1 << 32, 0xffff_ffff, 1 << 28, 0, 255, i64::MAX as u64][*x as usize % 9]; let n = (v.len() - p).min(8); v[p..p + n].copy_from_slice(&val.to_le_bytes()[..n]); (v, false) }
        Dmg::Raw(r) => (r.0.clone(), false),
        Dmg::Missing(_) => return None,
    })
}
pub fn p23(ctx: &mut Ctx) {
    ctx.rule("encodings of random snapshots cut at any point, with bytes or length words replaced, or random bytes; missing files; non-trivial: the bytes differ from the encoding");
    ctx.risky = true;
    ctx.run("snapshot-damaged", ctx.n(30000, 400000), || (case(5), dmg(), 0u8..2, 1usize..5).boxed(), |(x, d, text, step)| {
        let a = c_to(&x.cir);
        if let Dmg::Missing(n) = d {
            let f = DIR.with(|s| s.s(&format!("missing{n}")));
            ensure!(c::SerializableCircuit::load_json(&f).is_err() && k::SerializableCircuit::load_json(&f).is_err() && c::SerializableCircuit::load_bincode(&f).is_err() && k::SerializableCircuit::load_bincode(&f).is_err()
                && c::SerializableWitness::load_json(&f).is_err() && k::SerializableWitness::load_json(&f).is_err() && c::SerializableTestCase::load_json(&f).is_err() && k::SerializableTestCase::load_json(&f).is_err(), "a missing file was accepted");
            return Ok(Info::new(true).label("missing file"));
        }
        let kind = format!("{:?}", d).split('(').next().unwrap().to_string();
        if *text == 0 {
            let e = a.to_bincode().map_err(|e| e.to_string())?;
            let Some((b, must)) = hurt(&e, d, *step) else { return Ok(Info::new(false)) };
            let r = bounded(b.len(), || no_panic("from_bincode", || c::SerializableCircuit::from_bincode(&b)))??;
            let r2 = bounded(b.len(), || no_panic("from_bincode (core)", || k::SerializableCircuit::from_bincode(&b)))??;
            ensure!(!must || (r.is_err() && r2.is_err()), "{} of {} bytes of a binary snapshot were accepted", b.len(), e.len());
            let f = DIR.with(|s| s.write("d.bin", &b));
            let (r3, r4) = (no_panic("load_bincode", || c::SerializableCircuit::load_bincode(&f).is_err())?, no_panic("load_bincode (core)", || k::SerializableCircuit::load_bincode(&f).is_err())?);
            ensure!(!must || (r3 && r4), "a truncated binary snapshot file was accepted");
            return Ok(Info::new(b != e).label(format!("binary {kind}")));
        }
        let tj = serde_json::to_string_pretty(&ct_to(x)).map_err(|e| e.to_string())?;
        for (what, e) in [("circuit", a.to_json().map_err(|e| e.to_string())?), ("witness", cw_to(&x.wit).to_json().map_err(|e| e.to_string())?), ("case", tj)] {
            let Some((b, must)) = hurt(e.as_bytes(), d, *step) else { continue };
            let t = String::from_utf8_lossy(&b).to_string();
            let f = DIR.with(|s| s.write("d.json", &b));
            let (r, r2) = match what {
                "circuit" => (bounded(b.len(), || no_panic("from_json", || c::SerializableCircuit::from_json(&t).is_err() && c::SerializableCircuit::load_json(&f).is_err()))??, bounded(b.len(), || no_panic("from_json (core)", || k::SerializableCircuit::from_json(&t).is_err() && k::SerializableCircuit::load_json(&f).is_err()))??),
                "witness" => (bounded(b.len(), || no_panic("witness from_json", || c::SerializableWitness::from_json(&t).is_err() && c::SerializableWitness::load_json(&f).is_err()))??, bounded(b.len(), || no_panic("witness from_json (core)", || k::SerializableWitness::from_json(&t).is_err() && k::SerializableWitness::load_json(&f).is_err()))??),
                _ => (bounded(b.len(), || no_panic("case load_json", || c::SerializableTestCase::load_json(&f).is_err()))??, bounded(b.len(), || no_panic("case load_json (core)", || k::SerializableTestCase::load_json(&f).is_err()))??),
            };
            ensure!(!must || (r && r2), "{} of {} bytes of a text {} were accepted", b.len(), e.len(), what);
        }
        Ok(Info::new(true).label(format!("text {kind}")))
    });
}

// ------------------------------------------------------------------ P39 the stored layout, by independent writers and readers
fn b_vec(o: &mut Vec<u8>, b: &[u8]) { o.extend((b.len() as u64).to_le_bytes()); o.extend(b); }
/// The binary layout up to the labels.
fn b_head(x: &Cir) -> Vec<u8> {
    let mut o = x.field_size.to_le_bytes().to_vec();
    b_vec(&mut o, &x.prime.0);
    for n in x.n { o.extend(n.to_le_bytes()); }
    o.extend((x.cons.len() as u64).to_le_bytes());
    for l in x.cons.iter().flatten() { o.extend((l.len() as u64).to_le_bytes()); for (w, c) in l { o.extend(w.to_le_bytes()); b_vec(&mut o, &c.0); } }
    o
}
fn b_circuit(x: &Cir, seed: u64) -> Vec<u8> {
    let mut o = b_head(x);
    match &x.labels { None => o.push(0), Some(m) => { o.push(1); o.extend((m.len() as u64).to_le_bytes()); let mut e: Vec<_> = m.iter().collect(); if !e.is_empty() { let k = seed as usize % e.len(); e.rotate_left(k); } for (k, v) in e { o.extend(k.to_le_bytes()); b_vec(&mut o, v.as_bytes()); } } }
    o
}
/// The labels behind `b_head`, read independently of their order.
fn b_labels(b: &[u8]) -> Option<Option<BTreeMap<u32, String>>> {
    let mut p = 0; let mut take = |n: usize| { let r = b.get(p..p + n); p += n; r };
    let r = match take(1)?[0] { 0 => None, 1 => { let n = u64::from_le_bytes(take(8)?.try_into().ok()?); let mut m = BTreeMap::new(); for _ in 0..n { let k = u32::from_le_bytes(take(4)?.try_into().ok()?); let l = u64::from_le_bytes(take(8)?.try_into().ok()?); if m.insert(k, String::from_utf8(take(l as usize)?.to_vec()).ok()?).is_some() { return None; } } Some(m) } _ => return None };
    if p == b.len() { Some(r) } else { None }
}
use serde_json::{json, Value};
fn j_circuit(x: &Cir) -> Value {
    let lc = |l: &L| json!({ "factors": l.iter().map(|(w, c)| json!({ "wire_id": w, "coefficient_bytes": c.0 })).collect::<Vec<_>>() });
    json!({ "field_size": x.field_size, "prime_bytes": x.prime.0, "n_wires": x.n[0], "n_pub_out": x.n[1], "n_pub_in": x.n[2], "n_prv_in": x.n[3], "n_constraints": x.n[4],
        "constraints": x.cons.iter().map(|k| json!({ "a": lc(&k[0]), "b": lc(&k[1]), "c": lc(&k[2]) })).collect::<Vec<_>>(),
        "wire_labels": x.labels.as_ref().map(|m| m.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>()) })
}
fn j_witness(x: &BTreeMap<u32, Hex>) -> Value { json!({ "assignments": x.iter().map(|(k, v)| (k.to_string(), json!(v.0))).collect::<serde_json::Map<_, _>>() }) }
fn j_case(x: &Case) -> Value { json!({ "circuit": j_circuit(&x.cir), "witness": j_witness(&x.wit), "name": x.name, "description": x.desc }) }
/// JSON text of the value with its keys in another order and other spacing.
fn j_text(v: &Value, seed: u64) -> String {
    let sp = if seed % 2 == 0 { "" } else { "\n " };
    match v {
        Value::Object(m) => { let mut e: Vec<_> = m.iter().collect(); if !e.is_empty() { let k = (seed / 2) as usize % e.len(); e.rotate_left(k); } format!("{{{sp}{}{sp}}}", e.iter().map(|(k, v)| format!("{}:{sp}{}", Value::String(k.to_string()), j_text(v, seed))).collect::<Vec<_>>().join(&format!(",{sp}"))) }
        Value::Array(a) => format!("[{}{sp}]", a.iter().map(|v| j_text(v, seed)).collect::<Vec<_>>().join(",")),
        v => v.to_string(),
    }
}
pub fn p39(ctx: &mut Ctx) {
    ctx.rule("snapshots of generated circuits, witnesses and test cases: what the repository writes is read by an independent reader, and what an independent writer lays down is read by the repository; non-trivial: at least one constraint or assignment");
    fn layout(x: &Case, seed: u64) -> Res {
        let head = b_head(&x.cir);
        for (n, b) in [("cli", s("to_bincode", c_to(&x.cir).to_bincode())?), ("core", s("to_bincode (core)", k_to(&x.cir).to_bincode())?)] {
            ensure!(b.starts_with(&head), "binary snapshot ({}) does not have the layout of stored files", n);
            ensure!(b_labels(&b[head.len()..]).as_ref() == Some(&x.cir.labels), "labels of a binary snapshot ({}) do not have the layout of stored files", n);
        }
        let own = b_circuit(&x.cir, seed);
        ensure!(c_from(&s("from_bincode of a stored snapshot", c::SerializableCircuit::from_bincode(&own))?) == x.cir, "a stored binary snapshot is read as another circuit");
        ensure!(k_from(&s("from_bincode (core) of a stored snapshot", k::SerializableCircuit::from_bincode(&own))?) == x.cir, "a stored binary snapshot is read as another circuit (core)");
        let same = |what: &str, text: &str, want: &Value| -> Result<(), Fail> { let g: Value = s(what, serde_json::from_str(text))?; ensure!(g == *want, "{}: {} instead of {}", what, g, want); Ok(()) };
        let (jc, jw, jt) = (j_circuit(&x.cir), j_witness(&x.wit), j_case(x));
        same("text of a circuit", &s("to_json", c_to(&x.cir).to_json())?, &jc)?; same("text of a circuit (core)", &s("to_json", k_to(&x.cir).to_json())?, &jc)?;
        same("text of a witness", &s("to_json", cw_to(&x.wit).to_json())?, &jw)?; same("text of a witness (core)", &s("to_json", kw_to(&x.wit).to_json())?, &jw)?;
        let (tc, tw, tt) = (j_text(&jc, seed), j_text(&jw, seed), j_text(&jt, seed));
        ensure!(c_from(&s("from_json of stored text", c::SerializableCircuit::from_json(&tc))?) == x.cir && k_from(&s("from_json (core) of stored text", k::SerializableCircuit::from_json(&tc))?) == x.cir, "stored text is read as another circuit");
        ensure!(cw_from(&s("from_json of stored text", c::SerializableWitness::from_json(&tw))?) == x.wit && kw_from(&s("from_json (core) of stored text", k::SerializableWitness::from_json(&tw))?) == x.wit, "stored text is read as another witness");
        DIR.with(|d| -> Result<(), Fail> {
            let f = d.s("stored.json");
            s("save_json", ct_to(x).save_json(&f))?; same("a saved test case", &s("read", std::fs::read_to_string(&f))?, &jt)?;
            s("save_json", kt_to(x).save_json(&f))?; same("a saved test case (core)", &s("read", std::fs::read_to_string(&f))?, &jt)?;
            let f = d.write("stored2.json", tt.as_bytes());
            ensure!(ct_from(&s("load_json of a stored test case", c::SerializableTestCase::load_json(&f))?) == *x && kt_from(&s("load_json (core) of a stored test case", k::SerializableTestCase::load_json(&f))?) == *x, "a stored test case is read differently");
            let f = d.write("stored.bin", &own);
            ensure!(c_from(&s("load_bincode of a stored snapshot", c::SerializableCircuit::load_bincode(&f))?) == x.cir && k_from(&s("load_bincode (core) of a stored snapshot", k::SerializableCircuit::load_bincode(&f))?) == x.cir, "a stored binary file is read differently");
            Ok(())
        })?;
        Ok(Info::new(!x.cir.cons.is_empty() || !x.wit.is_empty()).label_if(x.cir.labels.is_some(), "labels"))
    }
    ctx.run("snapshot-layout", ctx.n(6000, 60000), || (case(7), any::<u64>()).boxed(), |(x, s)| layout(x, *s));
    ctx.run("snapshot-layout-large", ctx.n(60, 600), || (case(300), any::<u64>()).boxed(), |(x, s)| layout(x, *s));
}
