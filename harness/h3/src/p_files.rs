//! P09 (circuit file -> constraint system), P12 (witness files), P30 (native layer of the JS library).
use crate::circ::*;
use crate::cli;
use crate::p_cli::{recorded, to_f, to_fr};
use crate::p_core::{err, Syn};
use ark_bn254::{Bn254, Fr};
use ark_relations::gr1cs::{ConstraintSynthesizer, ConstraintSystem, R1CS_PREDICATE_LABEL};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use hcommon::alloc::bounded;
use hcommon::bytes::bytes_len;
use hcommon::field::{fe, F, P};
use hcommon::formats::*;
use hcommon::runner::no_panic;
use hcommon::scratch::Scratch;
use hcommon::{ensure, *};
use proptest::prelude::*;
use rand::{rngs::StdRng, SeedableRng};
use std::collections::{BTreeMap, HashMap};
use zkenc_cli::circuit::CircomCircuit;
use zkenc_cli::witness::WitnessFile;
use zkenc_core::{decap, encap, Ciphertext};

thread_local! { static DIR: Scratch = Scratch::new("files"); }
fn put(n: &str, b: &[u8]) -> String { DIR.with(|d| d.write(n, b)) }
fn n_pub(c: &Circ) -> usize { c.n_pub() as usize }
/// A ciphertext for the given public inputs, made without the code that reads circuit files.
fn sealed(c: &Circ, rows: &[Row], at: &[F], seed: u64) -> Result<(Ciphertext<Bn254>, zkenc_core::Key, Vec<u8>), Fail> {
    let (ct, k) = encap::<Bn254, _, _>(Syn::of(rows, n_pub(c), at).public_only(), &mut StdRng::seed_from_u64(seed)).map_err(err)?;
    let mut b = vec![]; ct.serialize_compressed(&mut b).map_err(|e| format!("{e:?}"))?;
    Ok((ct, k, b))
}
fn js_decap(r: &[u8], w: &[u8], ct: &[u8]) -> Result<Result<Vec<u8>, String>, Fail> { no_panic("wasm_decap", || zkenc_js::wasm_decap(r, w, ct).map_err(|e| e.as_string().unwrap_or_default())) }
fn js_encap(r: &[u8], w: &[u8]) -> Result<Result<(Vec<u8>, Vec<u8>), String>, Fail> { no_panic("wasm_encap", || zkenc_js::wasm_encap(r, w).map(|x| (x.ciphertext(), x.key())).map_err(|e| e.as_string().unwrap_or_default())) }

// ------------------------------------------------------------------ P09
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Asg { Good, Wires(Vec<(u32, u64)>), Rows(Tweak), Random(Vec<F>) }
fn asg() -> BoxedStrategy<Asg> { prop_oneof![3 => Just(Asg::Good), 2 => proptest::collection::vec((any::<u32>(), any::<u64>()), 1..3).prop_map(Asg::Wires), 5 => tweak().prop_map(Asg::Rows), 1 => proptest::collection::vec(fe(), 0..20).prop_map(Asg::Random)].boxed() }
fn with(c: &Circ, a: &Asg) -> (Vec<RowK>, Vec<F>) {
    let (mut rows, mut at) = (c.rows_k(), c.assignment());
    match a {
        Asg::Good => {}
        Asg::Wires(v) => for (k, s) in v { let n = at.len() - 1; let k = 1 + *k as usize % n; at[k] = other(&at[k], &mut Rng(*s)) },
        Asg::Rows(t) => rows = tweaked(rows, t, c.n_wires()),
        Asg::Random(v) => for (k, x) in v.iter().enumerate() { if k + 1 < at.len() { at[k + 1] = *x } },
    }
    (rows, at)
}
fn summed<T: Iterator<Item = (u32, F)>>(l: T) -> BTreeMap<u32, F> { let mut m = BTreeMap::new(); for (w, c) in l { let e = m.entry(w).or_insert(F::ZERO); *e = e.add(&c); } m.retain(|_, c| !c.is_zero()); m }
pub fn p09(ctx: &mut Ctx) {
    ctx.rule("circuit files (0..8, some 0..150 constraints, repeated and cancelling terms, coefficients above the prime, wider coefficient fields, any section order) x satisfying, near-satisfying and random assignments; non-trivial: at least one constraint");
    let system = |c: &Circ, a: &Asg| -> Res {
        let (rk, at) = with(c, a);
        let path = put("c.r1cs", &c.r1cs_of(&rk));
        let mut q = CircomCircuit::from_r1cs(&path).map_err(|e| format!("a well-formed circuit file was refused: {e:#}"))?;
        ensure!(q.n_public_inputs() as usize == n_pub(c) && q.n_constraints() as usize == rk.len(), "{} public inputs and {} constraints instead of {} and {}", q.n_public_inputs(), q.n_constraints(), n_pub(c), rk.len());
        q.set_witness(at.iter().enumerate().skip(1).map(|(i, v)| (i as u32, to_fr(v))).collect::<HashMap<_, _>>());
        let cs = ConstraintSystem::<Fr>::new_ref();
        no_panic("generate_constraints", || q.generate_constraints(cs.clone()))?.map_err(|e| format!("synthesis failed: {e:?}"))?;
        ensure!(cs.num_instance_variables() == n_pub(c) + 1, "{} instance variables for {} public wires", cs.num_instance_variables(), n_pub(c));
        ensure!(cs.num_witness_variables() == c.n_wires() as usize - 1 - n_pub(c), "{} private variables for {} private wires", cs.num_witness_variables(), c.n_wires() as usize - 1 - n_pub(c));
        let inst: Vec<F> = cs.instance_assignment().map_err(|e| format!("{e:?}"))?.iter().map(to_f).collect();
        let wit: Vec<F> = cs.witness_assignment().map_err(|e| format!("{e:?}"))?.iter().map(to_f).collect();
        ensure!(inst == at[..=n_pub(c)], "instance variables {:?} instead of the public wires {:?}", inst, &at[..=n_pub(c)]);
        ensure!(wit == at[n_pub(c) + 1..], "private variables {:?} instead of {:?}", wit, &at[n_pub(c) + 1..]);
        let m = cs.to_matrices().map_err(|e| format!("{e:?}"))?;
        let m = m.get(R1CS_PREDICATE_LABEL).ok_or("no rank-1 constraints")?;
        for (k, side) in m.iter().enumerate() {
            ensure!(side.len() == rk.len(), "{} constraints instead of {}", side.len(), rk.len());
            for (j, row) in side.iter().enumerate() {
                let (got, want) = (summed(row.iter().map(|(c, i)| (*i as u32, to_f(c)))), summed(rk[j][k].iter().map(|(w, c, _)| (*w, *c))));
                ensure!(got == want, "constraint {j} part {}: {:?} instead of {:?}", ["A", "B", "C"][k], got, want);
            }
        }
        let sat = satisfies(&plain(rk.clone()), &at);
        ensure!(cs.is_satisfied().map_err(|e| format!("{e:?}"))? == sat, "the constraint system is {}satisfied", if sat { "not " } else { "" });
        Ok(Info::new(!rk.is_empty()).label(if sat { "satisfied" } else { "violated" }).label(format!("{:?}", a).split('(').next().unwrap().to_string()).label_if(rk.iter().flatten().any(|l| { let mut s = std::collections::HashSet::new(); l.iter().any(|t| !s.insert(t.0)) }), "repeated wire").label_if(rk.iter().flatten().flatten().any(|t| t.2 > 0), "coefficient above the prime").label_if(c.wide >= 12, "wider coefficients"))
    };
    ctx.run("cli-system", ctx.n(12000, 150000), || (circ(8), asg()).boxed(), |(c, a)| system(c, a));
    ctx.run("cli-system-large", ctx.n(200, 3000), || (circ(150), asg()).boxed(), |(c, a)| system(c, a));
    // the JS native layer shows what it built through what it accepts
    let js = |c: &Circ, a: &Asg, seed: u64| -> Res {
        let (rk, at) = with(c, a);
        let rows = plain(rk.clone());
        let sat = satisfies(&rows, &at);
        let (ct, _, b) = sealed(c, &rows, &at, seed)?;
        let r = js_decap(&c.r1cs_of(&rk), &wtns_of(&at), &b)?;
        if sat {
            let k = r.map_err(|e| format!("a satisfying witness was refused: {e}"))?;
            let want = decap::<Bn254, _>(Syn::of(&rows, n_pub(c), &at), &ct).map_err(err)?;
            ensure!(k == want.as_bytes(), "another key");
        } else { ensure!(r.is_err(), "a witness that violates a constraint was accepted"); }
        Ok(Info::new(!rk.is_empty()).label(if sat { "satisfied" } else { "violated" }).label(format!("{:?}", a).split('(').next().unwrap().to_string()))
    };
    ctx.run("js-gate", ctx.n(2500, 30000), || (circ(6), asg(), any::<u64>()).boxed(), |(c, a, s)| js(c, a, *s));
    ctx.run("js-gate-large", ctx.n(60, 1000), || (circ(80), asg(), any::<u64>()).boxed(), |(c, a, s)| js(c, a, *s));
}

// ------------------------------------------------------------------ P12
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wt { n8: u8, vals: Vec<F>, over: Vec<(u32, u8)>, order: [u8; 2], unknown: Vec<(u8, u32, u32, u8)>, trail: Hex }
fn wt(max: usize) -> BoxedStrategy<Wt> {
    (prop_oneof![8 => Just(32u8), 1 => 33u8..80, 1 => 1u8..32], proptest::collection::vec(fe(), 1..max), prop_oneof![4 => Just(vec![]), 1 => proptest::collection::vec((any::<u32>(), 1u8..6), 1..3)], any::<[u8; 2]>(),
        prop_oneof![3 => Just(vec![]), 2 => proptest::collection::vec((any::<u8>(), prop_oneof![3u32..8, any::<u32>(), Just(0u32)], prop_oneof![4 => 0u32..60, 1 => 0u32..20_000], any::<u8>()), 1..4)], prop_oneof![9 => Just(Hex(vec![])), 1 => bytes_len(1..20)])
        .prop_map(|(n8, vals, over, order, unknown, trail)| Wt { n8, vals, over, order, unknown, trail }).boxed()
}
impl Wt {
    fn prime(&self) -> Vec<u8> { let mut v: Vec<u8> = P.iter().flat_map(|x| x.to_le_bytes()).collect(); v.resize(self.n8 as usize, 0); v }
    /// (encoded values, all canonical)
    fn values(&self) -> (Vec<Vec<u8>>, bool) {
        let n = self.n8 as usize; let mut ok = n >= 32;
        let mut v: Vec<Vec<u8>> = self.vals.iter().map(|x| { let mut b = x.le32().to_vec(); b.resize(n, 0); b }).collect();
        if n >= 32 { for (k, m) in &self.over { let i = *k as usize % v.len(); let x = if n > 32 && m % 2 == 0 { let mut b = self.vals[i].le32().to_vec(); b.resize(n, 0); b[32 + (*k as usize >> 8) % (n - 32)] = *m; b } else if *m == 5 { let mut b = vec![0xff; 32]; b.resize(n, 0); b } else if *m == 3 { let mut b: Vec<u8> = self.prime(); b.resize(n, 0); b } else { let mut b = self.vals[i].le_plus(*m as u32, 32).or_else(|| self.vals[i].le_plus(1, 32)).unwrap(); b.resize(n, 0); b }; v[i] = x; ok = false; } }
        (v, ok)
    }
    fn sections(&self) -> Vec<(u32, Vec<u8>)> {
        let (vals, _) = self.values();
        let mut h = vec![]; u32le(&mut h, self.n8 as u32); h.extend(self.prime()); u32le(&mut h, vals.len() as u32);
        let mut v = vec![(self.order[0], 1u32, h), (self.order[1], 2, vals.concat())];
        for (o, t, n, f) in &self.unknown { v.push((*o, if *t == 1 || *t == 2 { 9 } else { *t }, (0..*n).map(|i| if f % 3 == 0 { *f } else { mix(i as u64 + *f as u64) as u8 }).collect())); }
        v.sort_by_key(|x| x.0);
        v.into_iter().map(|(_, t, b)| (t, b)).collect()
    }
    fn bytes(&self) -> Vec<u8> { let mut b = file(b"wtns", 2, &self.sections()); b.extend_from_slice(&self.trail); b }
}
fn read(b: &[u8]) -> Result<anyhow::Result<WitnessFile>, Fail> { let p = put("w.wtns", b); bounded(b.len(), || no_panic("WitnessFile::from_file", || WitnessFile::from_file(&p)))? }
fn elements(b: usize, w: &WitnessFile) -> Result<anyhow::Result<HashMap<u32, Fr>>, Fail> { bounded(b, || no_panic("to_field_elements", || w.to_field_elements::<Fr>()))? }
fn exact(d: &Wt) -> Res {
    let b = d.bytes();
    let r = read(&b)?;
    let (vals, canonical) = d.values();
    let r = match r { Ok(r) => r, Err(e) => {
        if d.trail.is_empty() && canonical { return Err(format!("a well-formed witness file was refused: {e:#}")); }
        return Ok(Info::new(true).label("refused"));
    } };
    ensure!(r.prime == d.prime(), "the prime differs");
    ensure!(r.n_wires() as usize == vals.len() && r.n_witness as usize == vals.len() && r.assignments.len() == vals.len(), "{} values instead of {}", r.assignments.len(), vals.len());
    for (i, v) in vals.iter().enumerate() { ensure!(r.assignments.get(&(i as u32)) == Some(v), "wire {i} has another value"); }
    let e = elements(b.len(), &r)?;
    match e {
        Ok(m) => {
            if d.n8 < 32 { return Ok(Info::new(false).label("narrow values")); } // not a file for this field
            ensure!(canonical, "values that are not below the prime (or too narrow) were accepted");
            ensure!(m.len() == vals.len(), "{} elements instead of {}", m.len(), vals.len());
            for (i, v) in d.vals.iter().enumerate() { ensure!(m.get(&(i as u32)).map(to_f) == Some(*v), "wire {i} is {:?} instead of {}", m.get(&(i as u32)).map(|x| to_f(x).dec()), v.dec()); }
        }
        Err(e) => ensure!(!canonical, "values below the prime were refused: {e:#}"),
    }
    Ok(Info::new(vals.len() > 1).label_if(d.order[0] > d.order[1], "values before header").label_if(!d.unknown.is_empty(), "extra sections").label_if(!canonical, "value outside the field").label_if(d.n8 > 32, "wider values").label_if(b.len() > 8192, "larger than the read buffer"))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Hurt { Cut(u32), Magic(u8, u8), Version(u32), Without(u8), Empty, Sections(u8), SectionSize(u8, u8), FieldSize(u8), Count(u8), CountBy(i8), SizeBy(u8, i8), ValueBytes(u8, i8), Bytes(Vec<(u32, u8)>), Words(Vec<(u32, u8)>), Raw(Hex), Splice(u32, u32, u32), Twice(u8) }
fn hurt() -> BoxedStrategy<Hurt> {
    let w = any::<u8>;
    prop_oneof![6 => any::<u32>().prop_map(Hurt::Cut), 1 => (0u8..4, 1u8..=255).prop_map(|(a, b)| Hurt::Magic(a, b)), 1 => hcommon::bytes::not_quite(2).prop_map(Hurt::Version), 1 => (1u8..3).prop_map(Hurt::Without), 1 => Just(Hurt::Empty), 1 => w().prop_map(Hurt::Sections), 2 => (w(), w()).prop_map(|(a, b)| Hurt::SectionSize(a, b)), 1 => w().prop_map(Hurt::FieldSize), 2 => w().prop_map(Hurt::Count), 2 => any::<i8>().prop_map(Hurt::CountBy), 2 => (w(), any::<i8>()).prop_map(|(a, b)| Hurt::SizeBy(a, b)), 2 => (w(), any::<i8>()).prop_map(|(a, b)| Hurt::ValueBytes(a, b)),
        5 => proptest::collection::vec((any::<u32>(), w()), 1..6).prop_map(Hurt::Bytes), 4 => proptest::collection::vec((any::<u32>(), w()), 1..3).prop_map(Hurt::Words), 1 => bytes_len(0..80).prop_map(Hurt::Raw), 2 => (any::<u32>(), any::<u32>(), 1u32..40).prop_map(|(a, b, c)| Hurt::Splice(a, b, c)), 1 => (1u8..3).prop_map(Hurt::Twice)].boxed()
}
fn absurd32(k: u8) -> u32 { [u32::MAX, u32::MAX - 1, 0x8000_0000, 0x7fff_ffff, 0x1000_0000, 0x2000_0001, 0xffff_0000, 0x0100_0000, 0xaaaa_aaaa, 0x4000_0000, 0x0800_0000, 0xffff_fff8][k as usize % 12] }
fn absurd64(k: u8) -> u64 { [u64::MAX, i64::MAX as u64, 1 << 63, u64::MAX - 11, u64::MAX - 23, 1 << 62, 1 << 40, (1 << 32) + 4, 0xffff_ffff, u64::MAX - 100, 0x8000_0000_0000_0001, u64::MAX - 35, u64::MAX - 7, 1 << 33][k as usize % 14] }
fn step(d: i8) -> i64 { if d == 0 { 1 } else { d as i64 } }
fn free(b: &[u8], h: &Hurt) -> Option<Vec<u8>> {
    let mut v = b.to_vec();
    match h {
        Hurt::Bytes(m) => for (p, x) in m { let p = *p as usize % v.len(); v[p] = *x },
        Hurt::Words(m) => for (p, x) in m { let p = (*p as usize % (v.len() / 4)) * 4; v[p..p + 4].copy_from_slice(&absurd32(*x).to_le_bytes()) },
        Hurt::Raw(x) => v = x.0.clone(),
        Hurt::Splice(a, c, n) => { let (a, c) = (*a as usize % v.len(), *c as usize % v.len()); let n = (*n as usize).min(v.len() - a).min(v.len() - c); v.copy_within(a..a + n, c) }
        _ => return None,
    }
    Some(v)
}
/// (bytes, must be refused)
fn damage(d: &Wt, h: &Hurt) -> (Vec<u8>, bool) {
    let secs = d.sections();
    let b = file(b"wtns", 2, &secs);
    if let Some(v) = free(&b, h) { let short = v.len() < 12; return (v, short); }
    let start = |i: usize| 12 + secs[..i].iter().map(|(_, s)| 12 + s.len()).sum::<usize>();
    let idx = |t: u32| secs.iter().position(|(x, _)| *x == t).unwrap();
    let put = |off: usize, x: &[u8]| { let mut v = b.clone(); v[off..off + x.len()].copy_from_slice(x); v };
    let hdr = start(idx(1)) + 12; let n8 = d.n8 as usize;
    let differs = |v: Vec<u8>| { let x = v != b; (v, x) };
    match h {
        Hurt::Cut(n) => (b[..*n as usize % b.len()].to_vec(), true),
        Hurt::Magic(i, x) => { let mut v = b.clone(); v[*i as usize] ^= x; (v, true) }
        Hurt::Version(x) => differs(put(4, &x.to_le_bytes())),
        Hurt::Without(t) => (file(b"wtns", 2, &secs.iter().filter(|(x, _)| *x != *t as u32).cloned().collect::<Vec<_>>()), true),
        Hurt::Empty => (file(b"wtns", 2, &[]), true),
        Hurt::Sections(k) => (put(8, &absurd32(*k).to_le_bytes()), true),
        Hurt::SectionSize(i, k) => { let i = *i as usize % secs.len(); (put(start(i) + 4, &absurd64(*k).to_le_bytes()), true) }
        Hurt::FieldSize(k) => (put(hdr, &absurd32(*k).to_le_bytes()), true),
        Hurt::Count(k) => (put(hdr + 4 + n8, &absurd32(*k).to_le_bytes()), true),
        Hurt::CountBy(x) => differs(put(hdr + 4 + n8, &((d.vals.len() as i64 + step(*x)).max(0) as u32).to_le_bytes())),
        // size of the header or value section off by a little
        Hurt::SizeBy(t, x) => { let i = idx(1 + *t as u32 % 2); differs(put(start(i) + 4, &((secs[i].1.len() as i64 + step(*x)).max(0) as u64).to_le_bytes())) }
        // the value section itself shorter or longer
        Hurt::ValueBytes(t, x) => { let mut s = secs.clone(); let i = idx(1 + *t as u32 % 2); let n = (s[i].1.len() as i64 + step(*x)).max(0) as usize; s[i].1.resize(n, 0); differs(file(b"wtns", 2, &s)) }
        Hurt::Twice(t) => { let mut s = secs.clone(); s.push(s[idx(*t as u32)].clone()); (file(b"wtns", 2, &s), false) }
        _ => unreachable!(),
    }
}
pub fn p12(ctx: &mut Ctx) {
    ctx.risky = true;
    ctx.rule("witness files of 1..40 (some 1..3000) values, any section order, extra sections, wider or narrower values, values at or above the prime; then cut, with wrong magic/version, absurd or slightly wrong sizes and counts, free mutations; non-trivial: at least two values / the bytes differ");
    ctx.run("wtns-exact", ctx.n(25000, 250000), || wt(40), exact);
    ctx.run("wtns-exact-large", ctx.n(400, 5000), || wt(3000), exact);
    ctx.run("wtns-damaged", ctx.n(40000, 500000), || (wt(12), hurt()).boxed(), |(d, h)| {
        let (b, must) = damage(d, h);
        let kind = format!("{:?}", h).split('(').next().unwrap().to_string();
        let good = file(b"wtns", 2, &d.sections());
        match read(&b)? {
            Err(_) => Ok(Info::new(b != good).label(format!("{kind}: refused"))),
            Ok(r) => {
                ensure!(!must, "a damaged file was accepted with {} values", r.n_wires());
                ensure!(r.assignments.len() == r.n_wires() as usize && r.assignments.values().all(|v| v.len() == r.prime.len()), "{} values for {} wires", r.assignments.len(), r.n_wires());
                let e = elements(b.len(), &r)?;
                if let Ok(m) = e { for (w, x) in &m { let mut v = to_f(x).le32().to_vec(); v.resize(r.prime.len().max(32), 0); let mut raw = r.assignments[w].clone(); raw.resize(r.prime.len().max(32), 0); ensure!(v == raw, "wire {w} was decoded as another value"); } }
                Ok(Info::new(b != good).label(format!("{kind}: accepted")))
            }
        }
    });
    // through the tool
    ctx.run("cli-damaged", ctx.n(400, 6000), || (circ(2), hurt(), any::<u64>()).boxed(), |(c, h, seed)| {
        let at = c.assignment();
        let d = Wt { n8: 32, vals: at.clone(), over: vec![], order: [0, 1], unknown: vec![], trail: Hex(vec![]) };
        let (b, must) = damage(&d, h);
        let (_, key, ct) = sealed(c, &c.rows(), &at, *seed)?;
        let (r, w, t) = (put("c.r1cs", &c.r1cs()), put("w.wtns", &b), put("ct", &ct));
        let k = DIR.with(|d| d.s("k")); let _ = std::fs::remove_file(&k);
        let o = cli::run(&["decap", "-c", &r, "-w", &w, "--ciphertext", &t, "-k", &k]);
        o.no_crash()?;
        if o.ok() { ensure!(!must, "a damaged witness file was accepted"); if b == c.wtns() { ensure!(std::fs::read(&k).ok().as_deref() == Some(key.as_bytes()), "another key"); } }
        else { o.refused()?; ensure!(b != c.wtns(), "the undamaged witness was refused: {}", o.text()); ensure!(!std::path::Path::new(&k).exists(), "a key was written"); }
        Ok(Info::new(must))
    });
}

// ------------------------------------------------------------------ P30
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum R1Hurt { Cut(u32), Magic(u8, u8), Version(u32), Without(u8), Empty, Sections(u8), SectionSize(u8, u8), FieldSize(u8), Constraints(u8), Factors(u8, u8), Publics(u8), Wires(u8), WiresFew(u8), Free(Hurt) }
fn r1hurt() -> BoxedStrategy<R1Hurt> {
    let w = any::<u8>;
    prop_oneof![5 => any::<u32>().prop_map(R1Hurt::Cut), 1 => (0u8..4, 1u8..=255).prop_map(|(a, b)| R1Hurt::Magic(a, b)), 1 => hcommon::bytes::not_quite(1).prop_map(R1Hurt::Version), 1 => (1u8..3).prop_map(R1Hurt::Without), 1 => Just(R1Hurt::Empty), 1 => w().prop_map(R1Hurt::Sections), 2 => (w(), w()).prop_map(|(a, b)| R1Hurt::SectionSize(a, b)), 2 => w().prop_map(R1Hurt::FieldSize), 1 => w().prop_map(R1Hurt::Constraints), 2 => (w(), w()).prop_map(|(a, b)| R1Hurt::Factors(a, b)), 2 => w().prop_map(R1Hurt::Publics), 2 => w().prop_map(R1Hurt::Wires), 1 => w().prop_map(R1Hurt::WiresFew),
        8 => hurt().prop_filter("free", |h| matches!(h, Hurt::Bytes(_) | Hurt::Words(_) | Hurt::Raw(_) | Hurt::Splice(..))).prop_map(R1Hurt::Free)].boxed()
}
/// (bytes, encap must refuse, decap must refuse)
fn r1damage(c: &Circ, h: &R1Hurt) -> (Vec<u8>, bool, bool) {
    let b = c.r1cs(); let fs = c.field_size() as usize;
    // where the sections lie
    let u32at = |p: usize| u32::from_le_bytes(b[p..p + 4].try_into().unwrap());
    let mut secs = vec![]; let mut p = 12;
    for _ in 0..u32at(8) { let l = u64::from_le_bytes(b[p + 4..p + 12].try_into().unwrap()) as usize; secs.push((u32at(p), p, l)); p += 12 + l; }
    let at = |t: u32| secs.iter().find(|s| s.0 == t).unwrap().1;
    let hdr = at(1) + 12;
    let put = |off: usize, x: &[u8]| { let mut v = b.clone(); v[off..off + x.len()].copy_from_slice(x); v };
    let both = |v: Vec<u8>| { let d = v != b; (v, d, d) };
    match h {
        R1Hurt::Cut(n) => both(b[..*n as usize % b.len()].to_vec()),
        R1Hurt::Magic(i, x) => { let mut v = b.clone(); v[*i as usize] ^= x; both(v) }
        R1Hurt::Version(x) => both(put(4, &x.to_le_bytes())),
        R1Hurt::Without(t) => { let mut v = b[..8].to_vec(); let keep: Vec<_> = secs.iter().filter(|s| s.0 != *t as u32).collect(); u32le(&mut v, keep.len() as u32); for s in keep { v.extend_from_slice(&b[s.1..s.1 + 12 + s.2]); } both(v) }
        R1Hurt::Empty => both(file(b"r1cs", 1, &[])),
        R1Hurt::Sections(k) => both(put(8, &absurd32(*k).to_le_bytes())),
        R1Hurt::SectionSize(i, k) => both(put(secs[*i as usize % secs.len()].1 + 4, &absurd64(*k).to_le_bytes())),
        R1Hurt::FieldSize(k) => both(put(hdr, &absurd32(*k).to_le_bytes())),
        R1Hurt::Constraints(k) => both(put(hdr + 4 + fs + 24, &absurd32(*k).to_le_bytes())),
        R1Hurt::Factors(i, k) => {
            let rows = c.rows_k(); if rows.is_empty() { return (b, false, false); }
            let t = *i as usize % (rows.len() * 3); let mut off = at(2) + 12;
            for (n, l) in rows.iter().flatten().enumerate() { if n == t { break; } off += 4 + l.len() * (4 + fs); }
            both(put(off, &absurd32(*k).to_le_bytes()))
        }
        R1Hurt::Publics(k) => { let (o, i) = [(u32::MAX, 1), (u32::MAX, u32::MAX), (0x8000_0000, 0x8000_0000), (1, u32::MAX), (u32::MAX, 0), (0, u32::MAX)][*k as usize % 6]; let mut v = put(hdr + 4 + fs + 4, &o.to_le_bytes()); v[hdr + 4 + fs + 8..][..4].copy_from_slice(&i.to_le_bytes()); both(v) }
        R1Hurt::Wires(k) => (put(hdr + 4 + fs, &absurd32(*k).to_le_bytes()), false, true),
        R1Hurt::WiresFew(k) => { let n = *k as u32 % (c.n_pub() + 1); both(put(hdr + 4 + fs, &n.to_le_bytes())) }
        R1Hurt::Free(x) => { let v = free(&b, x).unwrap_or(b.clone()); let s = v.len() < 12; (v, s, s) }
    }
}
fn understood(c: &Circ, w: &Wt, seed: u64) -> Res {
    // one witness file for both tools; wider values included
    let (at, rows) = (c.assignment(), c.rows());
    let (r, wb) = (c.r1cs(), w.bytes());
    let (ct, key) = bounded(r.len() + wb.len(), || js_encap(&r, &wb))??.map_err(|e| format!("encapsulation failed: {e}"))?;
    ensure!(key.len() == 32, "a key of {} bytes", key.len());
    ensure!(recorded(&ct)? == c.publics(), "the ciphertext is bound to {:?} instead of the public wires {:?}", recorded(&ct)?, c.publics());
    let k = js_decap(&r, &wb, &ct)?.map_err(|e| format!("decapsulation failed: {e}"))?;
    ensure!(k == key, "decapsulation gave another key than encapsulation");
    let q = Ciphertext::<Bn254>::deserialize_compressed(&ct[..]).map_err(|e| format!("{e:?}"))?;
    ensure!(decap::<Bn254, _>(Syn::of(&rows, n_pub(c), &at), &q).map_err(err)?.as_bytes() == &key[..], "the core library gives another key");
    let (_, key2, b) = sealed(c, &rows, &at, seed)?;
    ensure!(js_decap(&r, &wb, &b)?.map_err(|e| format!("decapsulation of a core ciphertext failed: {e}"))? == key2.as_bytes(), "a core ciphertext gives another key");
    Ok(Info::new(!rows.is_empty() && c.n_pub() > 0).label_if(w.n8 > 32, "wider witness values").label_if(w.order[0] > w.order[1], "values before header").label_if(!w.unknown.is_empty(), "extra sections").label_if(c.order >= 128, "circuit sections in another order"))
}
pub fn p30(ctx: &mut Ctx) {
    ctx.risky = true;
    ctx.rule("circuit, witness and ciphertext bytes: well-formed in every layout, then cut, with absurd counts and sizes, free mutations, witnesses that do not fit the circuit; non-trivial: the bytes differ / the circuit has constraints and public wires");
    let wfor = |c: &Circ, w: &Wt| { let mut w = w.clone(); w.vals = c.assignment(); w.over.clear(); w.n8 = w.n8.max(32); w.trail = Hex(vec![]); w };
    ctx.run("native-understood", ctx.n(1200, 15000), || (circ(4), wt(2), any::<u64>()).boxed(), |(c, w, s)| understood(c, &wfor(c, w), *s));
    ctx.run("native-circuit-damaged", ctx.n(12000, 150000), || (circ(3), r1hurt()).boxed(), |(c, h)| {
        let (b, me, md) = r1damage(c, h);
        let wb = c.wtns(); let n = b.len() + wb.len();
        let e = bounded(n, || js_encap(&b, &wb))??;
        ensure!(e.is_err() || !me, "a damaged circuit file was accepted by encapsulation");
        // any ciphertext will do: the files are read first
        let ct = e.as_ref().map(|x| x.0.clone()).unwrap_or_else(|_| vec![0; 40]);
        let d = bounded(n + ct.len(), || js_decap(&b, &wb, &ct))??;
        ensure!(d.is_err() || !md, "a damaged circuit file was accepted by decapsulation");
        for m in [e.err(), d.err()].into_iter().flatten() { ensure!(!m.is_empty(), "an error without a message"); }
        Ok(Info::new(b != c.r1cs()).label(format!("{:?}", h).split('(').next().unwrap().to_string()).label_if(me, "must be refused"))
    });
    ctx.run("native-witness-damaged", ctx.n(12000, 150000), || (circ(2), hurt(), wt(2)).boxed(), |(c, h, w)| {
        let w = wfor(c, w);
        let (b, must) = damage(&w, h);
        let r = c.r1cs(); let n = r.len() + b.len();
        let e = bounded(n, || js_encap(&r, &b))??;
        ensure!(e.is_err() || !must, "a damaged witness file was accepted by encapsulation");
        let ct = e.as_ref().map(|x| x.0.clone()).unwrap_or_else(|_| vec![0; 40]);
        let d = bounded(n + ct.len(), || js_decap(&r, &b, &ct))??;
        ensure!(d.is_err() || !must, "a damaged witness file was accepted by decapsulation");
        Ok(Info::new(b != w.bytes()).label(format!("{:?}", h).split('(').next().unwrap().to_string()).label_if(must, "must be refused"))
    });
    ctx.run("native-witness-size", ctx.n(2500, 30000), || (circ(3), any::<u32>(), proptest::collection::vec(fe(), 1..5), any::<u64>()).boxed(), |(c, cut, more, seed)| {
        let at = c.assignment(); let r = c.r1cs();
        let (_, _, ct) = sealed(c, &c.rows(), &at, *seed)?;
        let short = &at[..*cut as usize % at.len()];
        let mut long = at.clone(); long.extend(more);
        for (v, what) in [(short, "short"), (&long[..], "long")] {
            let b = wtns_of(v);
            ensure!(bounded(b.len() + r.len() + ct.len(), || js_decap(&r, &b, &ct))??.is_err(), "a witness of {} values was accepted for a circuit of {} wires ({what})", v.len(), at.len());
        }
        if short.len() <= n_pub(c) && n_pub(c) > 0 { ensure!(js_encap(&r, &wtns_of(short))?.is_err(), "encapsulation accepted {} values for {} public wires", short.len(), n_pub(c)); }
        Ok(Info::new(true))
    });
    ctx.run("native-ciphertext-damaged", ctx.n(2500, 30000), || (circ(2), hurt(), any::<u64>()).boxed(), |(c, h, seed)| {
        let (r, w) = (c.r1cs(), c.wtns());
        let (_, key, ct) = sealed(c, &c.rows(), &c.assignment(), *seed)?;
        let (b, must) = match h { Hurt::Cut(n) => (ct[..*n as usize % ct.len()].to_vec(), true), h => (free(&ct, h).unwrap_or_else(|| vec![]), false) };
        let d = bounded(b.len() + r.len() + w.len(), || js_decap(&r, &w, &b))??;
        ensure!(d.is_err() || !must && !b.is_empty(), "a cut ciphertext was accepted");
        if b == ct { ensure!(d.as_deref() == Ok(&key.as_bytes()[..]), "the undamaged ciphertext gave another result"); }
        Ok(Info::new(b != ct).label(if d.is_ok() { "accepted" } else { "refused" }))
    });
}
