use crate::r1cs::R1csFile;
use hcommon::alloc::bounded;
use hcommon::formats::*;
use hcommon::runner::no_panic;
use hcommon::scratch::Scratch;
use hcommon::{ensure, *};
use proptest::prelude::*;

/// A description of a well-formed circuit file.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Desc {
    pub field_size: u32, pub prime_seed: u8, pub n_pub_out: u32, pub n_pub_in: u32, pub n_prv_in: u32, pub n_internal: u32, pub n_labels: u64,
    /// per constraint: three lists of (wire selector, coefficient seed)
    pub constraints: Vec<[Vec<(u32, u64)>; 3]>,
    pub labels: Option<u64>,
    /// order keys of header, constraints, labels, and unknown sections (order key, type, length, fill)
    pub order: [u8; 3], pub unknown: Vec<(u8, u32, u32, u8)>,
}
fn mix(mut x: u64) -> u64 { x = x.wrapping_add(0x9e3779b97f4a7c15); x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb); x ^ (x >> 31) }
fn coef(seed: u64, n: usize) -> Vec<u8> {
    match seed % 7 { 0 => vec![0; n], 1 => { let mut v = vec![0; n]; if n > 0 { v[0] = 1 } v } 2 => vec![0xff; n], _ => (0..n).map(|i| (mix(seed.wrapping_add(i as u64 / 8)) >> (8 * (i % 8))) as u8).collect() }
}
impl Desc {
    pub fn n_wires(&self) -> u32 { 1 + self.n_pub_out + self.n_pub_in + self.n_prv_in + self.n_internal }
    pub fn prime(&self) -> Vec<u8> { coef(self.prime_seed as u64 + 3, self.field_size as usize) }
    pub fn cons(&self) -> Vec<[Lc; 3]> {
        let n = self.n_wires();
        self.constraints.iter().map(|c| { let f = |l: &Vec<(u32, u64)>| l.iter().map(|(w, s)| (w % n, coef(*s, self.field_size as usize))).collect::<Lc>(); [f(&c[0]), f(&c[1]), f(&c[2])] }).collect()
    }
    pub fn label_map(&self) -> Option<Vec<u64>> { self.labels.map(|s| (0..self.n_wires() as u64).map(|i| if s % 5 == 0 { i } else { mix(s ^ i) >> (s % 64) }).collect()) }
    pub fn sections(&self) -> Vec<(u32, Vec<u8>)> {
        let prime = self.prime();
        let h = r1cs_header(&R1csHead { field_size: self.field_size, prime: &prime, n_wires: self.n_wires(), n_pub_out: self.n_pub_out, n_pub_in: self.n_pub_in, n_prv_in: self.n_prv_in, n_labels: self.n_labels, n_constraints: self.constraints.len() as u32 });
        let mut v = vec![(self.order[0], 1, h), (self.order[1], 2, r1cs_constraints(&self.cons()))];
        if let Some(l) = self.label_map() { v.push((self.order[2], 3, r1cs_labels(&l))); }
        for (o, t, n, f) in &self.unknown { v.push((*o, (*t).max(4), (0..*n).map(|i| if f % 3 == 0 { *f } else { mix(i as u64 + *f as u64) as u8 }).collect())); }
        v.sort_by_key(|x| x.0);
        v.into_iter().map(|(_, t, b)| (t, b)).collect()
    }
    pub fn bytes(&self) -> Vec<u8> { file(b"r1cs", 1, &self.sections()) }
}
pub fn desc(maxc: usize, maxw: u32) -> BoxedStrategy<Desc> {
    let lc = || proptest::collection::vec((any::<u32>(), any::<u64>()), 0..5);
    let cons = proptest::collection::vec((lc(), lc(), lc()).prop_map(|(a, b, c)| [a, b, c]), 0..maxc);
    let w = move || prop_oneof![3 => 0u32..5, 1 => 0..maxw];
    let unk = prop_oneof![3 => Just(vec![]), 2 => proptest::collection::vec((any::<u8>(), prop_oneof![4u32..8, any::<u32>()], prop_oneof![4 => 0u32..60, 1 => 0u32..20_000], any::<u8>()), 1..4)];
    ((prop_oneof![6 => Just(32u32), 1 => Just(8), 1 => Just(48), 1 => Just(64), 1 => 1u32..80], any::<u8>(), w(), w(), w(), w()),
     prop_oneof![any::<u64>(), (0u64..100).boxed()], cons, proptest::option::of(any::<u64>()), any::<[u8; 3]>(), unk)
        .prop_map(|((field_size, prime_seed, n_pub_out, n_pub_in, n_prv_in, n_internal), n_labels, constraints, labels, order, unknown)|
            Desc { field_size, prime_seed, n_pub_out, n_pub_in, n_prv_in, n_internal, n_labels, constraints, labels, order, unknown }).boxed()
}
thread_local! { static DIR: Scratch = Scratch::new("r1cs"); }
fn parse(b: &[u8]) -> Result<anyhow::Result<R1csFile>, Fail> {
    DIR.with(|s| { let p = s.write("c.r1cs", b); bounded(b.len(), || no_panic("R1csFile::from_file", || R1csFile::from_file(&p)))? })
}
pub fn exact(d: &Desc) -> Res {
    let b = d.bytes();
    let r = parse(&b)?.map_err(|e| format!("a well-formed file was refused: {e:#}"))?;
    ensure!(r.field_size == d.field_size, "field size {} instead of {}", r.field_size, d.field_size);
    ensure!(r.prime == d.prime(), "prime differs");
    let got = (r.n_wires, r.n_pub_out, r.n_pub_in, r.n_prv_in, r.n_labels, r.n_constraints);
    let want = (d.n_wires(), d.n_pub_out, d.n_pub_in, d.n_prv_in, d.n_labels, d.constraints.len() as u32);
    ensure!(got == want, "header (wires, outputs, public inputs, private inputs, labels, constraints) {:?} instead of {:?}", got, want);
    ensure!(r.n_public_inputs() == d.n_pub_out + d.n_pub_in, "n_public_inputs() = {} for {} outputs and {} inputs", r.n_public_inputs(), d.n_pub_out, d.n_pub_in);
    let cons = d.cons();
    ensure!(r.constraints.len() == cons.len(), "{} constraints instead of {}", r.constraints.len(), cons.len());
    for (i, (g, w)) in r.constraints.iter().zip(&cons).enumerate() {
        for (k, (gl, wl)) in [&g.a, &g.b, &g.c].into_iter().zip(w).enumerate() { ensure!(gl.factors == *wl, "constraint {} part {}: {:?} instead of {:?}", i, k, gl.factors, wl); }
    }
    match d.label_map() {
        Some(l) => ensure!(r.wire2label == l, "label map differs"),
        None => ensure!(r.wire2label == (0..d.n_wires() as u64).collect::<Vec<_>>(), "without a label section the label map must be the identity"),
    }
    // the snapshot keeps everything
    let natural = d.order[0] <= d.order[1] && (d.labels.is_none() || d.order[1] <= d.order[2]);
    Ok(Info::new(!d.constraints.is_empty()).label_if(!natural, "sections out of order").label_if(!d.unknown.is_empty(), "unknown sections").label_if(d.labels.is_none(), "no label section")
        .label_if(d.field_size != 32, "other field width").label_if(b.len() > 8192, "larger than the read buffer").label_if(d.n_pub_out > 0, "has outputs").label_if(cons.iter().flatten().any(|l| l.is_empty()), "empty linear combination"))
}
pub fn p10(ctx: &mut Ctx) {
    ctx.rule("files written from a description: 0..9 (some 0..400) constraints, any section order, unknown sections, field widths 1..80, optional labels; non-trivial: at least one constraint");
    ctx.run("r1cs-small", ctx.n(30000, 300000), || desc(9, 40), exact);
    ctx.run("r1cs-large", ctx.n(600, 6000), || desc(400, 3000), exact);
}

// ------------------------------------------------------------------ malformed files
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Hurt {
    Cut(u32), Magic(u8, u8), Version(u32), NoHeader, NoConstraints, Empty,
    /// absurd value (from a list) in: section count, a section's size, a header number, a factor count
    Sections(u8), SectionSize(u8, u8), FieldSize(u8), Constraints(u8), Factors(u8, u8), Publics(u8), Wires(u8), FewWires(u8, u8),
    /// free mutations: (position, value)
    Bytes(Vec<(u32, u8)>), Words(Vec<(u32, u8)>), Raw(Hex), Splice(u32, u32, u32),
}
fn hurt() -> BoxedStrategy<Hurt> {
    let w = any::<u8>;
    prop_oneof![
        6 => any::<u32>().prop_map(Hurt::Cut), 1 => (0u8..4, 1u8..=255).prop_map(|(a, b)| Hurt::Magic(a, b)), 1 => hcommon::bytes::not_quite(1).prop_map(Hurt::Version),
        1 => Just(Hurt::NoHeader), 1 => Just(Hurt::NoConstraints), 1 => Just(Hurt::Empty),
        1 => w().prop_map(Hurt::Sections), 2 => (w(), w()).prop_map(|(a, b)| Hurt::SectionSize(a, b)), 1 => w().prop_map(Hurt::FieldSize), 2 => w().prop_map(Hurt::Constraints), 2 => (w(), w()).prop_map(|(a, b)| Hurt::Factors(a, b)),
        1 => w().prop_map(Hurt::Publics), 1 => w().prop_map(Hurt::Wires), 2 => (prop_oneof![3 => Just(0u8), 1 => w()], w()).prop_map(|(a, b)| Hurt::FewWires(a, b)),
        5 => proptest::collection::vec((any::<u32>(), any::<u8>()), 1..6).prop_map(Hurt::Bytes), 4 => proptest::collection::vec((any::<u32>(), any::<u8>()), 1..3).prop_map(Hurt::Words),
        1 => hcommon::bytes::bytes_len(0..80).prop_map(Hurt::Raw), 2 => (any::<u32>(), any::<u32>(), 1u32..40).prop_map(|(a, b, c)| Hurt::Splice(a, b, c)),
    ].boxed()
}
/// absurd 32-bit counts, all far beyond any file generated here
fn absurd32(k: u8) -> u32 { [u32::MAX, u32::MAX - 1, 0x8000_0000, 0x7fff_ffff, 0x1000_0000, 0x2000_0001, 0xffff_0000, 0x0100_0000, 0xaaaa_aaaa, 0x4000_0000][k as usize % 10] }
fn absurd64(k: u8) -> u64 { [u64::MAX, i64::MAX as u64, 1 << 63, u64::MAX - 11, u64::MAX - 23, 1 << 62, 1 << 40, (1 << 32) + 4, 0xffff_ffff, u64::MAX - 100, 0x8000_0000_0000_0001, u64::MAX - 35][k as usize % 12] }
/// (bytes, must be refused)
fn damage(d: &Desc, h: &Hurt) -> (Vec<u8>, bool) {
    let b = d.bytes();
    let secs = d.sections();
    let start = |i: usize| 12 + secs[..i].iter().map(|(_, s)| 12 + s.len()).sum::<usize>();
    let idx = |t: u32| secs.iter().position(|(x, _)| *x == t).unwrap();
    let put = |off: usize, x: &[u8]| { let mut v = b.clone(); v[off..off + x.len()].copy_from_slice(x); v };
    let hdr = start(idx(1)) + 12; let fs = d.field_size as usize;
    match h {
        Hurt::Cut(n) => (b[..*n as usize % b.len()].to_vec(), true),
        Hurt::Magic(i, x) => { let mut v = b.clone(); v[*i as usize] ^= x; (v, true) }
        Hurt::Version(x) => (put(4, &x.to_le_bytes()), *x != 1),
        Hurt::NoHeader => (file(b"r1cs", 1, &secs.iter().filter(|(t, _)| *t != 1).cloned().collect::<Vec<_>>()), true),
        Hurt::NoConstraints => (file(b"r1cs", 1, &secs.iter().filter(|(t, _)| *t != 2).cloned().collect::<Vec<_>>()), true),
        Hurt::Empty => (file(b"r1cs", 1, &[]), true),
        Hurt::Sections(k) => (put(8, &absurd32(*k).to_le_bytes()), true),
        Hurt::SectionSize(i, k) => { let i = *i as usize % secs.len(); (put(start(i) + 4, &absurd64(*k).to_le_bytes()), true) }
        Hurt::FieldSize(k) => (put(hdr, &absurd32(*k).to_le_bytes()), true),
        Hurt::Constraints(k) => (put(hdr + 4 + fs + 24, &absurd32(*k).to_le_bytes()), true),
        Hurt::Factors(i, k) => {
            // the count of one of the linear combinations
            let cons = d.cons(); if cons.is_empty() { return (b, false); }
            let target = *i as usize % (cons.len() * 3);
            let mut off = start(idx(2)) + 12;
            for (n, lc) in cons.iter().flatten().enumerate() { if n == target { break; } off += 4 + lc.len() * (4 + fs); }
            (put(off, &absurd32(*k).to_le_bytes()), true)
        }
        Hurt::Publics(k) => { let (o, i) = [(u32::MAX, 1), (u32::MAX, u32::MAX), (0x8000_0000, 0x8000_0000), (1, u32::MAX), (u32::MAX, 0), (0, u32::MAX)][*k as usize % 6];
            let mut v = put(hdr + 4 + fs + 4, &o.to_le_bytes()); v[hdr + 4 + fs + 8..][..4].copy_from_slice(&i.to_le_bytes()); (v, true) }
        Hurt::Wires(k) => (put(hdr + 4 + fs, &absurd32(*k).to_le_bytes()), d.labels.is_some()),
        Hurt::FewWires(k, by) => {
            // one wire (or more) short of the constant wire, the outputs and the public inputs
            let total = d.n_wires() as u64; let short = total.saturating_sub(*k as u64); let (o, i) = if by % 2 == 0 { (short, 0) } else { (short / 2, short - short / 2) };
            let mut v = put(hdr + 4 + fs + 4, &(o as u32).to_le_bytes()); v[hdr + 4 + fs + 8..][..4].copy_from_slice(&(i as u32).to_le_bytes()); (v, 1 + o + i > total)
        }
        Hurt::Bytes(m) => { let mut v = b.clone(); for (p, x) in m { let p = *p as usize % v.len(); v[p] = *x } (v, false) }
        Hurt::Words(m) => { let mut v = b.clone(); for (p, x) in m { let p = (*p as usize % (v.len() / 4)) * 4; v[p..p + 4].copy_from_slice(&absurd32(*x).to_le_bytes()) } (v, false) }
        Hurt::Raw(x) => (x.0.clone(), x.0.len() < 12),
        Hurt::Splice(a, c, n) => { let mut v = b.clone(); let (a, c) = (*a as usize % v.len(), *c as usize % v.len()); let n = (*n as usize).min(v.len() - a).min(v.len() - c); v.copy_within(a..a + n, c); (v, false) }
    }
}
/// Recorded finding: a wire count with no label section makes the parser build an identity map of
/// that many entries. Damaged files of that shape are left out here and probed separately.
fn identity_blowup(b: &[u8]) -> bool {
    let u = |p: usize, n: usize| -> Option<u64> { let s = b.get(p..p.checked_add(n)?)?; let mut x = [0u8; 8]; x[..n].copy_from_slice(s); Some(u64::from_le_bytes(x)) };
    let (Some(n), mut pos) = (u(8, 4), 12usize) else { return false };
    let (mut hdr, mut labels) = (None, false);
    for _ in 0..n {
        let (Some(t), Some(l)) = (u(pos, 4), u(pos.saturating_add(4), 8)) else { break };
        if t == 1 && hdr.is_none() { hdr = pos.checked_add(12) }
        if t == 3 { labels = true }
        let Some(p) = pos.checked_add(12).and_then(|p| p.checked_add(l as usize)) else { break };
        pos = p;
    }
    let Some(h) = hdr else { return false };
    let Some(fs) = u(h, 4) else { return false };
    !labels && u(h.saturating_add(4 + fs as usize), 4).map_or(false, |w| w > 1 << 20)
}
pub fn p11(ctx: &mut Ctx) {
    ctx.rule("valid files damaged by cuts, wrong magic/version, missing sections, absurd counts and sizes, free byte and word mutations; non-trivial: the damaged bytes differ from the valid file");
    ctx.risky = true;
    ctx.run("r1cs-damaged", ctx.n(60000, 800000), || (desc(6, 20), hurt()).boxed(), |(d, h)| {
        let (b, must) = damage(d, h);
        let kind = format!("{:?}", h).split('(').next().unwrap().to_string();
        if identity_blowup(&b) { return Ok(Info::new(false).label("left out: recorded finding")); }
        let r = parse(&b)?;
        if must { if let Ok(r) = r { return Err(format!("accepted with {} wires, {} constraints", r.n_wires, r.n_constraints)); } }
        else if let Ok(r) = r { no_panic("n_public_inputs", || r.n_public_inputs())?; bounded(b.len(), || no_panic("to_serializable", || r.to_serializable()))??; }
        Ok(Info::new(b != d.bytes()).label(kind))
    });
    // every prefix of a number of files
    ctx.run("r1cs-every-prefix", ctx.n(60, 600), || desc(4, 8), |d| {
        let b = d.bytes();
        for n in 0..b.len().min(6000) { let n = if b.len() > 6000 { b.len() - 1 - n } else { n }; ensure!(parse(&b[..n])?.is_err(), "the first {} of {} bytes were accepted", n, b.len()); }
        Ok(Info::new(true))
    });
    ctx.run("r1cs-no-file", ctx.n(50, 500), || any::<u32>().boxed(), |n| {
        let r = DIR.with(|s| no_panic("from_file", || R1csFile::from_file(s.path(&format!("missing{}", n)))))?; ensure!(r.is_err(), "missing file accepted");
        let r = DIR.with(|s| no_panic("from_file", || R1csFile::from_file(s.dir())))?; ensure!(r.is_err(), "directory accepted");
        Ok(Info::new(true))
    });
    ctx.probe("P11/identity-labels", || {
        let d = Desc { field_size: 32, prime_seed: 1, n_pub_out: 0, n_pub_in: 0, n_prv_in: 0, n_internal: (1 << 25) - 1, n_labels: 0, constraints: vec![], labels: None, order: [0, 1, 2], unknown: vec![] };
        let b = d.bytes();
        match parse(&b) { Ok(Err(_)) => None, Ok(Ok(_)) => None, Err(m) => Some(format!("{}-byte file without label section and a wire count of 2^25: {}", b.len(), m)) }
    });
}
