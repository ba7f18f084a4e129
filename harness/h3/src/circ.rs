//! Generated circuits: the files a user would hand to the tools, and what they mean.
use hcommon::field::{fe, F, P};
use hcommon::formats::*;
use hcommon::*;
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Term { pub w: u32, pub c: F, pub k: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Con { pub a: Vec<Term>, pub b: Vec<Term>, pub c: Vec<Term>, pub fix: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sig { pub name: String, pub dims: Vec<u32> }
impl Sig { pub fn len(&self) -> u32 { self.dims.iter().product() } }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Circ {
    pub outs: Vec<Sig>, pub ins: Vec<Sig>, pub n_prv: u32, pub n_int: u32,
    /// values of wires 1.. (missing ones are 0); constraints are completed so that these satisfy them
    pub vals: Vec<F>, pub cons: Vec<Con>,
    /// file layout: section order, wider coefficients, label section, an unknown section
    pub order: u8, pub wide: u8, pub labels: bool, pub extra: bool,
}
fn total(s: &[Sig]) -> u32 { s.iter().map(|x| x.len()).sum() }
pub fn mix(mut x: u64) -> u64 { x = x.wrapping_add(0x9e3779b97f4a7c15); x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb); x ^ (x >> 31) }
pub type Row = [Vec<(u32, F)>; 3];
pub type RowK = [Vec<(u32, F, u8)>; 3];
pub fn plain(rows: Vec<RowK>) -> Vec<Row> { rows.into_iter().map(|r| r.map(|l| l.into_iter().map(|(w, c, _)| (w, c)).collect())).collect() }
/// A change in a single constraint, such that usually only that one is violated.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tweak { Coef(u32, u8, u64), Wire(u32, u8, u32), Drop(u32, u8), Add(u32, u8, u32, F), Row(u32, u32, F) }
pub fn tweak() -> BoxedStrategy<Tweak> {
    let u = any::<u32>;
    prop_oneof![4 => (u(), any::<u8>(), any::<u64>()).prop_map(|(a, b, c)| Tweak::Coef(a, b, c)), 1 => (u(), any::<u8>(), u()).prop_map(|(a, b, c)| Tweak::Wire(a, b, c)), 1 => (u(), any::<u8>()).prop_map(|(a, b)| Tweak::Drop(a, b)), 2 => (u(), any::<u8>(), u(), fe()).prop_map(|(a, b, c, d)| Tweak::Add(a, b, c, d)), 1 => (u(), u(), fe()).prop_map(|(a, b, c)| Tweak::Row(a, b, c))].boxed()
}
pub fn tweaked(mut rows: Vec<RowK>, t: &Tweak, n_wires: u32) -> Vec<RowK> {
    let n = rows.len();
    // prefer the last and first constraints now and then
    let at = |k: u32| if n == 0 { 0 } else if k % 5 == 0 { n - 1 } else if k % 5 == 1 { 0 } else { (k / 5) as usize % n };
    match t {
        Tweak::Row(k, w, c) => { let k = if n == 0 { 0 } else if k % 3 == 0 { n } else { *k as usize % (n + 1) }; rows.insert(k, [vec![(w % n_wires, *c, 0)], vec![(0, F::one(), 0)], vec![(0, F::one(), 0)]]); }
        _ if n == 0 => {}
        Tweak::Coef(k, s, x) => { let l = &mut rows[at(*k)]; let side = *s as usize % 3; if !l[side].is_empty() { let m = l[side].len(); let j = if s % 2 == 0 { m - 1 } else { (*s as usize / 3) % m }; l[side][j].1 = other(&l[side][j].1, &mut Rng(*x)); } }
        Tweak::Wire(k, s, w) => { let l = &mut rows[at(*k)]; let side = *s as usize % 3; if !l[side].is_empty() { let m = l[side].len(); l[side][(*s as usize / 3) % m].0 = w % n_wires; } }
        Tweak::Drop(k, s) => { let l = &mut rows[at(*k)]; let side = *s as usize % 3; if !l[side].is_empty() { let m = l[side].len(); l[side].remove((*s as usize / 3) % m); } }
        Tweak::Add(k, s, w, c) => { let l = &mut rows[at(*k)]; let side = *s as usize % 3; let m = l[side].len(); l[side].insert((*s as usize / 3) % (m + 1), (w % n_wires, *c, 0)); }
    }
    rows
}
impl Circ {
    pub fn n_out(&self) -> u32 { total(&self.outs) }
    pub fn n_in(&self) -> u32 { total(&self.ins) }
    pub fn n_pub(&self) -> u32 { self.n_out() + self.n_in() }
    pub fn n_wires(&self) -> u32 { 1 + self.n_pub() + self.n_prv + self.n_int }
    pub fn val(&self, w: u32) -> F { if w == 0 { F::one() } else { self.vals.get(w as usize - 1).copied().unwrap_or(F::ZERO) } }
    pub fn assignment(&self) -> Vec<F> { (0..self.n_wires()).map(|w| self.val(w)).collect() }
    pub fn publics(&self) -> Vec<F> { (1..=self.n_pub()).map(|w| self.val(w)).collect() }
    fn terms(&self, t: &[Term]) -> Vec<(u32, F, u8)> { t.iter().map(|x| (x.w % self.n_wires(), x.c, x.k)).collect() }
    /// constraints as (wire, coefficient, multiples of p added in the file)
    pub fn rows_k(&self) -> Vec<[Vec<(u32, F, u8)>; 3]> {
        let at = self.assignment();
        self.cons.iter().map(|c| {
            let (a, b, mut cc) = (self.terms(&c.a), self.terms(&c.b), self.terms(&c.c));
            let ev = |t: &[(u32, F, u8)]| t.iter().fold(F::ZERO, |s, (w, c, _)| s.add(&c.mul(&at[*w as usize])));
            let diff = ev(&a).mul(&ev(&b)).sub(&ev(&cc));
            if !diff.is_zero() || c.fix % 8 == 7 {
                // complete C with one term so that the assignment satisfies the constraint
                let w = if c.fix % 3 == 0 { 0 } else { (c.fix as u32) % self.n_wires() };
                let v = at[w as usize];
                let t = if v.is_zero() { (0, diff, c.fix % 2) } else if v == F::one() { (w, diff, 0) } else { (w, diff.mul(&v.inv()), 0) };
                let pos = if cc.is_empty() { 0 } else { c.fix as usize % (cc.len() + 1) };
                cc.insert(pos, t);
            }
            [a, b, cc]
        }).collect()
    }
    pub fn rows(&self) -> Vec<Row> { plain(self.rows_k()) }
    pub fn field_size(&self) -> u32 { match self.wide { 0..=11 => 32, 12 => 40, _ => 64 } }
    pub fn r1cs(&self) -> Vec<u8> { self.r1cs_of(&self.rows_k()) }
    /// The file with the given constraints instead of the circuit's own.
    pub fn r1cs_of(&self, rows: &[RowK]) -> Vec<u8> {
        let n8 = self.field_size() as usize;
        let mut prime: Vec<u8> = P.iter().flat_map(|x| x.to_le_bytes()).collect();
        prime.resize(n8, 0);
        let coef = |c: &F, k: u8| { let mut v = c.le_plus(k as u32 % 5, 32).or_else(|| c.le_plus(k as u32 % 4, 32)).unwrap(); v.resize(n8, 0); v };
        let cons: Vec<[Lc; 3]> = rows.iter().map(|r| { let f = |l: &Vec<(u32, F, u8)>| l.iter().map(|(w, c, k)| (*w, coef(c, *k))).collect::<Lc>(); [f(&r[0]), f(&r[1]), f(&r[2])] }).collect();
        let h = r1cs_header(&R1csHead { field_size: n8 as u32, prime: &prime, n_wires: self.n_wires(), n_pub_out: self.n_out(), n_pub_in: self.n_in(), n_prv_in: self.n_prv, n_labels: self.n_wires() as u64 + 3, n_constraints: cons.len() as u32 });
        let mut secs = vec![(1u32, h), (2, r1cs_constraints(&cons))];
        if self.labels { secs.push((3, r1cs_labels(&(0..self.n_wires() as u64).collect::<Vec<_>>()))); }
        if self.extra { secs.push((4, vec![7; 5])); }
        let n = secs.len();
        secs.rotate_left(self.order as usize % n);
        if self.order >= 128 { secs.reverse(); }
        file(b"r1cs", 1, &secs)
    }
    pub fn wtns(&self) -> Vec<u8> { wtns_of(&self.assignment()) }
    /// The circuit file as a compiler for another field would write it: coefficients and prime of its width.
    pub fn r1cs_over(&self, prime: &[u8]) -> Vec<u8> {
        let n8 = prime.len();
        let cons: Vec<[Lc; 3]> = self.rows().iter().map(|r| r.clone().map(|l| l.into_iter().map(|(w, c)| { let mut v = c.le32().to_vec(); v.resize(n8, 0); (w, v) }).collect::<Lc>())).collect();
        let h = r1cs_header(&R1csHead { field_size: n8 as u32, prime, n_wires: self.n_wires(), n_pub_out: self.n_out(), n_pub_in: self.n_in(), n_prv_in: self.n_prv, n_labels: self.n_wires() as u64, n_constraints: cons.len() as u32 });
        file(b"r1cs", 1, &[(1, h), (2, r1cs_constraints(&cons))])
    }
    pub fn wtns_over(&self, prime: &[u8]) -> Vec<u8> { wtns(prime, prime.len() as u32, &self.assignment().iter().map(|v| { let mut v = v.le32().to_vec(); v.resize(prime.len(), 0); v }).collect::<Vec<_>>()) }
    /// names of the public wires 1..=n_pub, in wire order
    pub fn names(&self) -> Vec<String> {
        let mut v = vec![];
        for s in self.outs.iter().chain(&self.ins) { flat(&s.name, &s.dims, &mut v); }
        v
    }
}
pub fn wtns_of(vals: &[F]) -> Vec<u8> { wtns(&P.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>(), 32, &vals.iter().map(|v| v.le32().to_vec()).collect::<Vec<_>>()) }
fn flat(p: &str, dims: &[u32], v: &mut Vec<String>) {
    if dims.is_empty() { v.push(p.to_string()); return; }
    for i in 0..dims[0] { flat(&format!("{}[{}]", p, i), &dims[1..], v); }
}
/// Whether the assignment fulfils every constraint.
pub fn satisfies(rows: &[Row], at: &[F]) -> bool {
    rows.iter().all(|r| { let e = |l: &Vec<(u32, F)>| l.iter().fold(F::ZERO, |s, (w, c)| s.add(&c.mul(&at[*w as usize]))); e(&r[0]).mul(&e(&r[1])) == e(&r[2]) })
}

fn sigs(tag: &'static str, max: usize) -> BoxedStrategy<Vec<Sig>> {
    let dims = prop_oneof![4 => Just(vec![]), 3 => (1u32..5).prop_map(|a| vec![a]), 2 => (1u32..4, 1u32..4).prop_map(|(a, b)| vec![a, b]), 1 => (1u32..3, 1u32..3, 1u32..3).prop_map(|(a, b, c)| vec![a, b, c]), 1 => (9u32..14).prop_map(|a| vec![a])];
    proptest::collection::vec(("[a-zA-Z_$][a-zA-Z0-9_$]{0,5}", dims), 0..max).prop_map(move |v| v.into_iter().enumerate().map(|(i, (n, dims))| Sig { name: format!("{}{}{}", n, tag, i), dims }).collect()).boxed()
}
fn term() -> BoxedStrategy<Term> { (prop_oneof![3 => any::<u32>(), 1 => 0u32..3], fe(), prop_oneof![5 => Just(0u8), 1 => 1u8..5]).prop_map(|(w, c, k)| Term { w, c, k }).boxed() }
pub fn cons(max: usize) -> BoxedStrategy<Vec<Con>> {
    let lc = || proptest::collection::vec(term(), 0..4);
    proptest::collection::vec((lc(), lc(), lc(), any::<u8>()).prop_map(|(a, b, c, fix)| Con { a, b, c, fix }), 0..max).boxed()
}
/// Circuits with at least one private wire.
pub fn circ(maxc: usize) -> BoxedStrategy<Circ> {
    ((sigs("o", 3), sigs("i", 4), 0u32..4, 0u32..4), proptest::collection::vec(fe(), 0..40), cons(maxc), (any::<u8>(), 0u8..14, any::<bool>(), any::<bool>()))
        .prop_map(|((outs, ins, n_prv, n_int), vals, cons, (order, wide, labels, extra))| { let n_prv = if n_prv + n_int == 0 { 1 } else { n_prv }; Circ { outs, ins, n_prv, n_int, vals, cons, order, wide, labels, extra } }).boxed()
}

/// How the other files of a call are written.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Style { pub seed: u64, pub perm: bool, pub crlf: bool, pub js_safe: bool, pub unknown: bool, pub privates: bool, pub alias: bool, pub spaces: bool }
pub fn style() -> BoxedStrategy<Style> {
    (any::<u64>(), any::<[bool; 6]>()).prop_map(|(seed, b)| Style { seed, perm: b[0] && b[1], crlf: b[2] && b[3], js_safe: false, unknown: b[3], privates: b[4], alias: b[5], spaces: b[0] }).boxed()
}
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(1); mix(self.0) }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
}
impl Style {
    /// the wire each public name is bound to: wire order, or any permutation
    pub fn wires(&self, c: &Circ) -> Vec<u32> { let mut w: Vec<u32> = (1..=c.n_pub()).collect(); if self.perm { Rng(self.seed ^ 77).shuffle(&mut w); } w }
    pub fn sym(&self, c: &Circ) -> String {
        let mut r = Rng(self.seed ^ 1);
        let mut l: Vec<String> = vec![];
        for (i, (n, w)) in c.names().iter().zip(self.wires(c)).enumerate() {
            l.push(format!("{},{},{},main.{}", i + 1, w, r.below(9), n));
            if self.alias && r.below(3) == 0 { l.push(format!("{},{},{},main.sub{}.{}", i + 900, w, r.below(9), r.below(3), n)); }
        }
        for p in 0..c.n_prv + c.n_int { l.push(format!("{},{},1,main.{}{}", 500 + p, c.n_pub() + 1 + p, if p < c.n_prv { "prv" } else { "int.x" }, p)); }
        if self.alias { for k in 0..r.below(4) { l.push(format!("{},-1,2,main.gone{}", 700 + k, k)); } }
        if self.unknown { l.push("3,1,9,other.a".into()); }
        if self.perm { r.shuffle(&mut l); }
        let mut o = l.join(if self.crlf { "\r\n" } else { "\n" });
        if r.below(2) == 0 { o.push_str(if self.crlf { "\r\n" } else { "\n" }); }
        o
    }
    /// The value of the public wire that each name is bound to, as JSON text. `hide`: names left out.
    pub fn json(&self, c: &Circ, hide: &[usize]) -> String {
        let mut r = Rng(self.seed ^ 2);
        let wires = self.wires(c);
        let mut next = 0;
        let mut items: Vec<String> = vec![];
        for (si, s) in c.outs.iter().chain(&c.ins).enumerate() {
            let v = self.node(c, &s.dims, &wires, &mut next, &mut r);
            if hide.contains(&si) { continue; }
            items.push(format!("{}:{}{}", serde_json::to_string(&s.name).unwrap(), if self.spaces { " " } else { "" }, v));
        }
        if self.privates { for p in 0..c.n_prv { items.push(format!("\"prv{}\":{}", p, leaf(&c.val(c.n_pub() + 1 + p), &mut r, self.js_safe))); } }
        if self.unknown { items.push("\"zz_unknown\": [\"12\", 3, [4]]".into()); items.push("\"a.b\":\"5\"".into()); }
        r.shuffle(&mut items);
        if self.spaces { format!("{{\n  {}\n}}\n", items.join(",\n  ")) } else { format!("{{{}}}", items.join(",")) }
    }
    fn node(&self, c: &Circ, dims: &[u32], wires: &[u32], next: &mut usize, r: &mut Rng) -> String {
        if dims.is_empty() { let w = wires[*next]; *next += 1; return leaf(&c.val(w), r, self.js_safe); }
        let v: Vec<String> = (0..dims[0]).map(|_| self.node(c, &dims[1..], wires, next, r)).collect();
        format!("[{}]", v.join(","))
    }
}
/// One of the ways to write a field element in JSON.
pub fn leaf(v: &F, r: &mut Rng, js_safe: bool) -> String {
    let l = v.limbs();
    let max = if js_safe { (1u64 << 53) - 1 } else { u64::MAX };
    let neg = v.neg().limbs();
    let small = l[1..] == [0, 0, 0] && l[0] <= max;
    let nsmall = neg[1..] == [0, 0, 0] && neg[0] <= (max >> 1) && neg[0] > 0;
    match r.below(8) {
        0..=2 if small => format!("{}", l[0]),
        0..=4 if nsmall => format!("-{}", neg[0]),
        5 => format!("\"{}\"", v.dec_plus(1 + r.below(4) as u32)),
        6 => format!("\"{}\"", v.dec_minus(1 + r.below(3) as u32)),
        _ => format!("\"{}\"", v.dec()),
    }
}
/// A different value for a wire: small step, negation, zero, or something random.
pub fn other(v: &F, r: &mut Rng) -> F {
    let c = match r.below(6) { 0 => v.add(&F::one()), 1 => v.neg(), 2 => F::ZERO, 3 => v.sub(&F::one()), 4 => v.add(&F::from_le(&[0, 0, 0, 0, 0, 0, 0, 0, 1])), _ => F::from_le(&[mix(r.next()).to_le_bytes(), mix(r.next()).to_le_bytes(), mix(r.next()).to_le_bytes()].concat()) };
    if c == *v { v.add(&F::one()) } else { c }
}
