//! Reference arithmetic modulo the BN254 scalar field prime (schoolbook, independent of the code under test).
use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
pub const P: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
pub const P_DEC: &str = "21888242871839275222246405745257275088548364400416034343698204186575808495617";

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct F([u64; 4]);
fn cmp(a: &[u64], b: &[u64]) -> std::cmp::Ordering { a.iter().rev().cmp(b.iter().rev()) }
fn sub(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0; 4]; let mut br = 0i128;
    for i in 0..4 { let d = a[i] as i128 - b[i] as i128 + br; r[i] = d as u64; br = d >> 64; }
    r
}
fn dbl_add_bit(a: &[u64; 4], bit: u64) -> [u64; 4] {
    // a < P < 2^254
    let mut r = [0; 4]; let mut c = bit;
    for i in 0..4 { r[i] = (a[i] << 1) | c; c = a[i] >> 63; }
    if cmp(&r, &P) != std::cmp::Ordering::Less { sub(&r, &P) } else { r }
}
impl F {
    pub const ZERO: F = F([0; 4]);
    pub fn one() -> F { F([1, 0, 0, 0]) }
    pub fn from_u64(x: u64) -> F { F([x, 0, 0, 0]) }
    pub fn from_i64(x: i64) -> F { let a = F::from_u64(x.unsigned_abs()); if x < 0 { a.neg() } else { a } }
    /// Any number of little-endian bytes, reduced.
    pub fn from_le(b: &[u8]) -> F {
        let mut r = [0u64; 4];
        for x in b.iter().rev() { for i in (0..8).rev() { r = dbl_add_bit(&r, ((x >> i) & 1) as u64); } }
        F(r)
    }
    pub fn from_dec(s: &str) -> Option<F> {
        let (neg, d) = match s.strip_prefix('-') { Some(d) => (true, d), None => (false, s) };
        if d.is_empty() { return None; }
        let mut r = F::ZERO;
        let ten = F::from_u64(10);
        for c in d.bytes() { if !c.is_ascii_digit() { return None; } r = r.mul(&ten).add(&F::from_u64((c - b'0') as u64)); }
        Some(if neg { r.neg() } else { r })
    }
    pub fn is_zero(&self) -> bool { self.0 == [0; 4] }
    pub fn add(&self, o: &F) -> F {
        let mut r = [0; 4]; let mut c = 0u128;
        for i in 0..4 { let s = self.0[i] as u128 + o.0[i] as u128 + c; r[i] = s as u64; c = s >> 64; }
        F(if cmp(&r, &P) != std::cmp::Ordering::Less { sub(&r, &P) } else { r })
    }
    pub fn neg(&self) -> F { if self.is_zero() { *self } else { F(sub(&P, &self.0)) } }
    pub fn sub(&self, o: &F) -> F { self.add(&o.neg()) }
    pub fn mul(&self, o: &F) -> F {
        let mut w = [0u64; 8];
        for i in 0..4 { let mut c = 0u128; for j in 0..4 { let s = w[i + j] as u128 + self.0[i] as u128 * o.0[j] as u128 + c; w[i + j] = s as u64; c = s >> 64; } w[i + 4] = c as u64; }
        let mut r = [0u64; 4];
        for x in w.iter().rev() { for i in (0..64).rev() { r = dbl_add_bit(&r, (x >> i) & 1); } }
        F(r)
    }
    pub fn inv(&self) -> F { let mut e = P; e[0] -= 2; let mut r = F::one(); for l in e.iter().rev() { for i in (0..64).rev() { r = r.mul(&r); if (l >> i) & 1 == 1 { r = r.mul(self); } } } r }
    pub fn limbs(&self) -> [u64; 4] { self.0 }
    pub fn le32(&self) -> [u8; 32] { let mut b = [0; 32]; for i in 0..4 { b[8 * i..8 * i + 8].copy_from_slice(&self.0[i].to_le_bytes()); } b }
    /// Little-endian bytes of `self + k*p`, for non-canonical encodings (None if it does not fit).
    pub fn le_plus(&self, k: u32, n: usize) -> Option<Vec<u8>> {
        let mut v = [0u64; 9]; v[..4].copy_from_slice(&self.0);
        for _ in 0..k { let mut c = 0u128; for i in 0..9 { let s = v[i] as u128 + *P.get(i).unwrap_or(&0) as u128 + c; v[i] = s as u64; c = s >> 64; } }
        let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
        if n < b.len() && b[n..].iter().any(|x| *x != 0) { return None; }
        let mut r = b; r.resize(n.max(72), 0); r.truncate(n); Some(r)
    }
    pub fn dec(&self) -> String { dec_of(&self.0) }
    /// Decimal text of `self + k*p`.
    pub fn dec_plus(&self, k: u32) -> String {
        let b = self.le_plus(k, 72).unwrap();
        let v: Vec<u64> = b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        dec_of(&v)
    }
    /// Decimal text of `self - k*p` (a negative number for k > 0 unless self = 0 = k).
    pub fn dec_minus(&self, k: u32) -> String {
        if k == 0 { return self.dec(); }
        format!("-{}", self.neg_full().dec_plus(k - 1))
    }
    fn neg_full(&self) -> F { // p - self as an integer below 2^256, kept unreduced only for self = 0
        F(sub(&P, &self.0))
    }
}
fn dec_of(l: &[u64]) -> String {
    let mut v = l.to_vec(); let mut d = vec![];
    loop {
        let mut rem = 0u128;
        for x in v.iter_mut().rev() { let cur = (rem << 64) | *x as u128; *x = (cur / 10) as u64; rem = cur % 10; }
        d.push(b'0' + rem as u8);
        if v.iter().all(|x| *x == 0) { break; }
    }
    d.reverse();
    String::from_utf8(d).unwrap()
}
impl std::fmt::Debug for F { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.dec()) } }
impl Serialize for F { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&self.dec()) } }
impl<'de> Deserialize<'de> for F { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let s = String::deserialize(d)?; F::from_dec(&s).ok_or_else(|| serde::de::Error::custom("bad field element")) } }
pub fn fe() -> BoxedStrategy<F> {
    prop_oneof![
        3 => (0u64..10).prop_map(F::from_u64),
        2 => (1u64..10).prop_map(|x| F::from_u64(x).neg()),
        1 => any::<u64>().prop_map(F::from_u64),
        1 => (0u32..64, any::<u64>()).prop_map(|(b, x)| F::from_u64(x >> b)),
        1 => (0u32..255, proptest::collection::vec(any::<u8>(), 32)).prop_map(|(b, mut v)| { for (i, x) in v.iter_mut().enumerate() { let k = i as u32 * 8; if k >= b { *x = 0 } else if b - k < 8 { *x &= (1u8 << (b - k)) - 1 } } F::from_le(&v) }),
        1 => (0usize..77, -2i64..3).prop_map(|(k, d)| { let t = F::from_u64(10); (0..k).fold(F::one(), |a, _| a.mul(&t)).add(&F::from_i64(d)) }),
        1 => (0u32..254, -2i64..3).prop_map(|(b, d)| { let mut l = [0u8; 32]; l[(b / 8) as usize] = 1 << (b % 8); F::from_le(&l).add(&F::from_i64(d)) }),
        3 => proptest::collection::vec(any::<u8>(), 32).prop_map(|v| F::from_le(&v)),
    ].boxed()
}
pub fn fe_nonzero() -> BoxedStrategy<F> { fe().prop_map(|x| if x.is_zero() { F::one() } else { x }).boxed() }
