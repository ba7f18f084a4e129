//! BN254 (alt_bn128): fields, the two groups and the optimal ate pairing.
use crate::ec::pairing::{Pairing, TargetGroup};
use crate::ec::*;
use crate::ff::*;
use crate::serialize::*;
use rand::Rng;
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::iter::Sum;
use std::marker::PhantomData;
use std::ops::*;
use std::sync::OnceLock;

#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct FqConfig;
impl FpConfig for FqConfig {
    const MODULUS: [u64; 4] = [0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
    const GENERATOR: u64 = 3;
    const TWO_ADICITY: u32 = 1;
    const BITS: u32 = 254;
}
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct FrConfig;
impl FpConfig for FrConfig {
    const MODULUS: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
    const GENERATOR: u64 = 5;
    const TWO_ADICITY: u32 = 28;
    const BITS: u32 = 254;
}
pub type Fq = Fp<FqConfig>;
pub type Fr = Fp<FrConfig>;

// ---------------------------------------------------------------- Fq2 = Fq[u] / (u^2 + 1)
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Fq2 { pub c0: Fq, pub c1: Fq }
impl Fq2 {
    pub fn new(c0: Fq, c1: Fq) -> Self { Self { c0, c1 } }
    fn conj(self) -> Self { Self::new(self.c0, -self.c1) }
    fn xi() -> Self { Self::new(Fq::from(9u64), Fq::from(1u64)) }
    fn mul_xi(self) -> Self {
        let n = |a: Fq| { let d = a.double().double().double(); d + a };
        Self::new(n(self.c0) - self.c1, n(self.c1) + self.c0)
    }
    fn pow_limbs(self, e: &[u64]) -> Self {
        let mut r = Self::one_();
        for l in e.iter().rev() { for i in (0..64).rev() { r = r.sq(); if (l >> i) & 1 == 1 { r = r * self; } } }
        r
    }
}
impl PartialOrd for Fq2 { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Fq2 { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.c1.cmp(&o.c1).then(self.c0.cmp(&o.c0)) } }
impl Add for Fq2 { type Output = Self; fn add(self, o: Self) -> Self { Self::new(self.c0 + o.c0, self.c1 + o.c1) } }
impl Sub for Fq2 { type Output = Self; fn sub(self, o: Self) -> Self { Self::new(self.c0 - o.c0, self.c1 - o.c1) } }
impl Neg for Fq2 { type Output = Self; fn neg(self) -> Self { Self::new(-self.c0, -self.c1) } }
impl Mul for Fq2 {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let a = self.c0 * o.c0; let b = self.c1 * o.c1;
        Self::new(a - b, (self.c0 + self.c1) * (o.c0 + o.c1) - a - b)
    }
}
impl Display for Fq2 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{} + {}*u", self.c0, self.c1) } }

/// What the curve arithmetic needs of a base field.
pub trait Base: Copy + Eq + Ord + Hash + Debug + Display + Default + Send + Sync + 'static
    + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Neg<Output = Self>
{
    const BYTES: usize;
    fn zero_() -> Self;
    fn one_() -> Self;
    fn sq(self) -> Self { self * self }
    fn inv(self) -> Option<Self>;
    fn sqrt_(self) -> Option<Self>;
    fn put(&self, out: &mut Vec<u8>);
    fn get(b: &[u8]) -> Option<Self>;
    fn random<R: Rng + ?Sized>(rng: &mut R) -> Self;
}
impl Base for Fq {
    const BYTES: usize = 32;
    fn zero_() -> Self { Self::zero() }
    fn one_() -> Self { Self::one() }
    fn inv(self) -> Option<Self> { self.inverse() }
    fn sqrt_(self) -> Option<Self> { self.sqrt_3mod4() }
    fn put(&self, out: &mut Vec<u8>) { for l in self.to_limbs() { out.extend_from_slice(&l.to_le_bytes()); } }
    fn get(b: &[u8]) -> Option<Self> { Self::deserialize_compressed(b).ok() }
    fn random<R: Rng + ?Sized>(rng: &mut R) -> Self { Self::rand(rng) }
}
impl Base for Fq2 {
    const BYTES: usize = 64;
    fn zero_() -> Self { Self::default() }
    fn one_() -> Self { Self::new(Fq::one(), Fq::zero()) }
    fn sq(self) -> Self {
        let ab = self.c0 * self.c1;
        Self::new((self.c0 + self.c1) * (self.c0 - self.c1), ab + ab)
    }
    fn inv(self) -> Option<Self> {
        let n = (self.c0.square() + self.c1.square()).inverse()?;
        Some(Self::new(self.c0 * n, -(self.c1 * n)))
    }
    fn sqrt_(self) -> Option<Self> {
        if self == Self::default() { return Some(self); }
        if self.c1.is_zero() {
            return match self.c0.sqrt_3mod4() {
                Some(r) => Some(Self::new(r, Fq::zero())),
                None => (-self.c0).sqrt_3mod4().map(|r| Self::new(Fq::zero(), r)),
            };
        }
        let norm = (self.c0.square() + self.c1.square()).sqrt_3mod4()?;
        let half = Fq::from(2u64).inverse().unwrap();
        for n in [norm, -norm] {
            if let Some(a) = ((self.c0 + n) * half).sqrt_3mod4() {
                if a.is_zero() { continue; }
                let r = Self::new(a, self.c1 * half * a.inverse().unwrap());
                if r.sq() == self { return Some(r); }
            }
        }
        None
    }
    fn put(&self, out: &mut Vec<u8>) { self.c0.put(out); self.c1.put(out); }
    fn get(b: &[u8]) -> Option<Self> { Some(Self::new(Fq::get(&b[..32])?, Fq::get(&b[32..64])?)) }
    fn random<R: Rng + ?Sized>(rng: &mut R) -> Self { Self::new(Fq::rand(rng), Fq::rand(rng)) }
}

// ---------------------------------------------------------------- curves y^2 = x^3 + b
pub trait CurveCfg: 'static + Copy + Clone + Debug + Default + Send + Sync + Eq + Hash {
    type B: Base;
    fn b() -> Self::B;
    fn gen() -> (Self::B, Self::B);
    fn in_subgroup(p: &Jac<Self>) -> bool;
}
pub struct Jac<C: CurveCfg> { x: C::B, y: C::B, z: C::B }
pub struct Aff<C: CurveCfg> { pub x: C::B, pub y: C::B, pub infinity: bool }
impl<C: CurveCfg> Copy for Jac<C> {}
impl<C: CurveCfg> Clone for Jac<C> { fn clone(&self) -> Self { *self } }
impl<C: CurveCfg> Copy for Aff<C> {}
impl<C: CurveCfg> Clone for Aff<C> { fn clone(&self) -> Self { *self } }
impl<C: CurveCfg> PartialEq for Aff<C> { fn eq(&self, o: &Self) -> bool { self.infinity == o.infinity && (self.infinity || (self.x == o.x && self.y == o.y)) } }
impl<C: CurveCfg> Eq for Aff<C> {}
impl<C: CurveCfg> Hash for Aff<C> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.infinity.hash(h); if !self.infinity { self.x.hash(h); self.y.hash(h); } } }
impl<C: CurveCfg> Default for Aff<C> { fn default() -> Self { Self { x: C::B::zero_(), y: C::B::zero_(), infinity: true } } }
impl<C: CurveCfg> Debug for Aff<C> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { if self.infinity { write!(f, "infinity") } else { write!(f, "({}, {})", self.x, self.y) } } }
impl<C: CurveCfg> Display for Aff<C> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Debug::fmt(self, f) } }
impl<C: CurveCfg> Debug for Jac<C> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Debug::fmt(&Aff::from(*self), f) } }
impl<C: CurveCfg> Display for Jac<C> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Debug::fmt(self, f) } }
impl<C: CurveCfg> Default for Jac<C> { fn default() -> Self { Self { x: C::B::one_(), y: C::B::one_(), z: C::B::zero_() } } }
impl<C: CurveCfg> PartialEq for Jac<C> {
    fn eq(&self, o: &Self) -> bool {
        let (a, b) = (self.is_zero(), o.is_zero());
        if a || b { return a == b; }
        let (z1, z2) = (self.z.sq(), o.z.sq());
        self.x * z2 == o.x * z1 && self.y * z2 * o.z == o.y * z1 * self.z
    }
}
impl<C: CurveCfg> Eq for Jac<C> {}
impl<C: CurveCfg> Hash for Jac<C> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { Aff::from(*self).hash(h) } }
impl<C: CurveCfg> Zero for Jac<C> { fn zero() -> Self { Self::default() } fn is_zero(&self) -> bool { self.z == C::B::zero_() } }
impl<C: CurveCfg> Neg for Jac<C> { type Output = Self; fn neg(self) -> Self { Self { y: -self.y, ..self } } }
impl<C: CurveCfg> Neg for Aff<C> { type Output = Self; fn neg(self) -> Self { Self { y: -self.y, ..self } } }
fn dbl<C: CurveCfg>(p: Jac<C>) -> Jac<C> {
    if p.is_zero() || p.y == C::B::zero_() { return Jac::default(); }
    let a = p.x.sq(); let b = p.y.sq(); let c = b.sq();
    let t = (p.x + b).sq() - a - c;
    let d = t + t;
    let e = a + a + a;
    let x = e.sq() - d - d;
    let c8 = { let c2 = c + c; let c4 = c2 + c2; c4 + c4 };
    let y = e * (d - x) - c8;
    let yz = p.y * p.z;
    Jac { x, y, z: yz + yz }
}
impl<C: CurveCfg> Add for Jac<C> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        if self.is_zero() { return o; }
        if o.is_zero() { return self; }
        let (z1, z2) = (self.z.sq(), o.z.sq());
        let (u1, u2) = (self.x * z2, o.x * z1);
        let (s1, s2) = (self.y * o.z * z2, o.y * self.z * z1);
        if u1 == u2 { return if s1 == s2 { dbl(self) } else { Self::default() }; }
        let h = u2 - u1; let r = s2 - s1;
        let h2 = h.sq(); let h3 = h2 * h; let v = u1 * h2;
        let x = r.sq() - h3 - v - v;
        Self { x, y: r * (v - x) - s1 * h3, z: self.z * o.z * h }
    }
}
impl<C: CurveCfg> From<Aff<C>> for Jac<C> { fn from(p: Aff<C>) -> Self { if p.infinity { Self::default() } else { Self { x: p.x, y: p.y, z: C::B::one_() } } } }
impl<C: CurveCfg> From<Jac<C>> for Aff<C> {
    fn from(p: Jac<C>) -> Self {
        match p.z.inv() { None => Self::default(), Some(zi) => { let z2 = zi.sq(); Self { x: p.x * z2, y: p.y * z2 * zi, infinity: false } } }
    }
}
impl<C: CurveCfg> Sub for Jac<C> { type Output = Self; fn sub(self, o: Self) -> Self { self + (-o) } }
impl<C: CurveCfg> Add<Aff<C>> for Jac<C> { type Output = Self; fn add(self, o: Aff<C>) -> Self { self + Jac::from(o) } }
impl<C: CurveCfg> Sub<Aff<C>> for Jac<C> { type Output = Self; fn sub(self, o: Aff<C>) -> Self { self - Jac::from(o) } }
impl<'a, C: CurveCfg> Add<&'a Aff<C>> for Jac<C> { type Output = Self; fn add(self, o: &'a Aff<C>) -> Self { self + Jac::from(*o) } }
impl<C: CurveCfg> AddAssign<Aff<C>> for Jac<C> { fn add_assign(&mut self, o: Aff<C>) { *self = *self + o } }
impl<C: CurveCfg> SubAssign<Aff<C>> for Jac<C> { fn sub_assign(&mut self, o: Aff<C>) { *self = *self - o } }
impl<'a, C: CurveCfg> Add<&'a Self> for Jac<C> { type Output = Self; fn add(self, o: &'a Self) -> Self { self + *o } }
impl<'a, C: CurveCfg> Sub<&'a Self> for Jac<C> { type Output = Self; fn sub(self, o: &'a Self) -> Self { self - *o } }
impl<C: CurveCfg> AddAssign for Jac<C> { fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl<C: CurveCfg> SubAssign for Jac<C> { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
impl<'a, C: CurveCfg> AddAssign<&'a Self> for Jac<C> { fn add_assign(&mut self, o: &'a Self) { *self = *self + *o } }
impl<'a, C: CurveCfg> SubAssign<&'a Self> for Jac<C> { fn sub_assign(&mut self, o: &'a Self) { *self = *self - *o } }
fn smul<C: CurveCfg>(p: Jac<C>, s: &Fr) -> Jac<C> {
    let l = s.to_limbs();
    let mut tab = [Jac::<C>::default(); 16];
    for i in 1..16 { tab[i] = tab[i - 1] + p; }
    let mut r = Jac::<C>::default();
    for i in (0..64).rev() {
        r = dbl(dbl(dbl(dbl(r))));
        let d = ((l[i / 16] >> (4 * (i % 16))) & 15) as usize;
        if d != 0 { r = r + tab[d]; }
    }
    r
}
impl<C: CurveCfg> Mul<Fr> for Jac<C> { type Output = Self; fn mul(self, s: Fr) -> Self { smul(self, &s) } }
impl<'a, C: CurveCfg> Mul<&'a Fr> for Jac<C> { type Output = Self; fn mul(self, s: &'a Fr) -> Self { smul(self, s) } }
impl<C: CurveCfg> MulAssign<Fr> for Jac<C> { fn mul_assign(&mut self, s: Fr) { *self = smul(*self, &s) } }
impl<'a, C: CurveCfg> MulAssign<&'a Fr> for Jac<C> { fn mul_assign(&mut self, s: &'a Fr) { *self = smul(*self, s) } }
impl<C: CurveCfg> Mul<Fr> for Aff<C> { type Output = Jac<C>; fn mul(self, s: Fr) -> Jac<C> { smul(self.into(), &s) } }
impl<'a, C: CurveCfg> Mul<&'a Fr> for Aff<C> { type Output = Jac<C>; fn mul(self, s: &'a Fr) -> Jac<C> { smul(self.into(), s) } }
impl<C: CurveCfg> Add for Aff<C> { type Output = Jac<C>; fn add(self, o: Self) -> Jac<C> { Jac::from(self) + Jac::from(o) } }
impl<C: CurveCfg> Sub for Aff<C> { type Output = Jac<C>; fn sub(self, o: Self) -> Jac<C> { Jac::from(self) - Jac::from(o) } }
impl<C: CurveCfg> Add<Jac<C>> for Aff<C> { type Output = Jac<C>; fn add(self, o: Jac<C>) -> Jac<C> { Jac::from(self) + o } }
impl<C: CurveCfg> Sum for Jac<C> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::default(), |a, b| a + b) } }
impl<'a, C: CurveCfg> Sum<&'a Self> for Jac<C> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::default(), |a, b| a + *b) } }
impl<C: CurveCfg> UniformRand for Jac<C> { fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self { { let (x, y) = C::gen(); Self { x, y, z: C::B::one_() } * Fr::rand(rng) } } }
impl<C: CurveCfg> UniformRand for Aff<C> { fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self { Jac::<C>::rand(rng).into() } }

const INF: u8 = 1 << 6;
const NEG: u8 = 1 << 7;
impl<C: CurveCfg> Valid for Aff<C> {
    fn check(&self) -> Result<(), SerializationError> {
        let ok = self.infinity || (self.y.sq() == self.x.sq() * self.x + C::b() && C::in_subgroup(&Jac::from(*self)));
        if ok { Ok(()) } else { Err(SerializationError::InvalidData) }
    }
}
impl<C: CurveCfg> CanonicalSerialize for Aff<C> {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> {
        let mut out = vec![];
        let (x, y) = if self.infinity { (C::B::zero_(), C::B::zero_()) } else { (self.x, self.y) };
        x.put(&mut out);
        if c == Compress::No { y.put(&mut out); }
        let last = out.len() - 1;
        if self.infinity { out[last] |= INF } else if y > -y { out[last] |= NEG }
        Ok(w.write_all(&out)?)
    }
    fn serialized_size(&self, c: Compress) -> usize { if c == Compress::Yes { C::B::BYTES } else { 2 * C::B::BYTES } }
}
impl<C: CurveCfg> CanonicalDeserialize for Aff<C> {
    fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        let n = C::B::BYTES;
        let mut b = vec![0u8; if c == Compress::Yes { n } else { 2 * n }];
        r.read_exact(&mut b)?;
        let last = b.len() - 1;
        let flags = b[last] & (INF | NEG);
        b[last] &= !(INF | NEG);
        if flags == INF | NEG { return Err(SerializationError::UnexpectedFlags); }
        let x = C::B::get(&b[..n]).ok_or(SerializationError::InvalidData)?;
        let p = if c == Compress::Yes {
            if flags == INF { return Ok(Self::default()); }
            let y = (x.sq() * x + C::b()).sqrt_().ok_or(SerializationError::InvalidData)?;
            let big = y > -y;
            Self { x, y: if big == (flags == NEG) { y } else { -y }, infinity: false }
        } else {
            let y = C::B::get(&b[n..]).ok_or(SerializationError::InvalidData)?;
            if flags == INF { return Ok(Self::default()); }
            Self { x, y, infinity: false }
        };
        if v == Validate::Yes { p.check()?; }
        Ok(p)
    }
}
impl<C: CurveCfg> Valid for Jac<C> { fn check(&self) -> Result<(), SerializationError> { Aff::from(*self).check() } }
impl<C: CurveCfg> CanonicalSerialize for Jac<C> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { Aff::from(*self).serialize_with_mode(w, c) }
    fn serialized_size(&self, c: Compress) -> usize { Aff::from(*self).serialized_size(c) }
}
impl<C: CurveCfg> CanonicalDeserialize for Jac<C> {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> { Ok(Aff::deserialize_with_mode(r, c, v)?.into()) }
}

macro_rules! group { ($cfg:ident, $jac:ident, $aff:ident, $zero:expr) => {
    pub type $jac = Jac<$cfg>;
    pub type $aff = Aff<$cfg>;
    impl AdditiveGroup for Jac<$cfg> { type Scalar = Fr; const ZERO: Self = $zero; fn double(&self) -> Self { dbl(*self) } }
} }
const FQ0: Fq = <Fq as AdditiveGroup>::ZERO;
const FQ1: Fq = <Fq as Field>::ONE;
const FQ20: Fq2 = Fq2 { c0: FQ0, c1: FQ0 };
const FQ21: Fq2 = Fq2 { c0: FQ1, c1: FQ0 };
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct G1Cfg;
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct G2Cfg;
group!(G1Cfg, G1Projective, G1Affine, Jac { x: FQ1, y: FQ1, z: FQ0 });
group!(G2Cfg, G2Projective, G2Affine, Jac { x: FQ21, y: FQ21, z: FQ20 });
pub type G1 = G1Projective;
pub type G2 = G2Projective;
impl CurveCfg for G1Cfg {
    type B = Fq;
    fn b() -> Fq { Fq::from(3u64) }
    fn gen() -> (Fq, Fq) { (Fq::from(1u64), Fq::from(2u64)) }
    fn in_subgroup(_p: &Jac<Self>) -> bool { true } // cofactor one
}
impl CurveCfg for G2Cfg {
    type B = Fq2;
    fn b() -> Fq2 {
        static B: OnceLock<Fq2> = OnceLock::new();
        *B.get_or_init(|| Fq2::new(Fq::from(3u64), Fq::zero()) * Fq2::xi().inv().unwrap())
    }
    fn gen() -> (Fq2, Fq2) {
        static G: OnceLock<(Fq2, Fq2)> = OnceLock::new();
        *G.get_or_init(|| {
            let f = Fq::from_dec;
            (Fq2::new(f("10857046999023057135944570762232829481370756359578518086990519993285655852781"), f("11559732032986387107991004021392285783925812861821192530917403151452391805634")),
             Fq2::new(f("8495653923123431417604973247489272438418190587263600148770280649306958101930"), f("4082367875863433681332203403145435568316851327593401208105741076214120093531")))
        })
    }
    fn in_subgroup(p: &Jac<Self>) -> bool { PrimeGroup::mul_bigint(p, Fr::MODULUS).is_zero() }
}
impl<C: CurveCfg> PrimeGroup for Jac<C> where Jac<C>: AdditiveGroup<Scalar = Fr> {
    type ScalarField = Fr;
    fn generator() -> Self { let (x, y) = C::gen(); Self { x, y, z: C::B::one_() } }
}
impl<C: CurveCfg> VariableBaseMSM for Jac<C> where Jac<C>: AdditiveGroup<Scalar = Fr> { type MulBase = Aff<C>; }
impl<C: CurveCfg> CurveGroup for Jac<C> where Jac<C>: AdditiveGroup<Scalar = Fr> { type Affine = Aff<C>; }
impl<C: CurveCfg> AffineRepr for Aff<C> where Jac<C>: AdditiveGroup<Scalar = Fr> {
    type ScalarField = Fr;
    type Group = Jac<C>;
    fn generator() -> Self { let (x, y) = C::gen(); Self { x, y, infinity: false } }
    fn zero() -> Self { Self::default() }
    fn is_zero(&self) -> bool { self.infinity }
}

// ---------------------------------------------------------------- Fq6 and Fq12
#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Fq6([Fq2; 3]);
impl Fq6 {
    fn one() -> Self { Self([Fq2::one_(), Fq2::default(), Fq2::default()]) }
    fn mul_v(self) -> Self { let [a, b, c] = self.0; Self([c.mul_xi(), a, b]) }
    fn inv(self) -> Option<Self> {
        let [a, b, c] = self.0;
        let t0 = a.sq() - (b * c).mul_xi();
        let t1 = c.sq().mul_xi() - a * b;
        let t2 = b.sq() - a * c;
        let d = (a * t0 + ((c * t1) + (b * t2)).mul_xi()).inv()?;
        Some(Self([t0 * d, t1 * d, t2 * d]))
    }
}
impl Add for Fq6 { type Output = Self; fn add(self, o: Self) -> Self { Self([self.0[0] + o.0[0], self.0[1] + o.0[1], self.0[2] + o.0[2]]) } }
impl Sub for Fq6 { type Output = Self; fn sub(self, o: Self) -> Self { Self([self.0[0] - o.0[0], self.0[1] - o.0[1], self.0[2] - o.0[2]]) } }
impl Neg for Fq6 { type Output = Self; fn neg(self) -> Self { Self([-self.0[0], -self.0[1], -self.0[2]]) } }
impl Mul for Fq6 {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let ([a0, a1, a2], [b0, b1, b2]) = (self.0, o.0);
        let (v0, v1, v2) = (a0 * b0, a1 * b1, a2 * b2);
        Self([v0 + ((a1 + a2) * (b1 + b2) - v1 - v2).mul_xi(), (a0 + a1) * (b0 + b1) - v0 - v1 + v2.mul_xi(), (a0 + a2) * (b0 + b2) - v0 - v2 + v1])
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Fq12 { c0: Fq6, c1: Fq6 }
impl Default for Fq12 { fn default() -> Self { Self { c0: Fq6::default(), c1: Fq6::default() } } }
impl Display for Fq12 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Debug::fmt(self, f) } }
impl One for Fq12 { fn one() -> Self { Self { c0: Fq6::one(), c1: Fq6::default() } } }
impl Mul for Fq12 {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let a = self.c0 * o.c0; let b = self.c1 * o.c1;
        Self { c1: (self.c0 + self.c1) * (o.c0 + o.c1) - a - b, c0: a + b.mul_v() }
    }
}
impl Fq12 {
    fn sq(self) -> Self {
        let t = self.c0 * self.c1;
        let c0 = (self.c0 + self.c1) * (self.c0 + self.c1.mul_v()) - t - t.mul_v();
        Self { c0, c1: t + t }
    }
    fn conj(self) -> Self { Self { c0: self.c0, c1: -self.c1 } }
    fn inv(self) -> Option<Self> {
        let d = (self.c0 * self.c0 - (self.c1 * self.c1).mul_v()).inv()?;
        Some(Self { c0: self.c0 * d, c1: -(self.c1 * d) })
    }
    fn pow_limbs(self, e: &[u64]) -> Self {
        let mut r = Self::one(); let mut started = false;
        for l in e.iter().rev() { for i in (0..64).rev() {
            if started { r = r.sq(); }
            if (l >> i) & 1 == 1 { r = r * self; started = true; }
        } }
        r
    }
    /// Coefficients of 1, w, w^2, ... w^5 (w^2 = v).
    fn coeffs(self) -> [Fq2; 6] { let (a, b) = (self.c0.0, self.c1.0); [a[0], b[0], a[1], b[1], a[2], b[2]] }
    fn from_coeffs(c: [Fq2; 6]) -> Self { Self { c0: Fq6([c[0], c[2], c[4]]), c1: Fq6([c[1], c[3], c[5]]) } }
    fn frob1(self) -> Self {
        // w^p = w * xi^((p-1)/6)
        let g = &consts().gamma;
        let mut c = self.coeffs();
        for i in 0..6 { c[i] = c[i].conj() * g[i]; }
        Self::from_coeffs(c)
    }
    fn frob(self, n: usize) -> Self { (0..n).fold(self, |a, _| a.frob1()) }
}
struct Consts { gamma: [Fq2; 6], tw_x: Fq2, tw_y: Fq2 }
fn consts() -> &'static Consts {
    static C: OnceLock<Consts> = OnceLock::new();
    C.get_or_init(|| {
        let mut e = FqConfig::MODULUS;
        e[0] -= 1;
        // (p - 1) / 6
        let mut q = [0u64; 4]; let mut rem = 0u128;
        for i in (0..4).rev() { let cur = (rem << 64) | e[i] as u128; q[i] = (cur / 6) as u64; rem = cur % 6; }
        assert_eq!(rem, 0);
        let g1 = Fq2::xi().pow_limbs(&q);
        let mut gamma = [Fq2::one_(); 6];
        for i in 1..6 { gamma[i] = gamma[i - 1] * g1; }
        Consts { tw_x: gamma[2], tw_y: gamma[3], gamma }
    })
}
const X: u64 = 4965661367192848881;
fn miller(p: &G1Affine, q: &G2Affine) -> Fq12 {
    // 6x + 2 needs 65 bits
    let s: u128 = 6 * X as u128 + 2;
    let line = |lam: Fq2, x1: Fq2, y1: Fq2| -> Fq12 {
        // l = yP - lam xP w + (lam x1 - y1) w^3
        let mut c = [Fq2::default(); 6];
        c[0] = Fq2::new(p.y, Fq::zero());
        c[1] = -(lam * Fq2::new(p.x, Fq::zero()));
        c[3] = lam * x1 - y1;
        Fq12::from_coeffs(c)
    };
    // returns line value and the sum
    let add_step = |t: G2Affine, o: G2Affine| -> (Fq12, G2Affine) {
        let lam = if t.x == o.x {
            let x2 = t.x.sq();
            (x2 + x2 + x2) * (t.y + t.y).inv().expect("non-zero y")
        } else { (o.y - t.y) * (o.x - t.x).inv().expect("distinct points") };
        let x = lam.sq() - t.x - o.x;
        let y = lam * (t.x - x) - t.y;
        (line(lam, t.x, t.y), G2Affine { x, y, infinity: false })
    };
    let mut f = Fq12::one();
    let mut t = *q;
    let top = 127 - s.leading_zeros();
    for i in (0..top).rev() {
        f = f.sq();
        let (l, n) = add_step(t, t); f = f * l; t = n;
        if (s >> i) & 1 == 1 { let (l, n) = add_step(t, *q); f = f * l; t = n; }
    }
    let c = consts();
    let fro = |a: G2Affine| G2Affine { x: a.x.conj() * c.tw_x, y: a.y.conj() * c.tw_y, infinity: false };
    let q1 = fro(*q);
    let q2 = -fro(q1);
    let (l, n) = add_step(t, q1); f = f * l; t = n;
    let (l, _) = add_step(t, q2); f * l
}
fn exp_neg_x(f: Fq12) -> Fq12 { f.pow_limbs(&[X]).conj() }
fn final_exp(f: Fq12) -> Fq12 {
    let r = f.conj() * f.inv().expect("non-zero");
    let mut r = r.frob(2) * r;
    let y0 = exp_neg_x(r);
    let y1 = y0.sq();
    let y2 = y1.sq();
    let mut y3 = y2 * y1;
    let y4 = exp_neg_x(y3);
    let y5 = y4.sq();
    let mut y6 = exp_neg_x(y5);
    y3 = y3.conj();
    y6 = y6.conj();
    let y7 = y6 * y4;
    let mut y8 = y7 * y3;
    let y9 = y8 * y1;
    let y10 = y8 * y4;
    let y11 = y10 * r;
    let y12 = y9.frob(1);
    let y13 = y12 * y11;
    y8 = y8.frob(2);
    let y14 = y8 * y13;
    r = r.conj();
    let y15 = (r * y9).frob(3);
    y15 * y14
}
impl TargetGroup for Fq12 {
    const IDENTITY: Self = Self { c0: Fq6([FQ21, FQ20, FQ20]), c1: Fq6([FQ20, FQ20, FQ20]) };
    fn group_inverse(&self) -> Self { self.conj() }
    fn group_pow(&self, e: &[u64]) -> Self { self.pow_limbs(e) }
}
impl Valid for Fq12 {
    fn check(&self) -> Result<(), SerializationError> {
        if self.pow_limbs(&FrConfig::MODULUS) == Self::one() { Ok(()) } else { Err(SerializationError::InvalidData) }
    }
}
impl CanonicalSerialize for Fq12 {
    fn serialize_with_mode<W: Write>(&self, mut w: W, _c: Compress) -> Result<(), SerializationError> {
        let mut out = vec![];
        for h in [self.c0, self.c1] { for x in h.0 { x.put(&mut out); } }
        Ok(w.write_all(&out)?)
    }
    fn serialized_size(&self, _c: Compress) -> usize { 384 }
}
impl CanonicalDeserialize for Fq12 {
    fn deserialize_with_mode<R: Read>(mut r: R, _c: Compress, v: Validate) -> Result<Self, SerializationError> {
        let mut b = [0u8; 384];
        r.read_exact(&mut b)?;
        let mut c = [Fq2::default(); 6];
        for i in 0..6 { c[i] = Fq2::get(&b[64 * i..64 * i + 64]).ok_or(SerializationError::InvalidData)?; }
        let x = Self { c0: Fq6([c[0], c[1], c[2]]), c1: Fq6([c[3], c[4], c[5]]) };
        if v == Validate::Yes { x.check()?; }
        Ok(x)
    }
}

// ---------------------------------------------------------------- the pairing
#[derive(Clone, Debug, Default)]
pub struct Prepared<C: CurveCfg>(Aff<C>, PhantomData<C>);
impl<C: CurveCfg> From<Aff<C>> for Prepared<C> { fn from(p: Aff<C>) -> Self { Self(p, PhantomData) } }
impl<C: CurveCfg> From<Jac<C>> for Prepared<C> { fn from(p: Jac<C>) -> Self { Self(p.into(), PhantomData) } }
impl<'a, C: CurveCfg> From<&'a Aff<C>> for Prepared<C> { fn from(p: &'a Aff<C>) -> Self { Self(*p, PhantomData) } }
impl<'a, C: CurveCfg> From<&'a Jac<C>> for Prepared<C> { fn from(p: &'a Jac<C>) -> Self { Self((*p).into(), PhantomData) } }
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Bn254;
impl Pairing for Bn254 {
    type ScalarField = Fr;
    type G1 = G1Projective;
    type G1Affine = G1Affine;
    type G1Prepared = Prepared<G1Cfg>;
    type G2 = G2Projective;
    type G2Affine = G2Affine;
    type G2Prepared = Prepared<G2Cfg>;
    type TargetField = Fq12;
    fn pairing_one(p: Prepared<G1Cfg>, q: Prepared<G2Cfg>) -> Fq12 {
        if p.0.infinity || q.0.infinity { return Fq12::one(); }
        final_exp(miller(&p.0, &q.0))
    }
}
