//! Prime fields with four 64-bit limbs in Montgomery form.
use crate::serialize::*;
pub use num_traits::{One, Zero};
use std::cmp::Ordering;
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::iter::{Product, Sum};
use std::marker::PhantomData;
use std::ops::*;
use std::str::FromStr;

pub trait UniformRand: Sized {
    fn rand<R: rand::Rng + ?Sized>(rng: &mut R) -> Self;
}

// ---------------------------------------------------------------- big integers
#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub struct BigInt<const N: usize>(pub [u64; N]);
impl<const N: usize> Default for BigInt<N> { fn default() -> Self { Self([0; N]) } }
impl<const N: usize> BigInt<N> {
    pub const fn new(v: [u64; N]) -> Self { Self(v) }
    pub const fn zero() -> Self { Self([0; N]) }
    pub const fn one() -> Self { let mut v = [0; N]; v[0] = 1; Self(v) }
}
impl<const N: usize> From<u64> for BigInt<N> { fn from(x: u64) -> Self { let mut v = [0; N]; v[0] = x; Self(v) } }
impl<const N: usize> From<u32> for BigInt<N> { fn from(x: u32) -> Self { Self::from(x as u64) } }
impl<const N: usize> AsRef<[u64]> for BigInt<N> { fn as_ref(&self) -> &[u64] { &self.0 } }
impl<const N: usize> AsMut<[u64]> for BigInt<N> { fn as_mut(&mut self) -> &mut [u64] { &mut self.0 } }
impl<const N: usize> PartialOrd for BigInt<N> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<const N: usize> Ord for BigInt<N> {
    fn cmp(&self, o: &Self) -> Ordering {
        for i in (0..N).rev() { match self.0[i].cmp(&o.0[i]) { Ordering::Equal => {} x => return x } }
        Ordering::Equal
    }
}
impl<const N: usize> Display for BigInt<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut v = self.0; let mut digits = vec![];
        loop {
            let mut rem = 0u128;
            for i in (0..N).rev() { let cur = (rem << 64) | v[i] as u128; v[i] = (cur / 10) as u64; rem = cur % 10; }
            digits.push(b'0' + rem as u8);
            if v.iter().all(|x| *x == 0) { break; }
        }
        digits.reverse();
        f.write_str(std::str::from_utf8(&digits).unwrap())
    }
}
pub trait BigInteger: Sized + Copy + Clone + Debug + Default + Display + Eq + Ord + Send + Sync + AsRef<[u64]> + AsMut<[u64]> + From<u64> + From<u32> + 'static {
    const NUM_LIMBS: usize;
    fn is_zero(&self) -> bool { self.as_ref().iter().all(|x| *x == 0) }
    fn is_odd(&self) -> bool { self.as_ref()[0] & 1 == 1 }
    fn is_even(&self) -> bool { !self.is_odd() }
    fn num_bits(&self) -> u32 {
        let mut n = Self::NUM_LIMBS as u32 * 64;
        for l in self.as_ref().iter().rev() { n -= l.leading_zeros(); if *l != 0 { break; } }
        n
    }
    fn get_bit(&self, i: usize) -> bool { i < 64 * Self::NUM_LIMBS && (self.as_ref()[i / 64] >> (i % 64)) & 1 == 1 }
    fn to_bytes_le(&self) -> Vec<u8> { self.as_ref().iter().flat_map(|l| l.to_le_bytes()).collect() }
    fn to_bytes_be(&self) -> Vec<u8> { let mut v = self.to_bytes_le(); v.reverse(); v }
    fn to_bits_le(&self) -> Vec<bool> { (0..64 * Self::NUM_LIMBS).map(|i| self.get_bit(i)).collect() }
    fn to_bits_be(&self) -> Vec<bool> { let mut v = self.to_bits_le(); v.reverse(); v }
}
impl<const N: usize> BigInteger for BigInt<N> { const NUM_LIMBS: usize = N; }
impl<const N: usize> AsRef<BigInt<N>> for BigInt<N> { fn as_ref(&self) -> &BigInt<N> { self } }

// ---------------------------------------------------------------- traits
pub trait AdditiveGroup: Eq + 'static + Sized + Copy + Clone + Default + Send + Sync + Hash + Debug + Display + UniformRand
    + CanonicalSerialize + CanonicalDeserialize + Zero + Neg<Output = Self>
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + AddAssign<Self> + SubAssign<Self>
    + Mul<<Self as AdditiveGroup>::Scalar, Output = Self> + MulAssign<<Self as AdditiveGroup>::Scalar>
    + for<'a> Mul<&'a <Self as AdditiveGroup>::Scalar, Output = Self>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self>
    + Sum<Self> + for<'a> Sum<&'a Self>
{
    type Scalar: Field;
    const ZERO: Self;
    fn double(&self) -> Self { *self + *self }
    fn double_in_place(&mut self) -> &mut Self { *self = self.double(); self }
    fn neg_in_place(&mut self) -> &mut Self { *self = -*self; self }
}
pub trait Field:
    AdditiveGroup<Scalar = Self> + 'static + Copy + Clone + Debug + Display + Default + Send + Sync + Eq + Zero + One + Ord + Neg<Output = Self> + UniformRand + Sized + Hash
    + CanonicalSerialize + CanonicalDeserialize
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Div<Self, Output = Self>
    + AddAssign<Self> + SubAssign<Self> + MulAssign<Self> + DivAssign<Self>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> Div<&'a Self, Output = Self>
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self> + for<'a> DivAssign<&'a Self>
    + Sum<Self> + for<'a> Sum<&'a Self> + Product<Self> + for<'a> Product<&'a Self>
    + From<u128> + From<u64> + From<u32> + From<u16> + From<u8> + From<i128> + From<i64> + From<i32> + From<i16> + From<i8> + From<bool>
{
    const ONE: Self;
    fn square(&self) -> Self { *self * *self }
    fn square_in_place(&mut self) -> &mut Self { *self = self.square(); self }
    fn inverse(&self) -> Option<Self>;
    fn inverse_in_place(&mut self) -> Option<&mut Self> { let i = self.inverse()?; *self = i; Some(self) }
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::one();
        for l in exp.as_ref().iter().rev() {
            for i in (0..64).rev() { res = res.square(); if (l >> i) & 1 == 1 { res = res * *self; } }
        }
        res
    }
}
pub trait FftField: Field {
    const GENERATOR: Self;
    const TWO_ADICITY: u32;
    fn get_root_of_unity(n: u64) -> Option<Self>;
}
pub trait PrimeField: FftField + FromStr + From<<Self as PrimeField>::BigInt> + Into<<Self as PrimeField>::BigInt> {
    type BigInt: BigInteger;
    const MODULUS: Self::BigInt;
    const MODULUS_BIT_SIZE: u32;
    fn from_bigint(b: Self::BigInt) -> Option<Self>;
    fn into_bigint(self) -> Self::BigInt;
    fn from_be_bytes_mod_order(bytes: &[u8]) -> Self {
        let mut r = Self::zero();
        let b = Self::from(256u64);
        for x in bytes { r = r * b + Self::from(*x as u64); }
        r
    }
    fn from_le_bytes_mod_order(bytes: &[u8]) -> Self {
        let mut v = bytes.to_vec(); v.reverse();
        Self::from_be_bytes_mod_order(&v)
    }
}
pub fn batch_inversion<F: Field>(v: &mut [F]) { for x in v { if let Some(i) = x.inverse() { *x = i; } } }

// ---------------------------------------------------------------- Montgomery fields
pub trait FpConfig: 'static + Copy + Clone + Send + Sync + Debug + Default + Eq + Hash + Ord {
    const MODULUS: [u64; 4];
    const GENERATOR: u64;
    const TWO_ADICITY: u32;
    const BITS: u32;
}
const fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    let mut i = 4;
    while i > 0 { i -= 1; if a[i] > b[i] { return true; } if a[i] < b[i] { return false; } }
    true
}
const fn sub4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0u64; 4]; let mut borrow = 0u64; let mut i = 0;
    while i < 4 {
        let (d, b1) = a[i].overflowing_sub(b[i]);
        let (d, b2) = d.overflowing_sub(borrow);
        r[i] = d; borrow = (b1 as u64) | (b2 as u64); i += 1;
    }
    r
}
const fn dbl_mod(a: &[u64; 4], m: &[u64; 4]) -> [u64; 4] {
    // a < m < 2^255
    let mut r = [0u64; 4]; let mut c = 0; let mut i = 0;
    while i < 4 { r[i] = (a[i] << 1) | c; c = a[i] >> 63; i += 1; }
    if geq(&r, m) { sub4(&r, m) } else { r }
}
const fn pow2_mod(n: usize, m: &[u64; 4]) -> [u64; 4] {
    let mut r = [1u64, 0, 0, 0]; let mut i = 0;
    while i < n { r = dbl_mod(&r, m); i += 1; }
    r
}
const fn mont_inv(m0: u64) -> u64 {
    let mut inv = 1u64; let mut i = 0;
    while i < 63 { inv = inv.wrapping_mul(inv).wrapping_mul(m0); i += 1; }
    inv.wrapping_neg()
}
pub struct Fp<C: FpConfig>([u64; 4], PhantomData<C>);
impl<C: FpConfig> Copy for Fp<C> {}
impl<C: FpConfig> Clone for Fp<C> { fn clone(&self) -> Self { *self } }
impl<C: FpConfig> PartialEq for Fp<C> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<C: FpConfig> Eq for Fp<C> {}
impl<C: FpConfig> Hash for Fp<C> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<C: FpConfig> Default for Fp<C> { fn default() -> Self { Self([0; 4], PhantomData) } }
impl<C: FpConfig> Fp<C> {
    const R: [u64; 4] = pow2_mod(256, &C::MODULUS);
    const R2: [u64; 4] = pow2_mod(512, &C::MODULUS);
    const INV: u64 = mont_inv(C::MODULUS[0]);
    #[inline(always)]
    fn mul_mont(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
        let m = &C::MODULUS;
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 { let s = t[j] as u128 + (a[j] as u128) * (b[i] as u128) + c; t[j] = s as u64; c = s >> 64; }
            let s = t[4] as u128 + c; t[4] = s as u64; t[5] = (s >> 64) as u64;
            let k = t[0].wrapping_mul(Self::INV);
            let mut c = (t[0] as u128 + (k as u128) * (m[0] as u128)) >> 64;
            for j in 1..4 { let s = t[j] as u128 + (k as u128) * (m[j] as u128) + c; t[j - 1] = s as u64; c = s >> 64; }
            let s = t[4] as u128 + c; t[3] = s as u64; t[4] = t[5] + (s >> 64) as u64; t[5] = 0;
        }
        let r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || geq(&r, m) { sub4(&r, m) } else { r }
    }
    pub fn from_limbs(l: [u64; 4]) -> Self { Self(Self::mul_mont(&l, &Self::R2), PhantomData) }
    pub fn to_limbs(&self) -> [u64; 4] { Self::mul_mont(&self.0, &[1, 0, 0, 0]) }
    pub fn from_dec(s: &str) -> Self { Self::from_str(s).ok().expect("decimal constant") }
    pub fn sqrt_3mod4(&self) -> Option<Self> {
        // only for moduli = 3 mod 4
        let mut e = C::MODULUS; // (p+1)/4
        e[0] += 1; // p is odd and p mod 4 = 3 so there is no carry
        for i in 0..4 { e[i] = (e[i] >> 2) | if i < 3 { e[i + 1] << 62 } else { 0 }; }
        let r = self.pow(e);
        if r.square() == *self { Some(r) } else { None }
    }
}
impl<C: FpConfig> PartialOrd for Fp<C> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<C: FpConfig> Ord for Fp<C> { fn cmp(&self, o: &Self) -> Ordering { BigInt(self.to_limbs()).cmp(&BigInt(o.to_limbs())) } }
impl<C: FpConfig> Display for Fp<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Display::fmt(&BigInt(self.to_limbs()), f) }
}
impl<C: FpConfig> Debug for Fp<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Display::fmt(self, f) }
}
impl<C: FpConfig> Zero for Fp<C> { fn zero() -> Self { Self::default() } fn is_zero(&self) -> bool { self.0 == [0; 4] } }
impl<C: FpConfig> One for Fp<C> { fn one() -> Self { Self(Self::R, PhantomData) } }
impl<C: FpConfig> AdditiveGroup for Fp<C> { type Scalar = Self; const ZERO: Self = Self([0; 4], PhantomData); }
impl<C: FpConfig> Neg for Fp<C> { type Output = Self; fn neg(self) -> Self { if self.is_zero() { self } else { Self(sub4(&C::MODULUS, &self.0), PhantomData) } } }
impl<C: FpConfig> Add for Fp<C> {
    type Output = Self;
    #[inline(always)]
    fn add(self, o: Self) -> Self {
        let mut r = [0u64; 4]; let mut c = 0u128;
        for i in 0..4 { let s = self.0[i] as u128 + o.0[i] as u128 + c; r[i] = s as u64; c = s >> 64; }
        if geq(&r, &C::MODULUS) { r = sub4(&r, &C::MODULUS); }
        Self(r, PhantomData)
    }
}
impl<C: FpConfig> Sub for Fp<C> {
    type Output = Self;
    #[inline(always)]
    fn sub(self, o: Self) -> Self {
        if geq(&self.0, &o.0) { Self(sub4(&self.0, &o.0), PhantomData) } else { self + (-o) }
    }
}
impl<C: FpConfig> Mul for Fp<C> { type Output = Self; #[inline(always)] fn mul(self, o: Self) -> Self { Self(Self::mul_mont(&self.0, &o.0), PhantomData) } }
impl<C: FpConfig> Div for Fp<C> { type Output = Self; fn div(self, o: Self) -> Self { self * o.inverse().expect("division by zero") } }
macro_rules! refops { ($($tr:ident $f:ident $atr:ident $af:ident),*) => { $(
    impl<'a, C: FpConfig> $tr<&'a Fp<C>> for Fp<C> { type Output = Fp<C>; #[inline(always)] fn $f(self, o: &'a Fp<C>) -> Fp<C> { $tr::$f(self, *o) } }
    impl<'a, C: FpConfig> $tr<Fp<C>> for &'a Fp<C> { type Output = Fp<C>; #[inline(always)] fn $f(self, o: Fp<C>) -> Fp<C> { $tr::$f(*self, o) } }
    impl<'a, 'b, C: FpConfig> $tr<&'b Fp<C>> for &'a Fp<C> { type Output = Fp<C>; #[inline(always)] fn $f(self, o: &'b Fp<C>) -> Fp<C> { $tr::$f(*self, *o) } }
    impl<C: FpConfig> $atr<Fp<C>> for Fp<C> { #[inline(always)] fn $af(&mut self, o: Fp<C>) { *self = $tr::$f(*self, o) } }
    impl<'a, C: FpConfig> $atr<&'a Fp<C>> for Fp<C> { #[inline(always)] fn $af(&mut self, o: &'a Fp<C>) { *self = $tr::$f(*self, *o) } }
)* } }
refops!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign, Div div DivAssign div_assign);
impl<'a, C: FpConfig> Neg for &'a Fp<C> { type Output = Fp<C>; fn neg(self) -> Fp<C> { -*self } }
impl<C: FpConfig> Sum for Fp<C> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
impl<'a, C: FpConfig> Sum<&'a Fp<C>> for Fp<C> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
impl<C: FpConfig> Product for Fp<C> { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a * b) } }
impl<'a, C: FpConfig> Product<&'a Fp<C>> for Fp<C> { fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a * b) } }
macro_rules! fromu { ($($t:ty),*) => { $( impl<C: FpConfig> From<$t> for Fp<C> { fn from(x: $t) -> Self { let x = x as u128; Self::from_limbs([x as u64, (x >> 64) as u64, 0, 0]) } } )* } }
fromu!(u8, u16, u32, u64, u128, bool);
macro_rules! fromi { ($($t:ty),*) => { $( impl<C: FpConfig> From<$t> for Fp<C> { fn from(x: $t) -> Self { let a = Self::from((x as i128).unsigned_abs()); if x < 0 { -a } else { a } } } )* } }
fromi!(i8, i16, i32, i64, i128);
impl<C: FpConfig> From<BigInt<4>> for Fp<C> { fn from(b: BigInt<4>) -> Self { Self::from_bigint(b).expect("value below the modulus") } }
impl<C: FpConfig> From<Fp<C>> for BigInt<4> { fn from(x: Fp<C>) -> Self { x.into_bigint() } }
impl<C: FpConfig> FromStr for Fp<C> {
    type Err = ();
    /// Signed decimal integers of any size (digits may be separated by `_` after the first one).
    fn from_str(s: &str) -> Result<Self, ()> {
        let (neg, body) = match s.as_bytes().first() {
            Some(b'-') => { let t = &s[1..]; if t.starts_with('+') { return Err(()); } (true, t) }
            Some(b'+') => { let t = &s[1..]; if t.starts_with('+') || t.starts_with('-') { return Err(()); } (false, t) }
            _ => (false, s),
        };
        if body.is_empty() || body.starts_with('_') { return Err(()); }
        let ten = Self::from(10u64);
        let mut r = Self::zero();
        for c in body.bytes() {
            match c { b'0'..=b'9' => r = r * ten + Self::from((c - b'0') as u64), b'_' => {}, _ => return Err(()) }
        }
        Ok(if neg { -r } else { r })
    }
}
impl<C: FpConfig> UniformRand for Fp<C> {
    fn rand<R: rand::Rng + ?Sized>(rng: &mut R) -> Self {
        loop {
            let mut v = [0u64; 4];
            for x in v.iter_mut() { *x = rng.next_u64(); }
            v[3] &= u64::MAX >> (256 - C::BITS);
            if !geq(&v, &C::MODULUS) { return Self(v, PhantomData); }
        }
    }
}
impl<C: FpConfig> rand::distributions::Distribution<Fp<C>> for rand::distributions::Standard {
    fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> Fp<C> { Fp::rand(rng) }
}
impl<C: FpConfig> Field for Fp<C> {
    const ONE: Self = Self(Self::R, PhantomData);
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() { return None; }
        Some(self.pow(sub4(&C::MODULUS, &[2, 0, 0, 0])))
    }
}
impl<C: FpConfig> FftField for Fp<C> {
    const GENERATOR: Self = Self(Self::gen_mont(), PhantomData);
    const TWO_ADICITY: u32 = C::TWO_ADICITY;
    fn get_root_of_unity(n: u64) -> Option<Self> {
        if n == 0 || !n.is_power_of_two() { return None; }
        let k = n.trailing_zeros();
        if k > C::TWO_ADICITY { return None; }
        let mut e = sub4(&C::MODULUS, &[1, 0, 0, 0]);
        for _ in 0..k { for i in 0..4 { e[i] = (e[i] >> 1) | if i < 3 { e[i + 1] << 63 } else { 0 }; } }
        Some(Self::from(C::GENERATOR).pow(e))
    }
}
impl<C: FpConfig> Fp<C> {
    const fn gen_mont() -> [u64; 4] {
        let mut acc = [0u64; 4]; let mut i = 0;
        while i < C::GENERATOR {
            let mut r = [0u64; 4]; let mut c = 0u128; let mut j = 0;
            while j < 4 { let s = acc[j] as u128 + Self::R[j] as u128 + c; r[j] = s as u64; c = s >> 64; j += 1; }
            acc = if geq(&r, &C::MODULUS) { sub4(&r, &C::MODULUS) } else { r };
            i += 1;
        }
        acc
    }
}
impl<C: FpConfig> PrimeField for Fp<C> {
    type BigInt = BigInt<4>;
    const MODULUS: BigInt<4> = BigInt(C::MODULUS);
    const MODULUS_BIT_SIZE: u32 = C::BITS;
    fn from_bigint(b: BigInt<4>) -> Option<Self> { if geq(&b.0, &C::MODULUS) { None } else { Some(Self::from_limbs(b.0)) } }
    fn into_bigint(self) -> BigInt<4> { BigInt(self.to_limbs()) }
}
impl<C: FpConfig> Valid for Fp<C> { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
impl<C: FpConfig> CanonicalSerialize for Fp<C> {
    fn serialize_with_mode<W: Write>(&self, mut w: W, _c: Compress) -> Result<(), SerializationError> {
        for l in self.to_limbs() { w.write_all(&l.to_le_bytes())?; }
        Ok(())
    }
    fn serialized_size(&self, _c: Compress) -> usize { 32 }
}
impl<C: FpConfig> CanonicalDeserialize for Fp<C> {
    fn deserialize_with_mode<R: Read>(mut r: R, _c: Compress, _v: Validate) -> Result<Self, SerializationError> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        let mut l = [0u64; 4];
        for i in 0..4 { l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); }
        Self::from_bigint(BigInt(l)).ok_or(SerializationError::InvalidData)
    }
}
pub mod prelude_ { pub use super::*; }
