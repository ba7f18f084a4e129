//! A transparent pairing engine: group elements are their own discrete logarithms in the BN254
//! scalar field, so that every published element can be compared with the value it must encode.
use ark_bn254::Fr;
use ark_ec::pairing::{Pairing, TargetGroup};
use ark_ec::{AffineRepr, CurveGroup, PrimeGroup, VariableBaseMSM};
use ark_ff::*;
use ark_serialize::*;
use std::fmt::{Debug, Display, Formatter};
use std::iter::Sum;
use std::ops::*;

macro_rules! group { ($g:ident, $a:ident) => {
    #[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)] pub struct $g(pub Fr);
    #[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)] pub struct $a(pub Fr);
    group!(@both $g); group!(@both $a);
    impl From<$a> for $g { fn from(x: $a) -> Self { $g(x.0) } }
    impl From<$g> for $a { fn from(x: $g) -> Self { $a(x.0) } }
    impl From<&$g> for $a { fn from(x: &$g) -> Self { $a(x.0) } }
    impl From<&$a> for $a { fn from(x: &$a) -> Self { *x } }
    impl Add for $g { type Output = $g; fn add(self, o: $g) -> $g { $g(self.0 + o.0) } }
    impl Sub for $g { type Output = $g; fn sub(self, o: $g) -> $g { $g(self.0 - o.0) } }
    impl<'a> Add<&'a $g> for $g { type Output = $g; fn add(self, o: &$g) -> $g { $g(self.0 + o.0) } }
    impl<'a> Sub<&'a $g> for $g { type Output = $g; fn sub(self, o: &$g) -> $g { $g(self.0 - o.0) } }
    impl AddAssign for $g { fn add_assign(&mut self, o: $g) { self.0 += o.0 } }
    impl SubAssign for $g { fn sub_assign(&mut self, o: $g) { self.0 -= o.0 } }
    impl<'a> AddAssign<&'a $g> for $g { fn add_assign(&mut self, o: &$g) { self.0 += o.0 } }
    impl<'a> SubAssign<&'a $g> for $g { fn sub_assign(&mut self, o: &$g) { self.0 -= o.0 } }
    impl Add<$a> for $g { type Output = $g; fn add(self, o: $a) -> $g { $g(self.0 + o.0) } }
    impl Sub<$a> for $g { type Output = $g; fn sub(self, o: $a) -> $g { $g(self.0 - o.0) } }
    impl AddAssign<$a> for $g { fn add_assign(&mut self, o: $a) { self.0 += o.0 } }
    impl Mul<Fr> for $g { type Output = $g; fn mul(self, o: Fr) -> $g { $g(self.0 * o) } }
    impl<'a> Mul<&'a Fr> for $g { type Output = $g; fn mul(self, o: &Fr) -> $g { $g(self.0 * *o) } }
    impl MulAssign<Fr> for $g { fn mul_assign(&mut self, o: Fr) { self.0 *= o } }
    impl Sum for $g { fn sum<I: Iterator<Item = $g>>(i: I) -> $g { i.fold($g::default(), |a, b| a + b) } }
    impl<'a> Sum<&'a $g> for $g { fn sum<I: Iterator<Item = &'a $g>>(i: I) -> $g { i.fold($g::default(), |a, b| a + *b) } }
    impl Zero for $g { fn zero() -> Self { $g::default() } fn is_zero(&self) -> bool { self.0.is_zero() } }
    impl AdditiveGroup for $g { type Scalar = Fr; const ZERO: Self = $g(<Fr as AdditiveGroup>::ZERO); }
    impl PrimeGroup for $g { type ScalarField = Fr; fn generator() -> Self { $g(Fr::one()) } }
    impl VariableBaseMSM for $g { type MulBase = $a; }
    impl CurveGroup for $g { type Affine = $a; }
    impl Add for $a { type Output = $g; fn add(self, o: $a) -> $g { $g(self.0 + o.0) } }
    impl Sub for $a { type Output = $g; fn sub(self, o: $a) -> $g { $g(self.0 - o.0) } }
    impl Mul<Fr> for $a { type Output = $g; fn mul(self, o: Fr) -> $g { $g(self.0 * o) } }
    impl AffineRepr for $a { type ScalarField = Fr; type Group = $g; fn generator() -> Self { $a(Fr::one()) } fn zero() -> Self { $a::default() } fn is_zero(&self) -> bool { self.0.is_zero() } }
};
(@both $t:ident) => {
    impl Debug for $t { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { write!(f, "[{}]", self.0) } }
    impl Display for $t { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { write!(f, "[{}]", self.0) } }
    impl Neg for $t { type Output = $t; fn neg(self) -> $t { $t(-self.0) } }
    impl UniformRand for $t { fn rand<R: rand::Rng + ?Sized>(r: &mut R) -> Self { $t(Fr::rand(r)) } }
    impl Valid for $t { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
    impl CanonicalSerialize for $t { fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { self.0.serialize_with_mode(w, c) } fn serialized_size(&self, c: Compress) -> usize { self.0.serialized_size(c) } }
    impl CanonicalDeserialize for $t { fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> { Ok($t(Fr::deserialize_with_mode(r, c, v)?)) } }
};
}
group!(G1, A1);
group!(G2, A2);
#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)] pub struct Gt(pub Fr);
group!(@both Gt);
impl Mul for Gt { type Output = Gt; fn mul(self, o: Gt) -> Gt { Gt(self.0 + o.0) } }
impl One for Gt { fn one() -> Gt { Gt::default() } }
impl TargetGroup for Gt {
    const IDENTITY: Gt = Gt(<Fr as AdditiveGroup>::ZERO);
    fn group_inverse(&self) -> Gt { Gt(-self.0) }
    fn group_pow(&self, e: &[u64]) -> Gt { let mut v = [0u64; 4]; v[..e.len().min(4)].copy_from_slice(&e[..e.len().min(4)]); Gt(self.0 * Fr::from_limbs(v)) }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)] pub struct Toy;
impl Pairing for Toy {
    type ScalarField = Fr;
    type G1 = G1; type G1Affine = A1; type G1Prepared = A1;
    type G2 = G2; type G2Affine = A2; type G2Prepared = A2;
    type TargetField = Gt;
    fn pairing_one(p: A1, q: A2) -> Gt { Gt(p.0 * q.0) }
}
