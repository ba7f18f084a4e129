//! Group and pairing traits.
use crate::ff::*;
use crate::serialize::*;
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::iter::Sum;
use std::ops::*;

pub trait PrimeGroup: AdditiveGroup<Scalar = <Self as PrimeGroup>::ScalarField> {
    type ScalarField: PrimeField;
    fn generator() -> Self;
    fn mul_bigint(&self, other: impl AsRef<[u64]>) -> Self {
        let mut res = Self::zero();
        for l in other.as_ref().iter().rev() {
            for i in (0..64).rev() { res = res.double(); if (l >> i) & 1 == 1 { res = res + *self; } }
        }
        res
    }
}
pub use self::PrimeGroup as Group;

pub trait VariableBaseMSM: PrimeGroup {
    type MulBase: Copy + Into<Self>;
    fn msm_unchecked(bases: &[Self::MulBase], scalars: &[<Self as PrimeGroup>::ScalarField]) -> Self {
        let mut acc = Self::zero();
        for (b, s) in bases.iter().zip(scalars) {
            let p: Self = (*b).into();
            if p.is_zero() || s.is_zero() { continue; }
            acc = acc + p * *s;
        }
        acc
    }
    fn msm(bases: &[Self::MulBase], scalars: &[<Self as PrimeGroup>::ScalarField]) -> Result<Self, usize> {
        if bases.len() == scalars.len() { Ok(Self::msm_unchecked(bases, scalars)) } else { Err(bases.len().min(scalars.len())) }
    }
    fn msm_bigint(bases: &[Self::MulBase], big: &[<<Self as PrimeGroup>::ScalarField as PrimeField>::BigInt]) -> Self {
        let s: Vec<_> = big.iter().map(|b| <Self as PrimeGroup>::ScalarField::from_bigint(*b).unwrap()).collect();
        Self::msm_unchecked(bases, &s)
    }
}
pub trait ScalarMul: PrimeGroup {
    type MulBase2: Copy;
}
pub trait CurveGroup: PrimeGroup + VariableBaseMSM<MulBase = <Self as CurveGroup>::Affine>
    + Add<<Self as CurveGroup>::Affine, Output = Self> + AddAssign<<Self as CurveGroup>::Affine>
    + Sub<<Self as CurveGroup>::Affine, Output = Self>
    + Into<<Self as CurveGroup>::Affine> + From<<Self as CurveGroup>::Affine>
{
    type Affine: AffineRepr<Group = Self, ScalarField = <Self as PrimeGroup>::ScalarField> + From<Self> + Into<Self>;
    fn into_affine(self) -> Self::Affine { self.into() }
    fn normalize_batch(v: &[Self]) -> Vec<Self::Affine> { v.iter().map(|p| (*p).into_affine()).collect() }
    fn batch_convert_to_mul_base(v: &[Self]) -> Vec<Self::Affine> { Self::normalize_batch(v) }
}
pub trait AffineRepr: Eq + 'static + Sized + Copy + Clone + Default + Send + Sync + Hash + Debug + Display + UniformRand
    + CanonicalSerialize + CanonicalDeserialize + Neg<Output = Self>
    + From<<Self as AffineRepr>::Group> + Into<<Self as AffineRepr>::Group>
    + Mul<<Self as AffineRepr>::ScalarField, Output = <Self as AffineRepr>::Group>
    + Add<Self, Output = <Self as AffineRepr>::Group> + Sub<Self, Output = <Self as AffineRepr>::Group>
{
    type ScalarField: PrimeField;
    type Group: CurveGroup<Affine = Self, ScalarField = Self::ScalarField> + From<Self> + Into<Self>;
    fn generator() -> Self;
    fn zero() -> Self;
    fn is_zero(&self) -> bool;
    fn into_group(self) -> Self::Group { self.into() }
    fn mul_bigint(&self, by: impl AsRef<[u64]>) -> Self::Group { PrimeGroup::mul_bigint(&self.into_group(), by) }
}

pub mod pairing {
    use super::*;
    use std::borrow::Borrow;

    pub trait Pairing: Sized + 'static + Copy + Debug + Sync + Send + Eq {
        type ScalarField: PrimeField;
        type G1: CurveGroup<ScalarField = Self::ScalarField, Affine = Self::G1Affine> + VariableBaseMSM + From<Self::G1Affine> + Into<Self::G1Affine>
            + MulAssign<Self::ScalarField>;
        type G1Affine: AffineRepr<Group = Self::G1, ScalarField = Self::ScalarField> + From<Self::G1> + Into<Self::G1> + Into<Self::G1Prepared>;
        type G1Prepared: Default + Clone + Send + Sync + Debug + for<'a> From<&'a Self::G1> + for<'a> From<&'a Self::G1Affine> + From<Self::G1> + From<Self::G1Affine>;
        type G2: CurveGroup<ScalarField = Self::ScalarField, Affine = Self::G2Affine> + VariableBaseMSM + From<Self::G2Affine> + Into<Self::G2Affine>
            + MulAssign<Self::ScalarField>;
        type G2Affine: AffineRepr<Group = Self::G2, ScalarField = Self::ScalarField> + From<Self::G2> + Into<Self::G2> + Into<Self::G2Prepared>;
        type G2Prepared: Default + Clone + Send + Sync + Debug + for<'a> From<&'a Self::G2> + for<'a> From<&'a Self::G2Affine> + From<Self::G2> + From<Self::G2Affine>;
        /// Target group elements; written multiplicatively inside, additively through `PairingOutput`.
        type TargetField: Copy + Clone + Debug + Display + Eq + Hash + Ord + Default + Send + Sync + 'static + CanonicalSerialize + CanonicalDeserialize
            + One + Mul<Output = Self::TargetField> + TargetGroup;

        fn pairing_one(p: Self::G1Prepared, q: Self::G2Prepared) -> Self::TargetField;

        fn multi_pairing(a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>, b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>) -> PairingOutput<Self> {
            let mut acc = Self::TargetField::one();
            for (x, y) in a.into_iter().zip(b) { acc = acc * Self::pairing_one(x.into(), y.into()); }
            PairingOutput(acc)
        }
        fn pairing(p: impl Into<Self::G1Prepared>, q: impl Into<Self::G2Prepared>) -> PairingOutput<Self> {
            PairingOutput(Self::pairing_one(p.into(), q.into()))
        }
    }
    pub trait TargetGroup: Sized { const IDENTITY: Self; fn group_inverse(&self) -> Self; fn group_pow(&self, e: &[u64]) -> Self; }

    #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub struct PairingOutput<P: Pairing>(pub P::TargetField);
    impl<P: Pairing> Hash for PairingOutput<P> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
    impl<P: Pairing> Debug for PairingOutput<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Debug::fmt(&self.0, f) } }
    impl<P: Pairing> Display for PairingOutput<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Display::fmt(&self.0, f) } }
    impl<P: Pairing> Default for PairingOutput<P> { fn default() -> Self { Self(P::TargetField::one()) } }
    impl<P: Pairing> Valid for PairingOutput<P> { fn check(&self) -> Result<(), SerializationError> { self.0.check() } }
    impl<P: Pairing> CanonicalSerialize for PairingOutput<P> {
        fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { self.0.serialize_with_mode(w, c) }
        fn serialized_size(&self, c: Compress) -> usize { self.0.serialized_size(c) }
    }
    impl<P: Pairing> CanonicalDeserialize for PairingOutput<P> {
        fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> { Ok(Self(P::TargetField::deserialize_with_mode(r, c, v)?)) }
    }
    impl<P: Pairing> Zero for PairingOutput<P> { fn zero() -> Self { Self::default() } fn is_zero(&self) -> bool { self.0 == P::TargetField::one() } }
    impl<P: Pairing> Neg for PairingOutput<P> { type Output = Self; fn neg(self) -> Self { Self(self.0.group_inverse()) } }
    impl<P: Pairing> Add for PairingOutput<P> { type Output = Self; fn add(self, o: Self) -> Self { Self(self.0 * o.0) } }
    impl<P: Pairing> Sub for PairingOutput<P> { type Output = Self; fn sub(self, o: Self) -> Self { Self(self.0 * o.0.group_inverse()) } }
    impl<'a, P: Pairing> Add<&'a Self> for PairingOutput<P> { type Output = Self; fn add(self, o: &'a Self) -> Self { self + *o } }
    impl<'a, P: Pairing> Sub<&'a Self> for PairingOutput<P> { type Output = Self; fn sub(self, o: &'a Self) -> Self { self - *o } }
    impl<P: Pairing> AddAssign for PairingOutput<P> { fn add_assign(&mut self, o: Self) { *self = *self + o } }
    impl<P: Pairing> SubAssign for PairingOutput<P> { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
    impl<'a, P: Pairing> AddAssign<&'a Self> for PairingOutput<P> { fn add_assign(&mut self, o: &'a Self) { *self = *self + *o } }
    impl<'a, P: Pairing> SubAssign<&'a Self> for PairingOutput<P> { fn sub_assign(&mut self, o: &'a Self) { *self = *self - *o } }
    impl<P: Pairing, T: Borrow<P::ScalarField>> Mul<T> for PairingOutput<P> {
        type Output = Self;
        fn mul(self, s: T) -> Self { Self(self.0.group_pow(s.borrow().into_bigint().as_ref())) }
    }
    impl<P: Pairing, T: Borrow<P::ScalarField>> MulAssign<T> for PairingOutput<P> { fn mul_assign(&mut self, s: T) { *self = *self * s } }
    impl<P: Pairing> Sum for PairingOutput<P> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::default(), |a, b| a + b) } }
    impl<'a, P: Pairing> Sum<&'a Self> for PairingOutput<P> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::default(), |a, b| a + *b) } }
    impl<P: Pairing> UniformRand for PairingOutput<P> {
        fn rand<R: rand::Rng + ?Sized>(rng: &mut R) -> Self { P::pairing(P::G1::generator(), P::G2::generator()) * P::ScalarField::rand(rng) }
    }
    impl<P: Pairing> AdditiveGroup for PairingOutput<P> { type Scalar = P::ScalarField; const ZERO: Self = Self(<P::TargetField as TargetGroup>::IDENTITY); }
    impl<P: Pairing> PrimeGroup for PairingOutput<P> {
        type ScalarField = P::ScalarField;
        fn generator() -> Self { P::pairing(P::G1::generator(), P::G2::generator()) }
    }
}
