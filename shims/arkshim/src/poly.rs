//! Radix-2 evaluation domains.
use crate::ff::*;

pub trait EvaluationDomain<F: FftField>: Copy + Clone + std::fmt::Debug + Sized {
    fn new(num_coeffs: usize) -> Option<Self>;
    fn compute_size_of_domain(num_coeffs: usize) -> Option<usize>;
    fn size(&self) -> usize;
    fn group_gen(&self) -> F;
    fn size_as_field_element(&self) -> F { F::from(self.size() as u64) }
    fn element(&self, i: usize) -> F { self.group_gen().pow([i as u64]) }
    fn elements(&self) -> std::vec::IntoIter<F> {
        let mut v = Vec::with_capacity(self.size()); let mut x = F::one();
        for _ in 0..self.size() { v.push(x); x = x * self.group_gen(); }
        v.into_iter()
    }
    fn evaluate_vanishing_polynomial(&self, tau: F) -> F { tau.pow([self.size() as u64]) - F::one() }
    fn evaluate_all_lagrange_coefficients(&self, tau: F) -> Vec<F> {
        let n = self.size();
        let els: Vec<F> = self.elements().collect();
        let z = self.evaluate_vanishing_polynomial(tau);
        if z.is_zero() { return els.iter().map(|e| if *e == tau { F::one() } else { F::zero() }).collect(); }
        let n_inv = F::from(n as u64).inverse().unwrap();
        els.iter().map(|e| z * n_inv * *e * (tau - *e).inverse().unwrap()).collect()
    }
    fn fft(&self, coeffs: &[F]) -> Vec<F> {
        self.elements().map(|x| { let mut r = F::zero(); for c in coeffs.iter().rev() { r = r * x + *c; } r }).collect()
    }
    fn ifft(&self, evals: &[F]) -> Vec<F> {
        let n = self.size(); let gi = self.group_gen().inverse().unwrap(); let ni = F::from(n as u64).inverse().unwrap();
        (0..n).map(|i| { let x = gi.pow([i as u64]); let mut r = F::zero(); for c in evals.iter().rev() { r = r * x + *c; } r * ni }).collect()
    }
    fn fft_in_place(&self, v: &mut Vec<F>) { *v = self.fft(v); }
    fn ifft_in_place(&self, v: &mut Vec<F>) { v.resize(self.size(), F::zero()); *v = self.ifft(v); }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Radix2EvaluationDomain<F: FftField> { n: u64, gen: F }
pub type GeneralEvaluationDomain<F> = Radix2EvaluationDomain<F>;
impl<F: FftField> EvaluationDomain<F> for Radix2EvaluationDomain<F> {
    fn new(num: usize) -> Option<Self> {
        let n = num.checked_next_power_of_two()? as u64;
        Some(Self { n, gen: F::get_root_of_unity(n)? })
    }
    fn compute_size_of_domain(num: usize) -> Option<usize> { Self::new(num).map(|d| d.n as usize) }
    fn size(&self) -> usize { self.n as usize }
    fn group_gen(&self) -> F { self.gen }
}
