//! Generalised R1CS constraint systems (R1CS predicate only).
use crate::ff::*;
use std::cell::{Ref, RefCell, RefMut};
use std::collections::BTreeMap;
use std::ops::*;
use std::rc::Rc;

pub const R1CS_PREDICATE_LABEL: &str = "R1CS";
pub type Label = String;
pub type Matrix<F> = Vec<Vec<(F, usize)>>;
pub type Result<T> = core::result::Result<T, SynthesisError>;

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum SynthesisError {
    MissingCS,
    AssignmentMissing,
    DivisionByZero,
    Unsatisfiable,
    PolynomialDegreeTooLarge,
    UnexpectedIdentity,
    MalformedVerifyingKey,
    UnconstrainedVariable,
    PredicateNotFound,
    ArityMismatch,
}
impl std::error::Error for SynthesisError {}
impl std::fmt::Display for SynthesisError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[allow(non_upper_case_globals)]
pub enum Variable { Zero, One, Instance(usize), Witness(usize), SymbolicLc(usize) }
impl Variable {
    pub fn is_zero(&self) -> bool { *self == Variable::Zero }
    pub fn is_one(&self) -> bool { *self == Variable::One }
    pub fn is_instance(&self) -> bool { matches!(self, Variable::Instance(_)) }
    pub fn is_witness(&self) -> bool { matches!(self, Variable::Witness(_)) }
    pub fn get_variable_index(&self, offset: usize) -> Option<usize> {
        match self { Variable::One => Some(0), Variable::Instance(i) => Some(*i), Variable::Witness(i) => Some(i + offset), _ => None }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct LinearCombination<F: Field>(pub Vec<(F, Variable)>);
impl<F: Field> LinearCombination<F> {
    pub fn zero() -> Self { Self(vec![]) }
    pub fn new() -> Self { Self::zero() }
    pub fn iter(&self) -> std::slice::Iter<'_, (F, Variable)> { self.0.iter() }
    fn put(&mut self, c: F, v: Variable) {
        match self.0.binary_search_by_key(&v, |e| e.1) { Ok(i) => self.0[i].0 += c, Err(i) => self.0.insert(i, (c, v)) }
    }
}
impl<F: Field> Deref for LinearCombination<F> { type Target = Vec<(F, Variable)>; fn deref(&self) -> &Self::Target { &self.0 } }
impl<F: Field> From<Variable> for LinearCombination<F> { fn from(v: Variable) -> Self { if v.is_zero() { Self::zero() } else { Self(vec![(F::one(), v)]) } } }
impl<F: Field> From<(F, Variable)> for LinearCombination<F> { fn from(v: (F, Variable)) -> Self { Self(vec![v]) } }
impl<F: Field> Add<(F, Variable)> for LinearCombination<F> { type Output = Self; fn add(mut self, o: (F, Variable)) -> Self { self.put(o.0, o.1); self } }
impl<F: Field> AddAssign<(F, Variable)> for LinearCombination<F> { fn add_assign(&mut self, o: (F, Variable)) { self.put(o.0, o.1) } }
impl<F: Field> Sub<(F, Variable)> for LinearCombination<F> { type Output = Self; fn sub(mut self, o: (F, Variable)) -> Self { self.put(-o.0, o.1); self } }
impl<F: Field> SubAssign<(F, Variable)> for LinearCombination<F> { fn sub_assign(&mut self, o: (F, Variable)) { self.put(-o.0, o.1) } }
impl<F: Field> Add<Variable> for LinearCombination<F> { type Output = Self; fn add(self, o: Variable) -> Self { self + (F::one(), o) } }
impl<F: Field> Sub<Variable> for LinearCombination<F> { type Output = Self; fn sub(self, o: Variable) -> Self { self - (F::one(), o) } }
impl<F: Field> Add for LinearCombination<F> { type Output = Self; fn add(mut self, o: Self) -> Self { for (c, v) in o.0 { self.put(c, v) } self } }
impl<'a, F: Field> Add<&'a Self> for LinearCombination<F> { type Output = Self; fn add(mut self, o: &'a Self) -> Self { for (c, v) in &o.0 { self.put(*c, *v) } self } }
impl<F: Field> Sub for LinearCombination<F> { type Output = Self; fn sub(mut self, o: Self) -> Self { for (c, v) in o.0 { self.put(-c, v) } self } }
impl<F: Field> Neg for LinearCombination<F> { type Output = Self; fn neg(mut self) -> Self { for e in self.0.iter_mut() { e.0 = -e.0 } self } }
impl<F: Field> Mul<F> for LinearCombination<F> { type Output = Self; fn mul(mut self, s: F) -> Self { for e in self.0.iter_mut() { e.0 *= s } self } }
impl<F: Field> AddAssign<Variable> for LinearCombination<F> { fn add_assign(&mut self, o: Variable) { self.put(F::one(), o) } }
#[macro_export]
macro_rules! lc { () => { $crate::gr1cs::LinearCombination::zero() }; ($($x:expr),+) => { { let mut l = $crate::gr1cs::LinearCombination::zero(); $( l = l + $x; )+ l } }; }
pub use crate::lc;

pub trait ConstraintSynthesizer<F: Field> {
    fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<()>;
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum SynthesisMode { Setup, Prove { construct_matrices: bool, generate_lc_assignments: bool } }
#[derive(Copy, Clone, Debug, PartialEq, Eq, Default)]
pub enum OptimizationGoal { #[default] None, Constraints, Weight }

#[derive(Debug, Clone)]
pub struct ConstraintSystem<F: Field> {
    mode: SynthesisMode,
    goal: OptimizationGoal,
    pub num_instance_variables: usize,
    pub num_witness_variables: usize,
    instance: Vec<F>,
    witness: Vec<F>,
    constraints: Vec<[LinearCombination<F>; 3]>,
    lcs: Vec<LinearCombination<F>>,
}
impl<F: Field> Default for ConstraintSystem<F> { fn default() -> Self { Self::new() } }
impl<F: Field> ConstraintSystem<F> {
    pub fn new() -> Self {
        Self { mode: SynthesisMode::Prove { construct_matrices: true, generate_lc_assignments: true }, goal: OptimizationGoal::None,
            num_instance_variables: 1, num_witness_variables: 0, instance: vec![F::one()], witness: vec![], constraints: vec![], lcs: vec![] }
    }
    pub fn new_ref() -> ConstraintSystemRef<F> { ConstraintSystemRef::new(Self::new()) }
    pub fn is_in_setup_mode(&self) -> bool { self.mode == SynthesisMode::Setup }
    pub fn set_mode(&mut self, m: SynthesisMode) { self.mode = m }
    pub fn num_constraints(&self) -> usize { self.constraints.len() }
    pub fn num_instance_variables(&self) -> usize { self.num_instance_variables }
    pub fn num_witness_variables(&self) -> usize { self.num_witness_variables }
    pub fn num_variables(&self) -> usize { self.num_instance_variables + self.num_witness_variables }
    pub fn instance_assignment(&self) -> Result<&[F]> { if self.is_in_setup_mode() { Err(SynthesisError::AssignmentMissing) } else { Ok(&self.instance) } }
    pub fn witness_assignment(&self) -> Result<&[F]> { if self.is_in_setup_mode() { Err(SynthesisError::AssignmentMissing) } else { Ok(&self.witness) } }
    pub fn assigned_value(&self, v: Variable) -> Option<F> {
        match v {
            Variable::Zero => Some(F::zero()), Variable::One => Some(F::one()),
            Variable::Instance(i) => self.instance.get(i).copied(), Variable::Witness(i) => self.witness.get(i).copied(),
            Variable::SymbolicLc(i) => self.eval(self.lcs.get(i)?),
        }
    }
    fn eval(&self, lc: &LinearCombination<F>) -> Option<F> {
        let mut r = F::zero();
        for (c, v) in lc.iter() { r += *c * self.assigned_value(*v)?; }
        Some(r)
    }
    pub fn new_input_variable<Fn_: FnOnce() -> Result<F>>(&mut self, f: Fn_) -> Result<Variable> {
        let i = self.num_instance_variables;
        self.num_instance_variables += 1;
        if !self.is_in_setup_mode() { self.instance.push(f()?); }
        Ok(Variable::Instance(i))
    }
    pub fn new_witness_variable<Fn_: FnOnce() -> Result<F>>(&mut self, f: Fn_) -> Result<Variable> {
        let i = self.num_witness_variables;
        self.num_witness_variables += 1;
        if !self.is_in_setup_mode() { self.witness.push(f()?); }
        Ok(Variable::Witness(i))
    }
    pub fn new_lc(&mut self, f: impl FnOnce() -> LinearCombination<F>) -> Result<Variable> {
        let i = self.lcs.len(); self.lcs.push(f()); Ok(Variable::SymbolicLc(i))
    }
    fn inline(&self, lc: LinearCombination<F>) -> LinearCombination<F> {
        let mut out = LinearCombination::zero();
        for (c, v) in lc.0 {
            match v { Variable::SymbolicLc(i) => { for (c2, v2) in self.inline(self.lcs[i].clone()).0 { out.put(c * c2, v2) } } Variable::Zero => {} _ => out.put(c, v) }
        }
        out
    }
    pub fn enforce_constraint(&mut self, label: &str, lcs: impl IntoIterator<Item = Box<dyn FnOnce() -> LinearCombination<F>>>) -> Result<()> {
        if label != R1CS_PREDICATE_LABEL { return Err(SynthesisError::PredicateNotFound); }
        let v: Vec<_> = lcs.into_iter().map(|f| f()).map(|l| self.inline(l)).collect();
        let arr: [LinearCombination<F>; 3] = v.try_into().map_err(|_| SynthesisError::ArityMismatch)?;
        self.constraints.push(arr);
        Ok(())
    }
    pub fn which_is_unsatisfied(&self) -> Result<Option<String>> {
        if self.is_in_setup_mode() { return Err(SynthesisError::AssignmentMissing); }
        for (i, [a, b, c]) in self.constraints.iter().enumerate() {
            let e = |l| self.eval(l).ok_or(SynthesisError::AssignmentMissing);
            if e(a)? * e(b)? != e(c)? { return Ok(Some(format!("{} constraint {}", R1CS_PREDICATE_LABEL, i))); }
        }
        Ok(None)
    }
    pub fn is_satisfied(&self) -> Result<bool> { Ok(self.which_is_unsatisfied()?.is_none()) }
    pub fn to_matrices(&self) -> Result<BTreeMap<Label, Vec<Matrix<F>>>> {
        let mut ms: Vec<Matrix<F>> = vec![vec![], vec![], vec![]];
        for c in &self.constraints {
            for k in 0..3 {
                ms[k].push(c[k].iter().filter_map(|(f, v)| v.get_variable_index(self.num_instance_variables).map(|i| (*f, i))).collect());
            }
        }
        let mut m = BTreeMap::new();
        m.insert(R1CS_PREDICATE_LABEL.to_string(), ms);
        Ok(m)
    }
    pub fn finalize(&mut self) {}
}
#[derive(Debug, Clone)]
pub enum ConstraintSystemRef<F: Field> { None, CS(Rc<RefCell<ConstraintSystem<F>>>) }
impl<F: Field> ConstraintSystemRef<F> {
    pub fn new(cs: ConstraintSystem<F>) -> Self { Self::CS(Rc::new(RefCell::new(cs))) }
    fn inner(&self) -> Option<&Rc<RefCell<ConstraintSystem<F>>>> { match self { Self::CS(c) => Some(c), Self::None => None } }
    pub fn is_none(&self) -> bool { matches!(self, Self::None) }
    pub fn borrow(&self) -> Option<Ref<'_, ConstraintSystem<F>>> { self.inner().map(|c| c.borrow()) }
    pub fn borrow_mut(&self) -> Option<RefMut<'_, ConstraintSystem<F>>> { self.inner().map(|c| c.borrow_mut()) }
    pub fn into_inner(self) -> Option<ConstraintSystem<F>> { match self { Self::CS(c) => Rc::try_unwrap(c).ok().map(|c| c.into_inner()), Self::None => None } }
    pub fn num_constraints(&self) -> usize { self.inner().map_or(0, |c| c.borrow().num_constraints()) }
    pub fn num_instance_variables(&self) -> usize { self.inner().map_or(0, |c| c.borrow().num_instance_variables) }
    pub fn num_witness_variables(&self) -> usize { self.inner().map_or(0, |c| c.borrow().num_witness_variables) }
    pub fn num_variables(&self) -> usize { self.num_instance_variables() + self.num_witness_variables() }
    pub fn is_in_setup_mode(&self) -> bool { self.inner().map_or(false, |c| c.borrow().is_in_setup_mode()) }
    pub fn set_mode(&self, m: SynthesisMode) { if let Some(c) = self.inner() { c.borrow_mut().set_mode(m) } }
    pub fn set_optimization_goal(&self, g: OptimizationGoal) { if let Some(c) = self.inner() { c.borrow_mut().goal = g } }
    pub fn optimization_goal(&self) -> OptimizationGoal { self.inner().map_or(OptimizationGoal::None, |c| c.borrow().goal) }
    pub fn finalize(&self) {}
    pub fn assigned_value(&self, v: Variable) -> Option<F> { self.inner().and_then(|c| c.borrow().assigned_value(v)) }
    pub fn instance_assignment(&self) -> Result<Vec<F>> { Ok(self.inner().ok_or(SynthesisError::MissingCS)?.borrow().instance_assignment()?.to_vec()) }
    pub fn witness_assignment(&self) -> Result<Vec<F>> { Ok(self.inner().ok_or(SynthesisError::MissingCS)?.borrow().witness_assignment()?.to_vec()) }
    pub fn new_input_variable<Fn_: FnOnce() -> Result<F>>(&self, f: Fn_) -> Result<Variable> {
        let c = self.inner().ok_or(SynthesisError::MissingCS)?;
        if c.borrow().is_in_setup_mode() { c.borrow_mut().new_input_variable(f) } else { let v = f(); c.borrow_mut().new_input_variable(|| v) }
    }
    pub fn new_witness_variable<Fn_: FnOnce() -> Result<F>>(&self, f: Fn_) -> Result<Variable> {
        let c = self.inner().ok_or(SynthesisError::MissingCS)?;
        if c.borrow().is_in_setup_mode() { c.borrow_mut().new_witness_variable(f) } else { let v = f(); c.borrow_mut().new_witness_variable(|| v) }
    }
    pub fn new_lc(&self, f: impl FnOnce() -> LinearCombination<F>) -> Result<Variable> { self.inner().ok_or(SynthesisError::MissingCS)?.borrow_mut().new_lc(f) }
    pub fn enforce_constraint(&self, label: &str, lcs: impl IntoIterator<Item = Box<dyn FnOnce() -> LinearCombination<F>>>) -> Result<()> {
        self.inner().ok_or(SynthesisError::MissingCS)?.borrow_mut().enforce_constraint(label, lcs)
    }
    pub fn enforce_r1cs_constraint(&self, a: impl FnOnce() -> LinearCombination<F> + 'static, b: impl FnOnce() -> LinearCombination<F> + 'static, c: impl FnOnce() -> LinearCombination<F> + 'static) -> Result<()> {
        let v: Vec<Box<dyn FnOnce() -> LinearCombination<F>>> = vec![Box::new(a), Box::new(b), Box::new(c)];
        self.enforce_constraint(R1CS_PREDICATE_LABEL, v)
    }
    pub fn is_satisfied(&self) -> Result<bool> { self.inner().map_or(Err(SynthesisError::AssignmentMissing), |c| c.borrow().is_satisfied()) }
    pub fn which_is_unsatisfied(&self) -> Result<Option<String>> { self.inner().map_or(Err(SynthesisError::AssignmentMissing), |c| c.borrow().which_is_unsatisfied()) }
    pub fn to_matrices(&self) -> Result<BTreeMap<Label, Vec<Matrix<F>>>> { self.inner().ok_or(SynthesisError::MissingCS)?.borrow().to_matrices() }
}
