//! Circuits as programs over the constraint system of the stand-in.
use crate::circ::*;
use ark_bn254::Fr;
use ark_ff::PrimeField;
use ark_relations::gr1cs::{ConstraintSynthesizer, ConstraintSystemRef, LinearCombination, SynthesisError, Variable, R1CS_PREDICATE_LABEL};
use hcommon::field::F;
use hcommon::*;
use proptest::prelude::*;

pub fn to_f(x: &Fr) -> F { let b: Vec<u8> = x.into_bigint().0.iter().flat_map(|l| l.to_le_bytes()).collect(); F::from_le(&b) }
pub fn to_fr(x: &F) -> Fr { Fr::from_le_bytes_mod_order(&x.le32()) }
pub fn order() -> BoxedStrategy<Order> { prop_oneof![Just(Order::PublicFirst), any::<u64>().prop_map(Order::Mixed)].boxed() }

/// A circuit as a program over the constraint system: which order things are allocated and enforced in.
#[derive(Clone)]
pub struct Syn { pub inst: Vec<Option<Fr>>, pub wit: Vec<Option<Fr>>, pub rows: Vec<[Vec<(u32, Fr)>; 3]>, pub order: Order }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Order { PublicFirst, Mixed(u64) }
impl Syn {
    pub fn of(rows: &[Row], n_pub: usize, at: &[F]) -> Syn {
        Syn { inst: at[1..=n_pub].iter().map(|x| Some(to_fr(x))).collect(), wit: at[n_pub + 1..].iter().map(|x| Some(to_fr(x))).collect(), rows: rows.iter().map(|r| r.clone().map(|l| l.into_iter().map(|(w, c)| (w, to_fr(&c))).collect())).collect(), order: Order::PublicFirst }
    }
    pub fn public_only(mut self) -> Syn { for w in self.wit.iter_mut() { *w = None } self }
    pub fn ordered(mut self, o: &Order) -> Syn { self.order = o.clone(); self }
}
pub fn enforce(cs: &ConstraintSystemRef<Fr>, row: &[Vec<(u32, Fr)>; 3], vars: &[Option<Variable>]) -> Result<(), SynthesisError> {
    let lcs: Vec<Box<dyn FnOnce() -> LinearCombination<Fr>>> = row.iter().map(|l| {
        let mut lc = LinearCombination::zero();
        for (w, c) in l { lc = lc + (*c, vars[*w as usize].unwrap()); }
        Box::new(move || lc) as Box<dyn FnOnce() -> LinearCombination<Fr>>
    }).collect();
    cs.enforce_constraint(R1CS_PREDICATE_LABEL, lcs)
}
impl ConstraintSynthesizer<Fr> for Syn {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
        let n = self.inst.len();
        let mut vars = vec![None; 1 + n + self.wit.len()];
        vars[0] = Some(Variable::One);
        // allocation sequence: false = next instance, true = next witness
        let mut seq: Vec<bool> = vec![false; n]; seq.extend(vec![true; self.wit.len()]);
        let mixed = matches!(self.order, Order::Mixed(_));
        if let Order::Mixed(s) = &self.order { Rng(*s).shuffle(&mut seq); }
        let (mut i, mut w) = (0, 0);
        let mut pending: Vec<&[Vec<(u32, Fr)>; 3]> = self.rows.iter().collect();
        for s in seq {
            if s { let v = self.wit[w]; let x = cs.new_witness_variable(|| v.ok_or(SynthesisError::AssignmentMissing))?; vars[1 + n + w] = Some(x); w += 1; }
            else { let v = self.inst[i]; let x = cs.new_input_variable(|| v.ok_or(SynthesisError::AssignmentMissing))?; vars[1 + i] = Some(x); i += 1; }
            // constraints keep their order, each as early as its variables allow
            while mixed && !pending.is_empty() && pending[0].iter().flatten().all(|(w, _)| vars[*w as usize].is_some()) { enforce(&cs, pending.remove(0), &vars)?; }
        }
        for r in pending { enforce(&cs, r, &vars)?; }
        Ok(())
    }
}
