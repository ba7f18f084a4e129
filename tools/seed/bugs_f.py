# A sixth batch: the core library without the standard library.
CLI = "packages/zkenc-cli/src/"; CORE = "packages/zkenc-core/src/"; JS = "packages/zkenc-js/src/"
CIRCUIT = '''
use ark_bn254::{Bn254, Fr}; use ark_ff::*; use ark_relations::gr1cs::*; use ark_std::rand::{RngCore, Error as RE};
#[derive(Clone)]
struct C(u64, u64);
impl ConstraintSynthesizer<Fr> for C {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> core::result::Result<(), SynthesisError> {
        let c = cs.new_input_variable(|| Ok(Fr::from(self.0)))?; let a = cs.new_witness_variable(|| Ok(Fr::from(self.1)))?;
        let f: Vec<Box<dyn FnOnce() -> LinearCombination<Fr>>> = vec![
            Box::new(move || LinearCombination::<Fr>::zero() + (Fr::from(1u64), a)), Box::new(move || LinearCombination::<Fr>::zero() + (Fr::from(1u64), a)), Box::new(move || LinearCombination::<Fr>::zero() + (Fr::from(1u64), c))];
        cs.enforce_constraint(R1CS_PREDICATE_LABEL, f)?;
        Ok(())
    }
}
struct Words(u64);
impl RngCore for Words {
    fn next_u64(&mut self) -> u64 { self.0 += 1; let mut z = self.0.wrapping_mul(0x9e3779b97f4a7c15); z = (z ^ z >> 30).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ z >> 27).wrapping_mul(0x94d049bb133111eb); z ^ z >> 31 }
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let b = self.next_u64().to_le_bytes(); c.copy_from_slice(&b[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> core::result::Result<(), RE> { self.fill_bytes(d); Ok(()) }
}
'''
BOTH = '''
fn main() {
    let (f, fk) = zkenc_core::encap::<Bn254, _, _>(C(9, 3), &mut Words(1)).ok().unwrap(); let (g, gk) = zkenc_core_nostd::encap::<Bn254, _, _>(C(9, 3), &mut Words(1)).ok().unwrap();
    check(fk.0 == gk.0, "the keys differ");
    for (p, w) in [(9, 3), (9, 4), (16, 4), (25, 5)] {
        let (a, b) = (zkenc_core::decap::<Bn254, _>(C(p, w), &f), zkenc_core_nostd::decap::<Bn254, _>(C(p, w), &g));
        check(a.map(|k| k.0).map_err(|e| format!("{e:?}")) == b.map(|k| k.0).map_err(|e| format!("{e:?}")), "decapsulation differs without the standard library");
    }
    for l in [vec![], vec![9u64], vec![8], vec![9, 0], vec![9, 9]] {
        let l: Vec<Fr> = l.into_iter().map(Fr::from).collect();
        check(zkenc_core::verify_ciphertext(&f, &l) == zkenc_core_nostd::verify_ciphertext(&g, &l), "verification differs without the standard library");
    }
}
'''
BUGS = [
dict(id="core-bare-mismatch", prop="P41", kit="nostd",
  needs="the core library built without the standard library, a witness of the same circuit for other public inputs",
  breaks="the refusal moves into the block that only exists with the standard library, so the other build goes on with a wrong key",
  edits=[(CORE+"algorithm.rs", '''            // Skip index 0 (constant 1)
            #[cfg(feature = "std")]
            eprintln!("  ✗ Public input mismatch at index {}", i);
            return Err(Error::InvalidPublicInputs);
''', '''            // Skip index 0 (constant 1)
            #[cfg(feature = "std")]
            {
                eprintln!("  ✗ Public input mismatch at index {} of {}", i, ciphertext.public_inputs.len());
                return Err(Error::InvalidPublicInputs);
            }
''')], demo=CIRCUIT+BOTH),
dict(id="core-bare-unsatisfied", prop="P41", kit="nostd",
  needs="the core library built without the standard library, an assignment that breaks a constraint",
  breaks="the check of the constraints is compiled only together with its message",
  edits=[(CORE+"algorithm.rs", '''    // Verify constraint system is satisfied
    if !cs.is_satisfied().unwrap_or(false) {
        #[cfg(feature = "std")]
        eprintln!(''', '''    // Verify constraint system is satisfied
    #[cfg(feature = "std")]
    if !cs.is_satisfied().unwrap_or(false) {
        eprintln!(''')], demo=CIRCUIT+BOTH),
dict(id="core-bare-length", prop="P41", kit="nostd",
  needs="the core library built without the standard library, verification against a longer or shorter list that agrees where both have values",
  breaks="the comparison of the lengths is left out together with its message",
  edits=[(CORE+"algorithm.rs", '''    if ciphertext.public_inputs.len() != expected_public_inputs.len() {
        #[cfg(feature = "std")]
        eprintln!(''', '''    #[cfg(feature = "std")]
    if ciphertext.public_inputs.len() != expected_public_inputs.len() {
        eprintln!(''')], demo=CIRCUIT+BOTH),
dict(id="core-bare-map", prop="P41", kit="nostd",
  needs="building the core library without the standard library",
  breaks="the name of a module that only exists with the standard library makes the other build fail",
  edits=[(CORE+"algorithm.rs", '''    // Combine public inputs and witness into full assignment
    let mut full_assignment = full_assignment_slice.to_vec();
    full_assignment.extend_from_slice(witness_assignment);
''', '''    // Combine public inputs and witness into full assignment
    let full_assignment = std::iter::empty()
        .chain(full_assignment_slice)
        .chain(witness_assignment)
        .copied()
        .collect::<Vec<E::ScalarField>>();
''')], demo=CIRCUIT+BOTH),
dict(id="cli-empty-target", prop="P42", kit="full",
  needs="a witness that only breaks constraints whose product has to be zero (in the shipped sudoku circuit: that a grid agrees with its puzzle)",
  breaks="constraints without a right-hand side are taken for unused ones and left out",
  edits=[(CLI+"circuit.rs", "        for constraint in self.r1cs.constraints.iter() {\n            // Clone data", "        // Constraints without a target only come from removed signals\n        for constraint in self.r1cs.constraints.iter().filter(|c| !c.c.factors.is_empty()) {\n            // Clone data")],
  demo='''
fn main() {
    setup();
    // a * (a - b) = 0, and c = b
    let q: Vec<u8> = { let mut v = prime(); v[0] -= 1; v };
    put("c.r1cs", r1cs(4, 1, 1, &[[lc(&[(2, 1)]), vec![(2, le(1)), (3, q)], vec![]], [lc(&[(3, 1)]), lc(&[(0, 1)]), lc(&[(1, 1)])]]));
    put("in.json", r#"{"c":7,"a":7}"#); put("w.wtns", wtns(&[le(1), le(7), le(7), le(7)]));
    check(encap("x").0 == Some(0), "encap"); let r = decap("x"); check(r.0 == Some(0) && get("x.key") == get("x.key2"), &r.1);
    put("in.json", r#"{"c":7,"a":3}"#); put("w.wtns", wtns(&[le(1), le(7), le(3), le(7)]));
    check(encap("y").0 == Some(0), "encap"); check(decap("y").0 != Some(0), "3 * (3 - 7) = 0 was believed");
}
'''),
dict(id="js-term-limit", prop="P42", kit="full",
  needs="a circuit with more than 512 terms in one linear combination (hash functions compile to such sums)",
  breaks="a guard against damaged counts is tighter than real circuits",
  edits=[(JS+"lib.rs", "    let mut factors = Vec::new();\n    for _ in 0..n_factors {", "    // A damaged count must not make us allocate without bound\n    if n_factors > 512 {\n        return Err(\"Linear combination too long\".to_string());\n    }\n    let mut factors = Vec::with_capacity(n_factors as usize);\n    for _ in 0..n_factors {")],
  demo='''
fn main() {
    setup();
    for n in [1u64, 512, 513, 1000] {
        let f = r1cs(4, 1, 1, &[[(0..n).map(|_| (2u32, le(1))).collect(), lc(&[(3, 1)]), lc(&[(1, 1)])]]);
        let w = wtns(&[le(1), le(15 * n), le(3), le(5)]);
        check(zkenc_js::wasm_encap(&f, &w).is_ok(), "a long sum is refused");
    }
}
'''),
]
