# Planted bugs in the core, the command-line tool and the native layer of the JavaScript package.
CLI = "packages/zkenc-cli/src/"; CORE = "packages/zkenc-core/src/"; JS = "packages/zkenc-js/src/"
BUGS = [
dict(id="core-skip-zero", prop="P02", kit="full",
  needs="a ciphertext one of whose public inputs is zero, and an assignment satisfying the circuit that disagrees at that input",
  breaks="public inputs equal to zero are taken for unset and not compared: an assignment for other public inputs opens the ciphertext",
  edits=[(CORE+"algorithm.rs", '''        if &full_assignment[i + 1] != expected {
            // Skip index 0 (constant 1)''', '''        // An input that was left open at encapsulation matches any value
        if !expected.is_zero() && &full_assignment[i + 1] != expected {
            // Skip index 0 (constant 1)'''),
    (CORE+"algorithm.rs", "use ark_ff::{Field, One, UniformRand};", "use ark_ff::{Field, One, UniformRand, Zero};")],
  demo='''
fn main() {
    setup();
    put("in.json", r#"{"c":0,"a":3}"#);
    check(encrypt("x").0 == Some(0), "encrypt");
    let r = decrypt("x");
    check(r.0 != Some(0), "opened by an assignment with another public output");
    put("w.wtns", wtns(&[le(1), le(0), le(3), le(0)]));
    check(decrypt("x").0 == Some(0) && get("x.out") == b"hello", "the right assignment");
}
'''),
dict(id="cli-clock-rng", prop="P04", kit="full",
  needs="two encryptions within the same second",
  breaks="the random source of encrypt is seeded from the clock in seconds: encryptions made within one second share their key and every random element",
  edits=[(CLI+"commands.rs", '''    // Setup RNG
    let mut rng = ark_std::rand::rngs::OsRng;

    // Call zkenc-core encap
    let (ciphertext, key) = encap::<Bn254, _, _>(circuit, &mut rng)
        .map_err(|e| anyhow::anyhow!("Encap failed: {:?}", e))?;

    // Serialize witness ciphertext''', '''    // Setup RNG
    let now = std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .context("Clock is set before 1970")?;
    let mut rng = <ark_std::rand::rngs::StdRng as ark_std::rand::SeedableRng>::seed_from_u64(
        now.as_secs(),
    );

    // Call zkenc-core encap
    let (ciphertext, key) = encap::<Bn254, _, _>(circuit, &mut rng)
        .map_err(|e| anyhow::anyhow!("Encap failed: {:?}", e))?;

    // Serialize witness ciphertext''')],
  demo='''
fn main() {
    setup();
    let mut seen = std::collections::HashSet::new();
    for i in 0..12 {
        let t = format!("x{i}");
        check(encrypt(&t).0 == Some(0), "encrypt");
        check(seen.insert(get(&format!("{t}.box"))[5..69].to_vec()), "two encryptions share their random elements");
    }
}
'''),
dict(id="core-verify-prefix", prop="P06", kit="full",
  needs="checking a ciphertext against an expected list that continues the recorded one",
  breaks="verification accepts a list of expected public inputs that is longer than the ciphertext's",
  edits=[(CORE+"algorithm.rs", "    if ciphertext.public_inputs.len() != expected_public_inputs.len() {", "    if ciphertext.public_inputs.len() > expected_public_inputs.len() {")],
  demo='''
use ark_bn254::{Bn254, Fr}; use ark_serialize::CanonicalDeserialize; use zkenc_core::{verify_ciphertext, Ciphertext};
fn main() {
    setup();
    check(encap("x").0 == Some(0), "encap");
    let ct = Ciphertext::<Bn254>::deserialize_compressed(&get("x.ct")[..]).unwrap();
    let f = |v: &[u64]| verify_ciphertext(&ct, &v.iter().map(|&x| Fr::from(x)).collect::<Vec<_>>());
    check(f(&[15, 3]), "the right list");
    check(!f(&[15]) && !f(&[15, 4]) && !f(&[3, 15]), "another list");
    check(!f(&[15, 3, 0]) && !f(&[15, 3, 5]), "a longer list was accepted");
}
'''),
dict(id="core-qap-last", prop="P07", kit="full",
  needs="a fully assigned constraint system in which one variable occurs in the right-hand side of two constraints",
  breaks="only the last constraint of a variable counts in the third polynomial",
  edits=[(CORE+"r1cs_to_qap.rs", '''                w_evals[index] += lagrange_j * coeff;''', '''                w_evals[index] = lagrange_j * coeff;''')],
  demo='''
use ark_bn254::{Bn254, Fr}; use ark_ec::*; use ark_ff::*; use ark_relations::gr1cs::*; use ark_poly::*; use zkenc_core::*;
use rand::SeedableRng;
struct C;
impl ConstraintSynthesizer<Fr> for C {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> core::result::Result<(), SynthesisError> {
        let c = cs.new_input_variable(|| Ok(Fr::from(6u64)))?;
        let one = Variable::One;
        for k in [2u64, 3] {
            let a = cs.new_witness_variable(|| Ok(Fr::from(6 / k)))?;
            let f: Vec<Box<dyn FnOnce() -> LinearCombination<Fr>>> = vec![
                Box::new(move || LinearCombination::<Fr>::zero() + (Fr::from(k), a)), Box::new(move || LinearCombination::<Fr>::zero() + (Fr::from(1u64), one)), Box::new(move || LinearCombination::<Fr>::zero() + (Fr::from(1u64), c))];
            cs.enforce_constraint(R1CS_PREDICATE_LABEL, f)?;
        }
        Ok(())
    }
}
fn main() {
    use ark_std::UniformRand;
    let mut rng = rand::rngs::StdRng::seed_from_u64(7);
    let (ct, _) = zkenc_core::encap::<Bn254, _, _>(C, &mut rng).ok().unwrap();
    let mut rng = rand::rngs::StdRng::seed_from_u64(7);
    let mut n = || Fr::rand(&mut rng);
    let (_a, _b, delta, r, x) = (n(), n(), n(), n(), n());
    let l = GeneralEvaluationDomain::<Fr>::new(4).unwrap().evaluate_all_lagrange_coefficients(x);
    let want = r * r * (l[0] + l[1]) * delta.inverse().unwrap();
    check(ct.encap_key.phi_delta_query_g1[1] == (<Bn254 as pairing::Pairing>::G1::generator() * want).into_affine(), "the element of the public input");
}
'''),
dict(id="cli-lc-collect", prop="P09", kit="full",
  needs="a circuit file in which a wire occurs twice in the right factor of a constraint",
  breaks="of several terms for one wire only the last is kept: valid witnesses are refused",
  edits=[(CLI+"circuit.rs", '''            let b_closure = move || {
                let mut lc = LinearCombination::<Fr>::zero();
                for (wire_id, coeff_bytes) in &b_factors {''', '''            let b_closure = move || {
                let mut lc = LinearCombination::<Fr>::zero();
                for (wire_id, coeff_bytes) in &b_factors.into_iter().collect::<HashMap<_, _>>() {''')],
  demo='''
fn main() {
    setup();
    put("c.r1cs", r1cs(4, 1, 1, &[[lc(&[(2, 1)]), lc(&[(3, 1), (3, 2)]), lc(&[(1, 1)])]]));
    put("in.json", r#"{"c":45,"a":3}"#); put("w.wtns", wtns(&[le(1), le(45), le(3), le(5)]));
    check(encrypt("x").0 == Some(0), "encrypt");
    let r = decrypt("x");
    check(r.0 == Some(0) && get("x.out") == b"hello", &r.1);
}
'''),
dict(id="cli-wtns-reduce", prop="P12", kit="full",
  needs="a witness file with a value at or above the field prime",
  breaks="such values are silently reduced instead of being refused",
  edits=[(CLI+"witness.rs", '''            let value = F::deserialize_uncompressed(&bytes[..]).with_context(|| {
                format!("Failed to deserialize wire {} as field element", wire_id)
            })?;
''', '''            if bytes.len() < width {
                bail!("Failed to deserialize wire {} as field element", wire_id);
            }
            let value = F::from_le_bytes_mod_order(&bytes[..width]);
''')],
  demo='''
fn main() {
    setup();
    check(encrypt("x").0 == Some(0), "encrypt");
    check(decrypt("x").0 == Some(0), "decrypt");
    let mut v = prime(); v[0] += 5; // the prime plus five
    put("w.wtns", wtns(&[le(1), le(15), le(3), v]));
    check(decrypt("x").0 != Some(0), "a value above the prime was accepted");
}
'''),
dict(id="cli-float-numbers", prop="P14", kit="full",
  needs="an input written as a JSON number above 2^53 that a double cannot hold",
  breaks="the number is rounded to the nearest double before it is bound",
  edits=[(CLI+"commands.rs", '''            serde_json::Value::Number(n) => {
                let num = if let Some(u) = n.as_u64() {
                    Fr::from(u)
                } else if let Some(i) = n.as_i64() {
                    Fr::from(i)
                } else {
                    anyhow::bail!("Unsupported number format");
                };
                assign(result, key.to_string(), num)?;''', '''            serde_json::Value::Number(n) => {
                // Whole numbers may be written as 5 or 5.0
                let num = match n.as_f64() {
                    Some(f) if f.fract() == 0.0 && f >= 0.0 => Fr::from(f as u64),
                    Some(f) if f.fract() == 0.0 => -Fr::from(-f as u64),
                    _ => anyhow::bail!("Unsupported number format"),
                };
                assign(result, key.to_string(), num)?;''')],
  demo='''
fn main() {
    setup();
    for (n, v) in [("3", 3u64), ("9007199254740993", 9007199254740993), ("18446744073709551615", u64::MAX)] {
        put("in.json", format!("{{\\"c\\":15,\\"a\\":{n}}}"));
        check(encap("x").0 == Some(0), "encap");
        check(publics(&get("x.ct"), 2)[1] == le(v), &format!("{n} was bound to another value"));
    }
}
'''),
dict(id="cli-short-length", prop="P24", kit="full",
  needs="a circuit with so many public signals that the witness ciphertext exceeds 65535 bytes",
  breaks="the length field is computed from 16 bits: the container cannot be read back",
  edits=[(CLI+"commands.rs", "    combined.extend_from_slice(&(witness_ct_bytes.len() as u32).to_be_bytes());", "    combined.extend_from_slice(&u32::from(witness_ct_bytes.len() as u16).to_be_bytes());")],
  demo='''
fn main() {
    setup();
    let n = 640u32;
    put("c.r1cs", r1cs(n + 2, 0, n, &[[lc(&[(1, 1)]), lc(&[(n + 1, 1)]), lc(&[(2, 1)])]]));
    let names: Vec<String> = (0..n).map(|i| format!("x[{i}]")).collect();
    put("c.sym", sym(&names.iter().map(|s| s.as_str()).collect::<Vec<_>>()));
    let vals: Vec<u64> = (0..n as u64).map(|i| if i == 0 { 2 } else if i == 1 { 8 } else { i }).collect();
    put("in.json", format!("{{\\"x\\":{vals:?}}}"));
    put("w.wtns", wtns(&[1].into_iter().chain(vals).chain([4]).map(le).collect::<Vec<_>>()));
    check(encrypt("x").0 == Some(0), "encrypt");
    let b = get("x.box");
    let len = u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as usize;
    check(len > 65535 && publics(&b[5..5 + len], n as usize)[2] == le(2), "length of the witness ciphertext");
    check(decrypt("x").0 == Some(0) && get("x.out") == b"hello", "decrypt");
}
'''),
dict(id="js-uncompressed", prop="P26", kit="full",
  needs="a ciphertext passed from one tool to the other",
  breaks="the JavaScript native layer writes and reads the uncompressed encoding: neither tool can open the other's ciphertexts",
  edits=[(JS+"lib.rs", '''        .serialize_compressed(&mut ct_bytes)''', '''        .serialize_uncompressed(&mut ct_bytes)'''),
   (JS+"lib.rs", "Ciphertext::<Bn254>::deserialize_compressed(ciphertext_bytes)", "Ciphertext::<Bn254>::deserialize_uncompressed(ciphertext_bytes)")],
  demo='''
fn main() {
    setup();
    let r = zkenc_js::wasm_encap(&get("c.r1cs"), &get("w.wtns")).ok().unwrap();
    put("x.ct", r.ciphertext());
    check(decap("x").0 == Some(0) && get("x.key2") == r.key(), "the command-line tool does not open a ciphertext of the library");
    check(encap("y").0 == Some(0), "encap");
    check(zkenc_js::wasm_decap(&get("c.r1cs"), &get("w.wtns"), &get("y.ct")).ok() == Some(get("y.key")), "the library does not open a ciphertext of the tool");
}
'''),
dict(id="js-factor-bounds", prop="P30", kit="full",
  needs="a circuit file that ends exactly before the wire number of a factor",
  breaks="the native layer panics (a trap in WebAssembly) instead of returning an error",
  edits=[(JS+"lib.rs", '''        if *pos + 4 > data.len() {
            return Err("Unexpected end of data reading wire id".to_string());
        }
''', '')],
  demo='''
fn main() {
    setup();
    let f = r1cs(4, 1, 1, &[[lc(&[(2, 1)]), lc(&[(3, 1)]), vec![]]]);
    for claim in [1u8, 2, 200] {
        let mut g = f.clone(); let n = g.len(); g[n - 4] = claim;
        let w = get("w.wtns");
        match std::panic::catch_unwind(move || zkenc_js::wasm_encap(&g, &w).is_err()) { Ok(true) => {}, Ok(false) => fail("accepted"), Err(_) => fail("panic") }
    }
}
'''),
dict(id="cli-early-output", prop="P31", kit="full",
  needs="a decryption that fails, with an output file that exists already or not",
  breaks="the output file is created (or emptied) before the decryption has succeeded",
  edits=[(CLI+"commands.rs", '''    let combined = fs::read(ciphertext_path).context("Failed to read ciphertext file")?;

    if combined.len() < 5 {''', '''    let combined = fs::read(ciphertext_path).context("Failed to read ciphertext file")?;

    // Fail before the expensive part when the output cannot be written
    let mut output = fs::File::create(output_path).context("Failed to create decrypted file")?;

    if combined.len() < 5 {'''),
   (CLI+"commands.rs", '''    fs::write(output_path, &plaintext).context("Failed to write decrypted file")?;''', '''    std::io::Write::write_all(&mut output, &plaintext)
        .context("Failed to write decrypted file")?;''')],
  demo='''
fn main() {
    setup();
    check(encrypt("x").0 == Some(0), "encrypt");
    put("w.wtns", wtns(&[le(1), le(15), le(3), le(6)]));
    check(decrypt("x").0 != Some(0), "wrong witness accepted");
    check(!std::path::Path::new("x.out").exists(), "the failed command left an output file");
    put("x.out", "keep");
    check(decrypt("x").0 != Some(0) && get("x.out") == b"keep", "the failed command changed an output file");
}
'''),
dict(id="cli-key-write-ignored", prop="P31", kit="full",
  needs="encapsulation with a key path that cannot be written",
  breaks="the command reports success although the key was not saved",
  edits=[(CLI+"commands.rs", '''        .context("Failed to serialize key")?;

    fs::write(key_path, &key_bytes).context("Failed to write key file")?;
    println!("   ✅ Key saved ({} bytes)", key_bytes.len());

    Ok(())
}

/// Decap command''', '''        .context("Failed to serialize key")?;

    match fs::write(key_path, &key_bytes) {
        Ok(()) => println!("   ✅ Key saved ({} bytes)", key_bytes.len()),
        Err(e) => eprintln!("   ⚠ Key not saved: {}", e),
    }

    Ok(())
}

/// Decap command''')],
  demo='''
fn main() {
    setup();
    check(encap("x").0 == Some(0), "encap");
    let r = zkenc("encap -c c.r1cs -s c.sym -i in.json --ciphertext y.ct -k missing/y.key");
    check(r.0.is_some() && r.0 != Some(0), "success without a key file");
}
'''),
dict(id="cli-text-message", prop="P01", kit="full",
  needs="a message that is not valid UTF-8",
  breaks="bytes that are not UTF-8 are replaced: the decrypted message differs",
  edits=[(CLI+"commands.rs", '''    let message = fs::read(message_path).context("Failed to read message file")?;''', '''    let message = String::from_utf8_lossy(&fs::read(message_path).context("Failed to read message file")?)
        .into_owned()
        .into_bytes();''')],
  demo='''
fn main() {
    setup();
    for m in [&b"hello"[..], b"", &[0, 255, 254, 128, 10]] {
        put("msg", m);
        check(encrypt("x").0 == Some(0) && decrypt("x").0 == Some(0), "encrypt and decrypt");
        check(get("x.out") == m, "another message came back");
    }
}
'''),
dict(id="core-key-from-alpha", prop="P03", kit="full",
  needs="an attacker who hashes published group elements",
  breaks="without constraints to evaluate the key is derived from a published element alone",
  edits=[(CORE+"algorithm.rs", '''    let hash = blake3::hash(&s_bytes);
    let key_bytes = *hash.as_bytes(); // Returns [u8; 32]

    let key = Key::new(key_bytes);

    #[cfg(feature = "std")]
    println!("  ✓ Derived key from pairing");''', '''    let hash = blake3::hash(&key_material(&ciphertext.encap_key, &s_bytes)?);
    let key_bytes = *hash.as_bytes(); // Returns [u8; 32]

    let key = Key::new(key_bytes);

    #[cfg(feature = "std")]
    println!("  ✓ Derived key from pairing");'''),
   (CORE+"algorithm.rs", '''    let hash = blake3::hash(&s_bytes);
    let key_bytes = *hash.as_bytes(); // Returns [u8; 32]

    let key = Key::new(key_bytes);

    #[cfg(feature = "std")]
    println!("  ✓ Successfully recovered key");''', '''    let hash = blake3::hash(&key_material(&ciphertext.encap_key, &s_bytes)?);
    let key_bytes = *hash.as_bytes(); // Returns [u8; 32]

    let key = Key::new(key_bytes);

    #[cfg(feature = "std")]
    println!("  ✓ Successfully recovered key");'''),
   (CORE+"algorithm.rs", '''/// Verify that a ciphertext is well-formed
''', '''/// Bind the derived key to the parameters of the ciphertext as well
fn key_material<E: Pairing>(params: &EncapKey<E>, s_bytes: &[u8]) -> Result<Vec<u8>, Error> {
    use ark_serialize::CanonicalSerialize;
    let mut bytes = Vec::with_capacity(s_bytes.len());
    params
        .alpha_g1
        .serialize_compressed(&mut bytes)
        .map_err(|_| Error::SerializationError)?;
    Ok(bytes)
}

/// Verify that a ciphertext is well-formed
''')],
  demo='''
fn main() {
    setup();
    check(encap("x").0 == Some(0) && decap("x").0 == Some(0) && get("x.key") == get("x.key2"), "encap and decap");
    check(blake3::hash(&get("x.ct")[..32]).as_bytes()[..] != get("x.key")[..], "the key is the hash of the first element");
}
'''),
dict(id="cli-missing-public-zero", prop="P05", kit="full",
  needs="inputs that leave a public signal without a value",
  breaks="missing public signals are bound to zero instead of making encapsulation fail",
  edits=[(CLI+"circuit.rs", '''        for wire_id in 1..=n_public {
            let value = self.witness.get(&wire_id).copied();
            let var = cs.new_input_variable''', '''        for wire_id in 1..=n_public {
            let value = Some(self.witness.get(&wire_id).copied().unwrap_or_default());
            let var = cs.new_input_variable''')],
  demo='''
fn main() {
    setup();
    check(encap("x").0 == Some(0), "encap");
    for j in [r#"{"a":3}"#, r#"{"c":15}"#, "{}"] {
        put("in.json", j);
        let r = encap("y");
        check(r.0.is_some() && r.0 != Some(0) && get("y.ct").is_empty(), "a ciphertext without all public signals");
    }
}
'''),
dict(id="script-negative", prop="P29", kit="ts",
  needs="an input below minus the field prime",
  breaks="the script's reduction leaves such inputs negative, the typed one reduces them",
  edits=[(JS+"witness_calculator.js", '''    let res = BigInt(n) % prime
    if (res < 0) res += prime
    return res''', '''    let res = BigInt(n)
    if (res < 0) res += prime
    return res % prime''')],
  demo='''
installPrograms({ p: program({ inputs: { a: 1 }, witness: (v) => [1n, v.a[0] ?? 0n] }) });
const builder = script("witness_calculator.js");
const code = new TextEncoder().encode("p");
for (const a of [5n, -1n, P + 1n, -P, -P - 2n, -3n * P - 7n]) {
  const wc = await builder(code);
  const want = ((a % P) + P) % P;
  const got = (await wc.calculateWitness({ a: String(a) }))[1];
  check(got === want, `${a} became ${got}`);
}
'''),
]
