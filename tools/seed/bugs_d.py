# A fourth batch: bugs written from the statements of P06, P10, P14, P15, P18, P20, P22, P28, P30 and P34-P39.
CLI = "packages/zkenc-cli/src/"; CORE = "packages/zkenc-core/src/"; JS = "packages/zkenc-js/src/"
BUGS = [
dict(id="core-field-order", prop="P39", kit="full",
  needs="a ciphertext written by an earlier release",
  breaks="two lists of the ciphertext are stored in another order, by reader and writer alike",
  edits=[(CORE+"data_structures.rs", '''    /// {[r·uᵢ(x)]₁}ᵢ₌₀^m - scaled U polynomial evaluations in G1
    pub r_u_query_g1: Vec<E::G1Affine>,

    /// {[r·vᵢ(x)]₂}ᵢ₌₀^m - scaled V polynomial evaluations in G2
    pub r_v_query_g2: Vec<E::G2Affine>,

    /// {[φᵢ(x)/δ]₁}ᵢ₌ℓ₊₁^m - combined polynomial for witness variables
    /// where φᵢ(x) = r·β·uᵢ(x) + r·α·vᵢ(x) + r²·wᵢ(x)
    pub phi_delta_query_g1: Vec<E::G1Affine>,
''', '''    /// {[r·uᵢ(x)]₁}ᵢ₌₀^m - scaled U polynomial evaluations in G1
    pub r_u_query_g1: Vec<E::G1Affine>,

    /// {[φᵢ(x)/δ]₁}ᵢ₌ℓ₊₁^m - combined polynomial for witness variables
    /// where φᵢ(x) = r·β·uᵢ(x) + r·α·vᵢ(x) + r²·wᵢ(x)
    pub phi_delta_query_g1: Vec<E::G1Affine>,

    /// {[r·vᵢ(x)]₂}ᵢ₌₀^m - scaled V polynomial evaluations in G2
    pub r_v_query_g2: Vec<E::G2Affine>,
''')],
  demo='''
use ark_bn254::{Bn254, Fr}; use ark_ec::*; use ark_ec::pairing::Pairing; use ark_serialize::*; use zkenc_core::Ciphertext;
type G1 = <Bn254 as Pairing>::G1; type G2 = <Bn254 as Pairing>::G2;
fn main() {
    let g1 = |x: u64| { let mut b = vec![]; (G1::generator() * Fr::from(x)).into_affine().serialize_compressed(&mut b).unwrap(); b };
    let g2 = |x: u64| { let mut b = vec![]; (G2::generator() * Fr::from(x)).into_affine().serialize_compressed(&mut b).unwrap(); b };
    let mut f = [g1(11), g2(13), g2(17)].concat();
    for (l, group) in [(vec![2u64, 0, 7], 1), (vec![4, 5, 1], 2), (vec![3, 8, 6], 1), (vec![], 1)] { f.extend((l.len() as u64).to_le_bytes()); for x in l { f.extend(if group == 1 { g1(x) } else { g2(x) }); } }
    f.extend(1u64.to_le_bytes()); f.extend(le(15));
    let c = Ciphertext::<Bn254>::deserialize_compressed(&f[..]);
    check(c.is_ok(), "a ciphertext in the published layout is refused");
    let c = c.unwrap(); let mut b = vec![]; c.serialize_compressed(&mut b).unwrap();
    check(b == f, "it is written differently");
    let mut v = vec![]; c.encap_key.r_v_query_g2[0].serialize_compressed(&mut v).unwrap();
    check(v == g2(4), "a list was taken for another");
}
'''),
dict(id="rs-bincode-varint", prop="P39", kit="rs",
  needs="a binary snapshot written by an earlier release",
  breaks="binary snapshots use variable-width integers, reader and writer alike: older files cannot be read",
  edits=[(CLI+"serializable.rs", "        bincode::serialize(self)", "        use bincode::Options;\n        bincode::DefaultOptions::new().serialize(self)"),
   (CLI+"serializable.rs", "        bincode::deserialize(bytes)", "        use bincode::Options;\n        bincode::DefaultOptions::new().deserialize(bytes)")],
  demo='''
fn main() {
    let mut f = vec![]; f.extend(32u32.to_le_bytes()); f.extend(2u64.to_le_bytes()); f.extend([7, 9]);
    for x in [3u32, 1, 1, 0, 0] { f.extend(x.to_le_bytes()); }
    f.extend(0u64.to_le_bytes()); f.push(0);
    let c = serializable::SerializableCircuit::from_bincode(&f);
    assert!(matches!(&c, Ok(c) if c.prime_bytes == [7, 9] && c.n_wires == 3), "a snapshot of an earlier release");
    assert!(c.unwrap().to_bincode().unwrap() == f, "it is written differently");
}
'''),
dict(id="rs-snapshot-limit", prop="P22", kit="rs",
  needs="a binary snapshot larger than a mebibyte",
  breaks="loading a large binary snapshot that was just saved is refused",
  edits=[(CLI+"serializable.rs", "        bincode::deserialize(bytes)", "        // Do not let a damaged length reserve huge amounts of memory\n        use bincode::Options;\n        bincode::DefaultOptions::new()\n            .with_fixint_encoding()\n            .allow_trailing_bytes()\n            .with_limit(1 << 20)\n            .deserialize_from(bytes)")],
  demo='''
fn main() {
    use serializable::*;
    for n in [3usize, 40000] {
        let lc = || SerializableLC { factors: vec![SerializableFactor { wire_id: 1, coefficient_bytes: vec![5; 32] }] };
        let c = SerializableCircuit { field_size: 32, prime_bytes: vec![1; 32], n_wires: 2, n_pub_out: 0, n_pub_in: 1, n_prv_in: 0, n_constraints: n as u32,
            constraints: (0..n).map(|_| SerializableConstraint { a: lc(), b: lc(), c: lc() }).collect(), wire_labels: None };
        let b = c.to_bincode().unwrap();
        let d = SerializableCircuit::from_bincode(&b);
        assert!(matches!(&d, Ok(d) if d.constraints.len() == n), "a snapshot of {} bytes", b.len());
    }
}
'''),
dict(id="ts-short-key", prop="P15", kit="ts",
  needs="an input object with a nested name that the circuit does not have, whose last part is the name of another signal",
  breaks="the nested value is bound to the top-level signal of the same name",
  edits=[(JS+"sym_parser.ts", "      const wireId = wireMap.get(fullKey);", "      const wireId = wireMap.get(fullKey) ?? wireMap.get(key);")],
  demo='''
const { mapInputsToWires } = await load("sym_parser.js");
const w = new Map([["a", 1], ["o.b", 2]]);
const s = (m) => JSON.stringify([...m].sort());
check(s(mapInputsToWires({ a: 5, o: { b: 6 } }, w)) === '[[1,"5"],[2,"6"]]', "plain inputs");
check(s(mapInputsToWires({ a: 5, o: { b: 6, a: 7 } }, w)) === '[[1,"5"],[2,"6"]]', "o.a is not a");
'''),
dict(id="rs-label-u32", prop="P10", kit="rs",
  needs="a circuit file whose label map has a label above 32 bits",
  breaks="labels are cut to 32 bits",
  edits=[(CLI+"r1cs.rs", "            wire2label.push(read_u64(reader)?);", "            let label = read_u32(reader)?;\n            read_u32(reader)?; // labels are small\n            wire2label.push(label as u64);")],
  demo='''
fn main() {
    let mut h = 32u32.to_le_bytes().to_vec(); h.extend([1u8; 32]);
    for x in [3u32, 1, 1, 0] { h.extend(x.to_le_bytes()); }
    h.extend(9u64.to_le_bytes()); h.extend(0u32.to_le_bytes());
    let labels = [0u64, 7, 1 << 40 | 5]; let l: Vec<u8> = labels.iter().flat_map(|x| x.to_le_bytes()).collect();
    let mut f = b"r1cs".to_vec(); f.extend(1u32.to_le_bytes()); f.extend(3u32.to_le_bytes());
    for (t, b) in [(1u32, h), (2, vec![]), (3, l)] { f.extend(t.to_le_bytes()); f.extend((b.len() as u64).to_le_bytes()); f.extend(b); }
    let r = r1cs::R1csFile::from_file(&put("l.r1cs", &f)).unwrap();
    assert_eq!(r.wire2label, labels);
}
'''),
dict(id="cli-singleton-array", prop="P14", kit="full",
  needs="an input signal that is an array with one element",
  breaks="the value is bound to the name without the index, so the public signal stays without it",
  edits=[(CLI+"commands.rs", '''                for (idx, item) in arr.iter().enumerate() {
                    let array_key = format!("{}[{}]", key, idx);''', '''                for (idx, item) in arr.iter().enumerate() {
                    if arr.len() == 1 {
                        return flatten_value(item, key, result);
                    }
                    let array_key = format!("{key}[{idx}]");''')],
  demo='''
fn main() {
    setup();
    check(encap("x").0 == Some(0) && publics(&get("x.ct"), 2) == [le(15), le(3)], "scalars");
    put("c.sym", sym(&["c[0]", "a[0][0]", "b"])); put("in.json", r#"{"c":["15"],"a":[[3]]}"#);
    check(encap("y").0 == Some(0), "arrays with one element are refused");
    check(publics(&get("y.ct"), 2) == [le(15), le(3)], "arrays with one element are bound wrongly");
}
'''),
dict(id="ts-sanity-override", prop="P28", kit="ts",
  needs="a calculator built with sanity checks whose call passes false (as the wrapper functions do)",
  breaks="the assertions of the circuit are not evaluated although the calculator was asked to",
  edits=[(JS+"witness_calculator.ts", "exports.init(this.sanityCheck || sanityCheck ? 1 : 0);", "exports.init((sanityCheck ?? this.sanityCheck) ? 1 : 0);")],
  demo='''
let asked = [];
const p = program({ inputs: { a: 1 }, witness: (v) => [1n, v.a[0] ?? 0n] });
installPrograms({ p: (imports) => { const x = p(imports); return { exports: { ...x.exports, init: (s) => { asked.push(s); x.exports.init(s); } } }; } });
const build = (await load("witness_calculator.js")).default;
for (const [opt, arg, want] of [[undefined, undefined, 0], [true, undefined, 1], [false, true, 1], [true, false, 1], [false, false, 0]]) {
  asked = []; const wc = await build(new TextEncoder().encode("p"), opt === undefined ? undefined : { sanityCheck: opt });
  await wc.calculateWTNSBin({ a: 5 }, arg);
  check(asked.length === 1 && asked[0] === want, `calculator ${opt}, call ${arg}: ${asked}`);
}
'''),
dict(id="cli-preview", prop="P34", kit="full",
  needs="looking at the output of a decryption",
  breaks="the beginning of the decrypted message is printed",
  edits=[(CLI+"commands.rs", '''    println!("   ✅ Decrypted message saved ({} bytes)", plaintext.len());''', '''    println!(
        "   ✅ Decrypted message saved ({} bytes){}",
        plaintext.len(),
        plaintext
            .get(..64)
            .map(|p| format!(": {:?}...", String::from_utf8_lossy(&p[..5])))
            .unwrap_or_default()
    );''')],
  demo='''
fn main() {
    setup(); put("msg", format!("qzxvk{}", "-".repeat(100)));
    check(encrypt("x").0 == Some(0), "encrypt");
    let o = std::process::Command::new(std::env::current_exe().unwrap().with_file_name("zkenc")).args("decrypt -c c.r1cs -w w.wtns -i x.box -o x.out".split(' ')).output().unwrap();
    check(o.status.success() && get("x.out") == get("msg"), "decrypt");
    check(!String::from_utf8_lossy(&o.stdout).contains("qzxv") && !String::from_utf8_lossy(&o.stderr).contains("qzxv"), "the message is printed");
}
'''),
dict(id="rs-trailing-newline", prop="P18", kit="rs",
  needs="a sealed message to which a line feed was appended",
  breaks="the altered message is accepted",
  edits=[(CLI+"crypto.rs", '''    let plaintext = cipher.decrypt(nonce, ciphertext).map_err(|e| {''', '''    let plaintext = cipher
        .decrypt(nonce, ciphertext)
        // Editors append a line end to files
        .or_else(|e| match ciphertext.strip_suffix(b"\\n") {
            Some(rest) => cipher.decrypt(nonce, rest),
            None => Err(e),
        })
        .map_err(|e| {''')],
  demo='''
fn main() {
    let k = [7u8; 32]; let mut e = crypto::encrypt_gcm(&k, b"hello").unwrap();
    assert_eq!(crypto::decrypt_gcm(&k, &e).unwrap(), b"hello");
    for b in [0u8, b' ', b'\\n', b'\\r'] { e.push(b); assert!(crypto::decrypt_gcm(&k, &e).is_err(), "an appended byte {b}"); e.pop(); }
}
'''),
dict(id="rs-nonce-period", prop="P20", kit="rs",
  needs="more than 65536 encryptions in one process",
  breaks="the nonce is drawn from a per-process secret and a 16-bit message counter: it repeats",
  edits=[(CLI+"crypto.rs", "    let nonce = Aes256Gcm::generate_nonce(&mut OsRng);", '''    // One secret per process, then a message number
    use rand::{RngCore, SeedableRng};
    static SECRET: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    static COUNT: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(0);
    let n = COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) as u64;
    let mut bytes = [0u8; 12];
    rand::rngs::StdRng::seed_from_u64(SECRET.get_or_init(|| OsRng.next_u64()) ^ n).fill_bytes(&mut bytes);
    let nonce = *Nonce::from_slice(&bytes);''')],
  demo='''
fn main() {
    let mut seen = std::collections::HashSet::new();
    for i in 0..70000u32 { let e = crypto::encrypt_gcm(&[7; 32], &i.to_le_bytes()).unwrap(); assert!(seen.insert(e[..12].to_vec()), "nonce {i} repeats"); }
}
'''),
dict(id="rs-nonce-race", prop="P20", kit="rs",
  needs="several threads encrypting at the same time",
  breaks="the message number is read and written separately, so two threads can use the same nonce",
  edits=[(CLI+"crypto.rs", "    let nonce = Aes256Gcm::generate_nonce(&mut OsRng);", '''    // One secret per process, then a message number
    use rand::{RngCore, SeedableRng};
    static SECRET: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = COUNT.load(std::sync::atomic::Ordering::Relaxed);
    let mut bytes = [0u8; 12];
    rand::rngs::StdRng::seed_from_u64(SECRET.get_or_init(|| OsRng.next_u64()).wrapping_add(n)).fill_bytes(&mut bytes);
    COUNT.store(n + 1, std::sync::atomic::Ordering::Relaxed);
    let nonce = *Nonce::from_slice(&bytes);''')],
  demo='''
fn main() {
    let t: Vec<_> = (0..8).map(|i| std::thread::spawn(move || (0..20000u32).map(|j| crypto::encrypt_gcm(&[7; 32], &[i as u8, j as u8]).unwrap()[..12].to_vec()).collect::<Vec<_>>())).collect();
    let mut seen = std::collections::HashSet::new();
    for h in t { for n in h.join().unwrap() { assert!(seen.insert(n), "a nonce repeats"); } }
}
'''),
dict(id="core-verify-sorted", prop="P06", kit="full",
  needs="checking a ciphertext against its public inputs in another order",
  breaks="the order of the public inputs is ignored",
  edits=[(CORE+"algorithm.rs", '''    for (a, b) in ciphertext
        .public_inputs
        .iter()
        .zip(expected_public_inputs.iter())
    {
        if a != b {''', '''    for a in ciphertext.public_inputs.iter() {
        let count = |list: &[E::ScalarField]| list.iter().filter(|b| *b == a).count();
        if count(&ciphertext.public_inputs) != count(expected_public_inputs) {''')],
  demo='''
use ark_bn254::{Bn254, Fr}; use ark_serialize::*; use zkenc_core::{Ciphertext, algorithm::verify_ciphertext};
fn main() {
    setup(); check(encap("x").0 == Some(0), "encap");
    let c = Ciphertext::<Bn254>::deserialize_compressed(&get("x.ct")[..]).unwrap();
    check(verify_ciphertext(&c, &[Fr::from(15u64), Fr::from(3u64)]), "its own public inputs");
    check(!verify_ciphertext(&c, &[Fr::from(15u64), Fr::from(4u64)]), "another value");
    check(!verify_ciphertext(&c, &[Fr::from(3u64), Fr::from(15u64)]), "another order");
}
'''),
dict(id="ts-error-code", prop="P37", kit="ts",
  needs="a circuit that ends the run because an access is out of bounds (or memory runs out)",
  breaks="the error names another reason",
  edits=[(JS+"witness_calculator.ts", '''        if (code === 1) {
          err = "Signal not found.\\n";
        } else if (code === 2) {
          err = "Too many signals set.\\n";
        } else if (code === 3) {
          err = "Signal already set.\\n";
        } else if (code === 4) {
          err = "Assert Failed.\\n";
        } else if (code === 5) {
          err = "Not enough memory.\\n";
        } else if (code === 6) {
          err = "Input signal array access exceeds the size.\\n";
        } else {
          err = "Unknown error.\\n";
        }''', '''        err =
          [
            "Signal not found.",
            "Too many signals set.",
            "Signal already set.",
            "Assert Failed.",
            "Input signal array access exceeds the size.",
            "Not enough memory.",
          ][code - 1] ?? "Unknown error.";
        err += "\\n";''')],
  demo='''
const p = program({ inputs: { a: 1 }, witness: (v) => [1n, v.a[0] ?? 0n] });
const build = (await load("witness_calculator.js")).default;
for (const [code, want] of [[1, /not found/i], [2, /too many/i], [3, /already/i], [4, /assert/i], [5, /memory/i], [6, /exceeds/i], [9, /unknown/i]]) {
  installPrograms({ p: (imports) => { const x = p(imports); return { exports: { ...x.exports, setInputSignal: () => imports.runtime.exceptionHandler(code) } }; } });
  let e = ""; await (await build(new TextEncoder().encode("p"))).calculateWitness({ a: 1 }).catch((x) => { e = String(x); });
  check(want.test(e), `code ${code}: ${e}`);
}
'''),
dict(id="cli-dollar-path", prop="P36", kit="full",
  needs="a file whose name contains a dollar sign",
  breaks="the part behind it is replaced by an environment variable",
  edits=[(CLI+"commands.rs", '''    let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;''', '''    let sym_path = match sym_path.split_once('$') {
        Some((head, var)) => format!("{}{}", head, std::env::var(var).unwrap_or_default()),
        None => sym_path.to_string(),
    };
    let sym_content = fs::read_to_string(&sym_path).context("Failed to read symbol file")?;''')], times=2,
  demo='''
fn main() {
    setup(); check(encap("x").0 == Some(0), "encap");
    put("c$HOME.sym", get("c.sym"));
    let r = zkenc("encap -c c.r1cs -s c$HOME.sym -i in.json --ciphertext y.ct -k y.key");
    check(r.0 == Some(0), &r.1);
}
'''),
dict(id="js-factor-capacity", prop="P30", kit="full",
  needs="a circuit file whose number of terms is damaged to a very large one",
  breaks="memory for all announced terms is reserved at once, which aborts the program",
  edits=[(JS+"lib.rs", "    let mut factors = Vec::new();\n    for _ in 0..n_factors {\n        if", "    let mut factors = Vec::with_capacity(n_factors as usize);\n    for _ in 0..n_factors {\n        if")],
  demo='''
fn main() {
    setup();
    let f = r1cs(4, 1, 1, &[[lc(&[(2, 1)]), lc(&[(3, 1)]), vec![]]]); let w = get("w.wtns");
    for claim in [1u32, 1 << 16, u32::MAX] {
        let mut g = f.clone(); let n = g.len(); g[n - 4..].copy_from_slice(&claim.to_le_bytes());
        check(zkenc_js::wasm_encap(&g, &w).is_err(), "accepted");
    }
}
'''),
dict(id="core-zip-publics", prop="P02", kit="full",
  needs="a ciphertext that records more public inputs than the given circuit has variables",
  breaks="the public inputs beyond are not compared",
  edits=[(CORE+"algorithm.rs", '''    if full_assignment.len() < 1 + ciphertext.public_inputs.len() {
        return Err(Error::InvalidPublicInputs);
    }
    for (i, expected) in ciphertext.public_inputs.iter().enumerate() {
        if &full_assignment[i + 1] != expected {''', '''    for (i, (expected, actual)) in ciphertext
        .public_inputs
        .iter()
        .zip(full_assignment[1..].iter())
        .enumerate()
    {
        if actual != expected {''')],
  demo='''
fn main() {
    setup();
    check(encap("x").0 == Some(0) && decap("x").0 == Some(0), "encap and decap");
    // the same with five public wires; the first three agree
    put("c.r1cs", r1cs(6, 1, 4, &[])); put("c.sym", sym(&["c", "a", "b", "d", "e"])); put("in.json", r#"{"c":"15","a":3,"b":5,"d":1,"e":2}"#);
    check(encap("y").0 == Some(0), "encap");
    setup();
    check(decap("y").0 != Some(0), "a ciphertext with further public inputs was opened");
}
'''),
]
