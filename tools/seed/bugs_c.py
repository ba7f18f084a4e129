# More planted bugs, written from the statements of P08 and P33-P38, and second ones for properties that had a single bug.
CLI = "packages/zkenc-cli/src/"; CORE = "packages/zkenc-core/src/"; JS = "packages/zkenc-js/src/"
FORGE = '''
use ark_bn254::{Bn254, Fr}; use ark_ec::*; use ark_ec::pairing::Pairing; use ark_serialize::*; use zkenc_core::{Ciphertext, EncapKey};
type G1 = <Bn254 as Pairing>::G1; type G2 = <Bn254 as Pairing>::G2;
fn g1(x: u64) -> <Bn254 as Pairing>::G1Affine { (G1::generator() * Fr::from(x)).into_affine() }
fn g2(x: u64) -> <Bn254 as Pairing>::G2Affine { (G2::generator() * Fr::from(x)).into_affine() }
/// A ciphertext with known exponents for the four wires of the circuit and the key the formula gives for 1, 15, 3, 5.
fn forge() -> (Vec<u8>, Vec<u8>) {
    let w = [1u64, 15, 3, 5]; let (u, v, f) = ([2u64, 0, 7, 9], [4u64, 5, 0, 1], [3u64, 8, 1, 6]);
    let dot = |e: &[u64]| w.iter().zip(e).map(|(a, b)| a * b).sum::<u64>();
    let ct = Ciphertext::<Bn254> { encap_key: EncapKey { alpha_g1: g1(11), beta_g2: g2(13), delta_g2: g2(17),
        r_u_query_g1: u.iter().map(|&x| g1(x)).collect(), r_v_query_g2: v.iter().map(|&x| g2(x)).collect(), phi_delta_query_g1: f.iter().map(|&x| g1(x)).collect(), h_query_g1: vec![] },
        public_inputs: vec![Fr::from(15u64), Fr::from(3u64)] };
    let mut b = vec![]; ct.serialize_compressed(&mut b).unwrap();
    let s = Bn254::pairing(g1(11 + dot(&u)), g2(13 + dot(&v))) - Bn254::pairing(g1(dot(&f)), g2(17));
    let mut k = vec![]; s.serialize_compressed(&mut k).unwrap();
    (b, blake3::hash(&k).as_bytes().to_vec())
}
'''
BUGS = [
dict(id="core-delta-beta", prop="P33", kit="full",
  needs="a ciphertext whose published wire elements are not the identity (the ones encap makes without a witness are)",
  breaks="decap pairs the combined element with beta instead of delta",
  edits=[(CORE+"algorithm.rs", "    let pairing_c_delta = E::pairing(c_point, ciphertext.encap_key.delta_g2);", "    let pairing_c_delta = E::pairing(c_point, ciphertext.encap_key.beta_g2);")],
  demo=FORGE+'''
fn main() {
    setup();
    check(encap("x").0 == Some(0) && decap("x").0 == Some(0) && get("x.key") == get("x.key2"), "encap and decap");
    let (ct, key) = forge(); put("y.ct", ct);
    check(decap("y").0 == Some(0) && get("y.key2") == key, "another key than the formula gives");
}
'''),
dict(id="core-kdf-label", prop="P33", kit="full",
  needs="a ciphertext made by an earlier version, or an independent implementation of the formula",
  breaks="both sides hash a label in front of the pairing value: existing ciphertexts cannot be opened any more",
  edits=[(CORE+"algorithm.rs", '''    let mut s_bytes = Vec::new();''', '''    let mut s_bytes = b"zkenc-key".to_vec();''')], times=2,
  demo=FORGE+'''
fn main() {
    setup();
    check(encap("x").0 == Some(0) && decap("x").0 == Some(0) && get("x.key") == get("x.key2"), "encap and decap");
    let (ct, key) = forge(); put("y.ct", ct);
    check(decap("y").0 == Some(0) && get("y.key2") == key, "a ciphertext made elsewhere opens to another key");
}
'''),
dict(id="cli-debug-witness", prop="P34", kit="full",
  needs="a decryption with a witness that does not open the ciphertext",
  breaks="the error message lists the witness, private values included",
  edits=[(CLI+"commands.rs", '''    // Call zkenc-core decap to recover key
    let key = decap::<Bn254, _>(circuit, &witness_ciphertext)
        .map_err(|e| anyhow::anyhow!("Decap failed: {:?}", e))?;''', '''    // Call zkenc-core decap to recover key
    let key = decap::<Bn254, _>(circuit, &witness_ciphertext)
        .map_err(|e| anyhow::anyhow!("Decap failed: {:?}", e))
        .with_context(|| format!("Witness does not open the ciphertext: {:02x?}", witness_file))?;''')],
  demo='''
fn main() {
    setup();
    check(encrypt("x").0 == Some(0), "encrypt");
    let mut secret = le(5); for i in 0..20 { secret[3 + i] = 0xa1 + i as u8; }
    put("w.wtns", wtns(&[le(1), le(15), le(3), secret]));
    let r = decrypt("x");
    check(r.0 != Some(0), "wrong witness");
    let t: String = r.1.chars().filter(|c| c.is_ascii_alphanumeric()).collect();
    let dec = (0xa1..0xb5).map(|x: u32| x.to_string()).collect::<String>();
    check(!t.contains("a1a2a3a4a5a6a7a8") && !t.contains(&dec), "the private value is on the console");
}
'''),
dict(id="ts-value-in-error", prop="P34", kit="ts",
  needs="an input that makes the circuit reject a signal while it is set",
  breaks="the error message quotes the private input value",
  edits=[(JS+"witness_calculator.ts", "throw new Error(`Error setting signal ${k}[${i}]: ${err}`);", "throw new Error(\n            `Error setting signal ${k}[${i}] to ${fArr[i]}: ${err}`\n          );")],
  demo='''
const p = program({ inputs: { a: 1 }, witness: (v) => [1n, v.a[0] ?? 0n] });
installPrograms({ p: (imports) => { const x = p(imports); return { exports: { ...x.exports, setInputSignal: () => imports.runtime.exceptionHandler(4) } }; } });
const { calculateWitness } = await load("witness.js");
let e;
try { await calculateWitness(new TextEncoder().encode("p"), { a: "918273645546372819" }); } catch (x) { e = String(x); }
check(e, "the rejected input was accepted");
check(!e.includes("918273645546372819"), "the error quotes the private input: " + e);
'''),
dict(id="cli-temp-name", prop="P35", kit="full",
  needs="two encryptions running at the same time with outputs in one directory",
  breaks="both write the same temporary file before renaming it: containers get mixed up or the rename fails",
  edits=[(CLI+"commands.rs", '''    fs::write(output_path, &combined).context("Failed to write combined ciphertext")?;''', '''    // Never leave a half-written container behind
    let temp_path = std::path::Path::new(output_path).with_file_name(".zkenc-output.tmp");
    fs::write(&temp_path, &combined).context("Failed to write combined ciphertext")?;
    fs::rename(&temp_path, output_path).context("Failed to write combined ciphertext")?;''')],
  demo='''
fn main() {
    setup();
    for round in 0..40 {
        let t: Vec<_> = (0..12).map(|i| std::thread::spawn(move || {
            let n = format!("r{round}x{i}");
            put(&format!("{n}.msg"), n.as_bytes());
            let r = zkenc(&format!("encrypt -c c.r1cs -s c.sym -i in.json -m {n}.msg -o {n}.box"));
            check(r.0 == Some(0), &r.1);
            n
        })).collect();
        for n in t.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>() {
            check(decrypt(&n).0 == Some(0) && get(&format!("{n}.out")) == n.as_bytes(), "another container");
        }
    }
}
'''),
dict(id="cli-no-truncate-output", prop="P36", kit="full",
  needs="decrypting to a file that exists and is longer than the message",
  breaks="the tail of the old content stays behind the message",
  edits=[(CLI+"commands.rs", '''    fs::write(output_path, &plaintext).context("Failed to write decrypted file")?;''', '''    fs::OpenOptions::new()
        .write(true)
        .create(true)
        .open(output_path)
        .and_then(|mut f| std::io::Write::write_all(&mut f, &plaintext))
        .context("Failed to write decrypted file")?;''')],
  demo='''
fn main() {
    setup();
    check(encrypt("x").0 == Some(0) && decrypt("x").0 == Some(0) && get("x.out") == b"hello", "decrypt");
    put("x.out", "something that was here before");
    check(decrypt("x").0 == Some(0) && get("x.out") == b"hello", "the old content is not replaced");
}
'''),
dict(id="cli-backslash-path", prop="P36", kit="full",
  needs="a circuit file whose name contains a backslash",
  breaks="paths are rewritten: the file is not found",
  edits=[(CLI+"r1cs.rs", '''        let file = File::open(path.as_ref())''', '''        // Accept paths written on Windows
        let native = path.as_ref().to_string_lossy().replace('\\\\', "/");
        let file = File::open(&native)''')],
  demo='''
fn main() {
    setup();
    check(encap("x").0 == Some(0), "encap");
    std::fs::copy("c.r1cs", "my\\\\circuit.r1cs").unwrap();
    let r = zkenc("encap -c my\\\\circuit.r1cs -s c.sym -i in.json --ciphertext y.ct -k y.key");
    check(r.0 == Some(0), &r.1);
}
'''),
dict(id="ts-log-number", prop="P37", kit="ts",
  needs="a circuit that logs a value above 2^53",
  breaks="logged values are rounded and printed in scientific notation",
  edits=[(JS+"witness_calculator.ts", "msgStr += fromArray32(arr).toString();", "msgStr += Number(fromArray32(arr)).toString();")],
  demo='''
let put;
const p = program({ inputs: { a: 1 }, witness: (v) => [1n, v.a[0] ?? 0n] });
installPrograms({ p: (imports) => { const x = p(imports); let msg = []; return { exports: { ...x.exports, getMessageChar: () => msg.shift() ?? 0,
  setInputSignal: (a, b, i) => { x.exports.setInputSignal(a, b, i); imports.runtime.showSharedRWMemory(); msg = [10, 0]; imports.runtime.writeBufferMessage(); } } }; } });
const { calculateWitness } = await load("witness.js");
const lines = []; const log = console.log; console.log = (...a) => lines.push(a.join(" "));
for (const v of ["5", "12345678901234567890123", "1099511627777"]) await calculateWitness(new TextEncoder().encode("p"), { a: v });
console.log = log;
check(JSON.stringify(lines) === '["5","12345678901234567890123","1099511627777"]', "logged " + JSON.stringify(lines));
'''),
dict(id="script-log-line", prop="P37", kit="ts",
  needs="a circuit with two log statements, run with the plain script calculator",
  breaks="a line repeats the text of the earlier lines",
  edits=[(JS+"witness_calculator.js", "\t\t\t\tconsole.log(msgStr);\n\t\t\t\tmsgStr = \"\";", "\t\t\t\tconsole.log(msgStr);")],
  demo='''
const p = program({ inputs: { a: 2 }, witness: (v) => [1n, v.a[0] ?? 0n, v.a[1] ?? 0n] });
installPrograms({ p: (imports) => { const x = p(imports); let msg = []; return { exports: { ...x.exports, getMessageChar: () => msg.shift() ?? 0,
  setInputSignal: (a, b, i) => { x.exports.setInputSignal(a, b, i); msg = [104, 105, 48 + i, 0]; imports.runtime.writeBufferMessage(); msg = [10, 0]; imports.runtime.writeBufferMessage(); } } }; } });
const wc = await script("witness_calculator.js")(new TextEncoder().encode("p"));
const lines = []; const log = console.log; console.log = (...a) => lines.push(a.join(" "));
await wc.calculateWitness({ a: [4, 5] });
console.log = log;
check(JSON.stringify(lines) === '["hi0","hi1"]', "logged " + JSON.stringify(lines));
'''),
dict(id="ts-spread-values", prop="P38", kit="ts",
  needs="an input signal with more values than fit into one call (about 120000)",
  breaks="large inputs exhaust the call stack",
  edits=[(JS+"witness_calculator.ts", '''    if (Array.isArray(a)) {
      for (let i = 0; i < a.length; i++) {
        fillArray(res, a[i]);
      }
    } else {''', '''    if (Array.isArray(a)) {
      res.push(...a.flat(Infinity).map((x) => BigInt(x)));
    } else {''')],
  demo='''
const n = 300000;
installPrograms({ p: program({ inputs: { a: n }, witness: (v) => [1n, ...v.a.slice(-2).map((x) => x ?? 0n)] }) });
const { calculateWitnessArray } = await load("witness.js");
const w = await calculateWitnessArray(new TextEncoder().encode("p"), { a: Array.from({ length: n }, (_, i) => i) }).catch((e) => [e]);
check(String(w) === "1,299998,299999", "a large input: " + String(w));
'''),
dict(id="rs-term-count", prop="P38", kit="rs",
  needs="a circuit with a linear combination of more than 65535 terms",
  breaks="the number of terms is cut to 16 bits: everything behind is misread",
  edits=[(CLI+"r1cs.rs", "        let n_factors = read_u32(reader)?;", "        let n_factors = read_u32(reader)? as u16;")],
  demo='''
fn main() {
    for n in [3u32, 65535, 65540] {
        let mut body: Vec<u8> = n.to_le_bytes().to_vec();
        for i in 0..n { body.extend((i % 3).to_le_bytes()); body.push(7); body.extend([0u8; 31]); }
        body.extend([0u8; 8]);
        let mut h = 32u32.to_le_bytes().to_vec(); h.extend([1u8; 32]);
        for x in [4u32, 1, 1, 1] { h.extend(x.to_le_bytes()); }
        h.extend(4u64.to_le_bytes()); h.extend(1u32.to_le_bytes());
        let mut f = b"r1cs".to_vec(); f.extend(1u32.to_le_bytes()); f.extend(2u32.to_le_bytes());
        for (t, b) in [(1u32, &h), (2, &body)] { f.extend(t.to_le_bytes()); f.extend((b.len() as u64).to_le_bytes()); f.extend(b); }
        let p = put("big.r1cs", &f);
        let r = r1cs::R1csFile::from_file(&p);
        assert!(matches!(&r, Ok(r) if r.constraints[0].a.factors.len() == n as usize && r.constraints[0].b.factors.is_empty()), "the number of terms");
    }
}
'''),
dict(id="core-key-list", prop="P08", kit="full",
  needs="reading a key file of 32 bytes, or its size",
  breaks="the key is encoded as a list with a length prefix: 40 bytes instead of the key's 32",
  edits=[(CORE+"data_structures.rs", "pub struct Key(pub [u8; 32]);", "pub struct Key(pub Vec<u8>);"),
   (CORE+"data_structures.rs", "        Self(bytes)", "        Self(bytes.to_vec())"),
   (CORE+"data_structures.rs", "        &self.0\n", "        self.0.as_slice().try_into().expect(\"key has 32 bytes\")\n")],
  demo='''
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
fn main() {
    setup();
    check(encap("x").0 == Some(0) && decap("x").0 == Some(0), "encap and decap");
    check(get("x.key").len() == 32 && get("x.key") == get("x.key2"), "the key file is not the key");
    let k = zkenc_core::Key::deserialize_compressed(&[7u8; 32][..]).ok().map(|k| *k.as_bytes());
    check(k == Some([7u8; 32]), "a key of 32 bytes cannot be read");
    let mut b = vec![]; zkenc_core::Key::new([9; 32]).serialize_compressed(&mut b).unwrap();
    check(b == [9u8; 32], "encoded key");
}
'''),
dict(id="core-last-public", prop="P02", kit="full",
  needs="a satisfying assignment that differs from the recorded public inputs in the last one only",
  breaks="the last public input is not compared",
  edits=[(CORE+"algorithm.rs", '''    for (i, expected) in ciphertext.public_inputs.iter().enumerate() {
        if &full_assignment[i + 1] != expected {''', '''    for (i, expected) in ciphertext.public_inputs.iter().enumerate().rev().skip(1) {
        if &full_assignment[i + 1] != expected {''')],
  demo='''
fn main() {
    setup();
    check(encrypt("x").0 == Some(0), "encrypt");
    put("w.wtns", wtns(&[le(1), le(15), le(5), le(3)]));
    check(decrypt("x").0 != Some(0), "opened with another last public input");
    put("w.wtns", wtns(&[le(1), le(15), le(3), le(5)]));
    check(decrypt("x").0 == Some(0), "the right assignment");
}
'''),
]
