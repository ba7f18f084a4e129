TS = "packages/zkenc-js/src/"
CLI = "packages/zkenc-cli/src/"
CORE = "packages/zkenc-core/src/"
BUGS = [
dict(id="ts-gap-zero", prop="P05", kit="ts",
  needs="an input object that lacks a public signal while a later one is given",
  breaks="the missing public signal is silently bound to 0",
  edits=[(TS+"zkenc.ts", "      // This wire is not a public input, stop here\n      break;", "      // This wire has no value: leave it at zero\n      witnessArray.push(0n);")],
  demo='''
const { encap } = await load("zkenc.js");
const n = stubNative();
const files = { r1csBuffer: new Uint8Array(4), symContent: "1,1,0,main.a\\n2,2,0,main.b\\n3,3,0,main.c\\n" };
try { await encap(files, { a: 5, c: 7 }); } catch { process.exit(0); }
check(n.seen[0].length === 2, "a value was made up for the missing signal b: " + n.seen[0]);
'''),
dict(id="ts-sym-dollar", prop="P13", kit="ts",
  needs="a signal or component name containing a dollar sign (legal in circom)",
  breaks="parseSymFile drops such signals",
  edits=[(TS+"sym_parser.ts", '''    const parts = line.split(",");
    if (parts.length !== 4) {
      continue; // Skip invalid lines
    }
''', '''    const parts = line.trim().split(",");
    if (parts.length !== 4 || !/^[\\w.\\[\\]]+$/.test(parts[3].trim())) {
      continue; // Skip invalid lines
    }
''')],
  demo='''
const { parseSymFile } = await load("sym_parser.js");
const m = parseSymFile("1,1,0,main.$x\\n2,2,0,main.y\\n");
check(m.get("main.$x") === 1 && m.get("main.y") === 2, "main.$x is missing");
'''),
dict(id="rs-main-prefix", prop="P13", kit="rs",
  needs="a component named main inside the main component",
  breaks="the prefix is removed more than once, so main.main.x and main.x collide",
  edits=[(CLI+"sym_parser.rs", '''        if let Some(simplified) = signal_name.strip_prefix("main.") {
            input_signals.insert(simplified.to_string(), wire_id);
        }''', '''        let simplified = signal_name.trim_start_matches("main.");
        if simplified.len() != signal_name.len() {
            input_signals.insert(simplified.to_string(), wire_id);
        }''')],
  demo='''
fn main() {
    let m = sym_parser::parse_sym_file("1,1,0,main.a\\n2,2,0,main.main.b\\n").unwrap();
    let s = sym_parser::get_input_signals(&m, None);
    assert_eq!(s.get("main.b"), Some(&2)); assert_eq!(s.get("a"), Some(&1));
}
'''),
dict(id="ts-nested-prefix", prop="P15", kit="ts",
  needs="inputs nested at least three objects deep",
  breaks="the outermost component name is lost, so the value is bound to another signal or to none",
  edits=[(TS+"sym_parser.ts", "flattenInput(nestedKey, nestedValue, fullKey);", "flattenInput(nestedKey, nestedValue, key);")],
  demo='''
const { mapInputsToWires } = await load("sym_parser.js");
const m = mapInputsToWires({ a: { b: { c: 5 } } }, new Map([["a.b.c", 1], ["b.c", 2]]));
check(String(m.get(1)) === "5" && m.get(2) === undefined, "a.b.c is not bound to wire 1");
'''),
dict(id="ts-safe-digits", prop="P15", kit="ts",
  needs="a 16-digit value above 2^53 that a double cannot represent",
  breaks="the recorded value is rounded to the nearest double",
  edits=[(TS+"sym_parser.ts", "    flattenInput(key, value);", '''    // Normalise short decimals ("007", " 7 ") the way JSON numbers print
    const short =
      typeof value === "string" && /^\\s*\\d{1,16}\\s*$/.test(value);
    flattenInput(key, short ? Number(value) : value);''')],
  demo='''
const { encap } = await load("zkenc.js");
const n = stubNative();
const files = { r1csBuffer: new Uint8Array(4), symContent: "1,1,0,main.a\\n2,2,0,main.b\\n" };
await encap(files, { a: "9007199254740993", b: 7 });
check(n.seen[0][1] === 9007199254740993n && n.seen[0][2] === 7n, "value changed: " + n.seen[0]);
'''),
dict(id="ts-view-nonce", prop="P21", kit="ts",
  needs="decrypting a byte view that does not begin at the start of its buffer",
  breaks="the nonce is taken from the start of the underlying buffer, so a valid message is refused",
  edits=[(TS+"crypto.ts", "  const nonce = encrypted.slice(0, 12);", "  const nonce = new Uint8Array(encrypted.buffer, 0, 12);")],
  demo='''
const { aesGcmEncrypt, aesGcmDecrypt } = await load("crypto.js");
const key = new Uint8Array(32).fill(1), msg = new Uint8Array([1, 2, 3]);
const c = await aesGcmEncrypt(key, msg);
check(eq(await aesGcmDecrypt(key, c), msg), "plain");
const big = new Uint8Array(c.length + 20); big.set(c, 7);
let out; try { out = await aesGcmDecrypt(key, big.subarray(7, 7 + c.length)); } catch (e) { check(false, e.message); }
check(eq(out, msg), "view");
'''),
dict(id="ts-shared-nonce", prop="P32", kit="ts",
  needs="two encryptions in flight at the same time",
  breaks="both use the nonce buffer of the later one: nonce reuse under concurrency",
  edits=[(TS+"crypto.ts", '''  // Generate random 12-byte nonce
  const nonce = crypto.getRandomValues(new Uint8Array(12));''', '''  // Generate random 12-byte nonce
  const nonce = crypto.getRandomValues(nonceBuffer);'''), (TS+"crypto.ts", '''/**
 * Encrypt data using AES-256-GCM''', '''const nonceBuffer = new Uint8Array(12);

/**
 * Encrypt data using AES-256-GCM''')],
  demo='''
const { aesGcmEncrypt, aesGcmDecrypt } = await load("crypto.js");
const key = new Uint8Array(32).fill(1);
const cs = await Promise.all([1, 2, 3, 4].map((i) => aesGcmEncrypt(key, new Uint8Array([i]))));
check(new Set(cs.map((c) => Buffer.from(c.slice(0, 12)).toString("hex"))).size === 4, "nonce repeated");
'''),
dict(id="ts-latin1-inputs", prop="P25", kit="ts",
  needs="embedded inputs whose JSON has a character outside ASCII",
  breaks="getPublicInput returns mangled names or strings",
  edits=[(TS+"zkenc.ts", '''  const decoder = new TextDecoder();
  const publicInputJson = decoder.decode(publicInputBytes);''', '''  let publicInputJson = "";
  for (const byte of publicInputBytes) {
    publicInputJson += String.fromCharCode(byte);
  }''')],
  demo='''
const { encrypt, getPublicInput } = await load("zkenc.js");
stubNative();
const files = { r1csBuffer: new Uint8Array(4), symContent: "1,1,0,main.a\\n" };
const inputs = { a: 5, note: "na\\u00efve \\u6f22" };
const { ciphertext } = await encrypt(files, inputs, new Uint8Array([1]));
const got = getPublicInput(ciphertext);
check(JSON.stringify(got) === JSON.stringify(inputs), JSON.stringify(got));
'''),
dict(id="ts-view-container", prop="P25", kit="ts",
  needs="reading embedded inputs of a container that is a view into a larger buffer",
  breaks="the header is read from the start of the buffer instead of the view",
  times=2,
  edits=[(TS+"zkenc.ts", "const view = new DataView(ciphertext.buffer, ciphertext.byteOffset);", "const view = new DataView(ciphertext.buffer);")],
  demo='''
const { encrypt, getPublicInput } = await load("zkenc.js");
stubNative();
const files = { r1csBuffer: new Uint8Array(4), symContent: "1,1,0,main.a\\n" };
const { ciphertext } = await encrypt(files, { a: 5 }, new Uint8Array([1]));
const big = new Uint8Array(ciphertext.length + 9); big.set(ciphertext, 5);
let got; try { got = getPublicInput(big.subarray(5, 5 + ciphertext.length)); } catch (e) { check(false, e.message); }
check(JSON.stringify(got) === '{"a":5}', JSON.stringify(got));
'''),
dict(id="ts-hash-pad", prop="P27", kit="ts",
  needs="a signal name whose 64-bit hash begins with a zero digit (1 in 16 names)",
  breaks="the hash words are shifted and the signal is not found",
  edits=[(TS+"witness_calculator.ts", '''  const n = 16 - shash.length;
  shash = "0".repeat(n) + shash;
  return shash;''', '''  shash = shash.padEnd(16, "0");
  return shash;''')],
  demo='''
const { calculateWitnessArray } = await load("witness.js");
for (let i = 0; i < 100; i++) {
  const name = "s" + i, code = new TextEncoder().encode("p");
  installPrograms({ p: program({ inputs: { [name]: 1 }, witness: (v) => [1n, v[name][0]] }) });
  let w; try { w = await calculateWitnessArray(code, { [name]: 5 }); } catch (e) { check(false, name + ": " + e.message); }
  check(w[1] === 5n, name + " = " + w[1]);
}
'''),
dict(id="ts-calc-cache", prop="P32", kit="ts",
  needs="two witness calculations of the same program in flight at the same time",
  breaks="the calculations share one instance: one of them returns the witness of the other's inputs",
  edits=[(TS+"witness.ts", '''  const witnessCalculator = await witnessCalculatorBuilder(wasmBuffer);

  // Calculate witness in binary format (snarkjs wtns format)''', '''  let witnessCalculator = calculators.get(wasmBuffer);
  if (!witnessCalculator) {
    witnessCalculator = await witnessCalculatorBuilder(wasmBuffer);
    calculators.set(wasmBuffer, witnessCalculator);
  }

  // Calculate witness in binary format (snarkjs wtns format)'''),
   (TS+"witness.ts", '''import witnessCalculatorBuilder from "./witness_calculator.js";
''', '''import witnessCalculatorBuilder, {
  WitnessCalculator,
} from "./witness_calculator.js";

// Compiling a circuit is slow: keep its calculator for as long as the buffer lives
const calculators = new WeakMap<object, WitnessCalculator>();
''')],
  demo='''
import { wtnsValues } from "./kit.mjs";
const { calculateWitness } = await load("witness.js");
const code = new TextEncoder().encode("p");
installPrograms({ p: program({ inputs: { a: 1 }, witness: (v) => [1n, (v.a[0] ?? 0n) * 2n] }) });
await calculateWitness(code, { a: 1 });
const r = await Promise.all([5, 6, 7].map((a) => calculateWitness(code, { a })));
check(r.map((w) => wtnsValues(w)[1]).join() === "10,12,14", "witnesses: " + r.map((w) => wtnsValues(w)[1]).join());
'''),
dict(id="ts-unknown-signal", prop="P28", kit="ts",
  needs="an input object with a name the circuit does not have",
  breaks="a misspelt or foreign signal is ignored instead of refused",
  edits=[(TS+"witness_calculator.ts", '''        throw new Error(`Signal ${k} not found\\n`);
''', '''        if (fArr.length > 0) throw new Error(`Signal ${k} not found\\n`);
        continue; // nothing to deliver
''')],
  demo='''
const { calculateWitness } = await load("witness.js");
const code = new TextEncoder().encode("p");
installPrograms({ p: program({ inputs: { a: 1 }, witness: (v) => [1n, v.a[0]] }) });
let ok = true; try { await calculateWitness(code, { a: 1, nope: [] }); } catch { ok = false; }
check(!ok, "an unknown name was accepted");
'''),
dict(id="ts-init-race", prop="P32", kit="ts",
  needs="two first calls at the same time",
  breaks="the second call uses the native module before it is initialised",
  edits=[(TS+"zkenc.ts", '''      wasmInitPromise = (async () => {
        await wasmInit();
        wasmInitialized = true;
      })();''', '''      wasmInitPromise = (async () => {
        wasmInitialized = true;
        await wasmInit();
      })();''')],
  demo='''
const { encap } = await load("zkenc.js");
const n = stubNative(); let ready = false, early = 0;
n.init = async () => { await new Promise((r) => setTimeout(r, 20)); ready = true; };
const f = n.wasm_encap; n.wasm_encap = (...a) => { if (!ready) early++; return f(...a); };
const files = { r1csBuffer: new Uint8Array(4), symContent: "1,1,0,main.a\\n" };
await Promise.all([encap(files, { a: 1 }), encap(files, { a: 2 })]);
check(early === 0, "used before it was ready");
'''),
dict(id="rs-dup-wire", prop="P10", kit="rs",
  needs="a linear combination that names the same wire twice",
  breaks="only the last factor of the wire is kept",
  edits=[(CLI+"r1cs.rs", "            factors.push((wire_id, value));", '''            match factors.iter_mut().find(|(w, _)| *w == wire_id) {
                Some((_, v)) => *v = value,
                None => factors.push((wire_id, value)),
            }''')],
  demo='''
fn main() {
    let mut h = 4u32.to_le_bytes().to_vec(); h.extend([7, 0, 0, 0]);
    for x in [3u32, 0, 1, 1] { h.extend(x.to_le_bytes()); }
    h.extend(3u64.to_le_bytes()); h.extend(1u32.to_le_bytes());
    let lc: Vec<u8> = [2u32, 1, 5, 1, 6].iter().flat_map(|x| x.to_le_bytes()).collect();
    let c = lc.repeat(3);
    let mut f = b"r1cs".to_vec();
    for x in [1u32, 2] { f.extend(x.to_le_bytes()); }
    for (t, b) in [(1u32, &h), (2, &c)] { f.extend(t.to_le_bytes()); f.extend((b.len() as u64).to_le_bytes()); f.extend(b); }
    let r = r1cs::R1csFile::from_file(put("x.r1cs", &f)).unwrap();
    assert_eq!(r.constraints[0].a.factors, vec![(1, vec![5, 0, 0, 0]), (1, vec![6, 0, 0, 0])]);
}
'''),
dict(id="rs-version-zero", prop="P11", kit="rs",
  needs="a file whose version field is 0",
  breaks="an unsupported version is read as version 1",
  edits=[(CLI+"r1cs.rs", "        if version != 1 {", "        if version > 1 {")],
  demo='''
fn main() {
    let mut h = 4u32.to_le_bytes().to_vec(); h.extend([7, 0, 0, 0]);
    for x in [1u32, 0, 0, 0] { h.extend(x.to_le_bytes()); }
    h.extend(1u64.to_le_bytes()); h.extend(0u32.to_le_bytes());
    let file = |v: u32| { let mut f = b"r1cs".to_vec(); for x in [v, 2] { f.extend(x.to_le_bytes()); }
      for (t, b) in [(1u32, &h), (2, &vec![])] { f.extend(t.to_le_bytes()); f.extend((b.len() as u64).to_le_bytes()); f.extend(b); } f };
    assert!(r1cs::R1csFile::from_file(put("x1.r1cs", &file(1))).is_ok());
    assert!(r1cs::R1csFile::from_file(put("x2.r1cs", &file(2))).is_err());
    assert!(r1cs::R1csFile::from_file(put("x0.r1cs", &file(0))).is_err());
}
'''),
dict(id="rs-f64-numbers", prop="P16", kit="rs",
  needs="an integer from 2^63 up in the input file",
  breaks="the number is printed after rounding to a double",
  edits=[(CLI+"circom.rs", "        Value::Number(n) => vec![n.to_string()],", '''        Value::Number(n) => vec![match n.as_i64() {
            Some(i) => i.to_string(),
            None => n.as_f64().unwrap_or_default().to_string(),
        }],''')],
  demo='''
fn main() {
    let m = circom::parse_inputs(put("i.json", br#"{"a":[1,-2,9223372036854775809]}"#)).unwrap();
    assert_eq!(m["a"], ["1", "-2", "9223372036854775809"]);
}
'''),
dict(id="rs-empty-message", prop="P17", kit="rs",
  needs="an empty message",
  breaks="its ciphertext cannot be decrypted",
  edits=[(CLI+"crypto.rs", "    if data.len() < 28 {", "    if data.len() <= 28 {")],
  demo='''
fn main() {
    let c = crypto::encrypt_gcm(&[1; 32], b"").unwrap();
    assert_eq!(crypto::decrypt_gcm(&[1; 32], &c).unwrap(), b"");
}
'''),
dict(id="rs-empty-tag", prop="P18", kit="rs",
  needs="a ciphertext of an empty message with an altered tag, or another key",
  breaks="the tag of empty messages is not verified",
  edits=[(CLI+"crypto.rs", '''    // Decrypt
    let plaintext = cipher.decrypt(nonce, ciphertext).map_err(|e| {''', '''    // Only a tag: there is nothing to decrypt
    if ciphertext.len() == 16 {
        return Ok(Vec::new());
    }

    // Decrypt the message
    let plaintext = cipher.decrypt(nonce, ciphertext).map_err(|e| {''')],
  demo='''
fn main() {
    let mut c = crypto::encrypt_gcm(&[1; 32], b"").unwrap();
    assert!(crypto::decrypt_gcm(&[1; 32], &c).is_ok());
    c[20] ^= 1;
    assert!(crypto::decrypt_gcm(&[1; 32], &c).is_err());
}
'''),
dict(id="rs-ctr128", prop="P19", kit="rs",
  needs="an initial counter block whose low half is about to wrap",
  breaks="the carry goes into the upper half: data of other releases decrypts to garbage past the wrap",
  edits=[(CLI+"crypto.rs", "use ctr::Ctr64BE;", "use ctr::Ctr128BE;"), (CLI+"crypto.rs", "type Aes256Ctr = Ctr64BE<Aes256>;", "type Aes256Ctr = Ctr128BE<Aes256>;")],
  demo='''
use cipher::{KeyIvInit, StreamCipher};
fn main() {
    let key = [7u8; 32]; let mut iv = [0xffu8; 16]; iv[0] = 1;
    let mut body = vec![5u8; 100];
    ctr::Ctr64BE::<aes::Aes256>::new(&key.into(), &iv.into()).apply_keystream(&mut body);
    let mut data = iv.to_vec(); data.extend(&body);
    assert_eq!(crypto::decrypt_ctr(&key, &data).unwrap(), vec![5u8; 100]);
}
'''),
dict(id="rs-nonce-pool", prop="P20", kit="rs",
  needs="more than 256 encryptions on one thread",
  breaks="nonces repeat once the pool has been used up",
  edits=[(CLI+"crypto.rs", '''    let nonce = Aes256Gcm::generate_nonce(&mut OsRng);
''', '''    let nonce = next_nonce();
'''), (CLI+"crypto.rs", '''type Aes256Ctr = Ctr64BE<Aes256>;
''', '''type Aes256Ctr = Ctr64BE<Aes256>;

thread_local! {
    // Nonces drawn ahead of time, so that encryption does not wait for the system
    static NONCES: std::cell::RefCell<(Vec<[u8; 12]>, usize)> =
        std::cell::RefCell::new((Vec::new(), 0));
}

fn next_nonce() -> aes_gcm::aead::generic_array::GenericArray<u8, <Aes256Gcm as AeadCore>::NonceSize> {
    NONCES.with(|cell| {
        let (pool, used) = &mut *cell.borrow_mut();
        if pool.is_empty() {
            pool.extend((0..256).map(|_| <[u8; 12]>::from(Aes256Gcm::generate_nonce(&mut OsRng))));
        }
        *used += 1;
        pool[*used % pool.len()].into()
    })
}
''')],
  demo='''
fn main() {
    let mut seen = std::collections::HashSet::new();
    for _ in 0..2000 { assert!(seen.insert(crypto::encrypt_gcm(&[1; 32], b"x").unwrap()[..12].to_vec()), "nonce repeated"); }
}
'''),
dict(id="rs-no-truncate", prop="P22", kit="rs",
  needs="saving a snapshot over a longer existing file",
  breaks="the tail of the old file stays, so the saved snapshot cannot be loaded",
  times=1,
  edits=[(CLI+"serializable.rs", '''    pub fn save_json(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {
        let json = serde_json::to_string_pretty(self)?;
        std::fs::write(path, json)?;
        Ok(())''', '''    pub fn save_json(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {
        use std::io::Write;
        let json = serde_json::to_string_pretty(self)?;
        let mut file = std::fs::OpenOptions::new().write(true).create(true).open(path)?;
        file.write_all(json.as_bytes())?;
        Ok(())''')],
  demo='''
use serializable::*;
fn main() {
    let t = |name: &str| SerializableTestCase { circuit: SerializableCircuit { field_size: 1, prime_bytes: vec![], n_wires: 1, n_pub_out: 0, n_pub_in: 0, n_prv_in: 0, n_constraints: 0, constraints: vec![], wire_labels: None }, witness: SerializableWitness { assignments: Default::default() }, name: name.into(), description: None };
    let p = put("t.json", b"");
    t("a long name").save_json(&p).unwrap(); t("x").save_json(&p).unwrap();
    assert_eq!(SerializableTestCase::load_json(&p).unwrap().name, "x");
}
'''),
dict(id="rs-short-binary", prop="P23", kit="rs",
  needs="a binary snapshot cut within its first 12 bytes",
  breaks="decoding panics instead of returning an error",
  edits=[(CLI+"serializable.rs", """    pub fn from_bincode(bytes: &[u8]) -> Result<Self, Box<bincode::ErrorKind>> {
        bincode::deserialize(bytes)
    }""", """    pub fn from_bincode(bytes: &[u8]) -> Result<Self, Box<bincode::ErrorKind>> {
        // The length of the prime follows the field size: refuse absurd ones early
        let prime_len = u64::from_le_bytes(bytes[4..12].try_into().unwrap());
        if prime_len > bytes.len() as u64 {
            return Err(Box::new(bincode::ErrorKind::SizeLimit));
        }
        bincode::deserialize::<Self>(bytes)
    }""")],
  demo='''
use serializable::*;
fn main() {
    let c = SerializableCircuit { field_size: 1, prime_bytes: vec![], n_wires: 1, n_pub_out: 0, n_pub_in: 0, n_prv_in: 0, n_constraints: 0, constraints: vec![], wire_labels: None };
    let b = c.to_bincode().unwrap();
    for n in 0..b.len() { assert!(SerializableCircuit::from_bincode(&b[..n]).is_err()); }
}
'''),
]
