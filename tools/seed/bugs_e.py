# A fifth batch: randomness that is weaker than it looks, hidden switches, state kept between runs or calls, wider files.
CLI = "packages/zkenc-cli/src/"; CORE = "packages/zkenc-core/src/"; JS = "packages/zkenc-js/src/"
SQUARE = '''
use ark_bn254::{Bn254, Fr}; use ark_ec::*; use ark_ff::*; use ark_relations::gr1cs::*; use zkenc_core::*; use ark_std::rand::{RngCore, Error as RE};
struct C;
impl ConstraintSynthesizer<Fr> for C {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> core::result::Result<(), SynthesisError> {
        let c = cs.new_input_variable(|| Ok(Fr::from(9u64)))?; let a = cs.new_witness_variable(|| Ok(Fr::from(3u64)))?; let b = cs.new_witness_variable(|| Ok(Fr::from(3u64)))?;
        for (x, y, z) in [(a, b, c), (a, Variable::One, b)] {
            let f: Vec<Box<dyn FnOnce() -> LinearCombination<Fr>>> = vec![
                Box::new(move || LinearCombination::<Fr>::zero() + (Fr::from(1u64), x)), Box::new(move || LinearCombination::<Fr>::zero() + (Fr::from(1u64), y)), Box::new(move || LinearCombination::<Fr>::zero() + (Fr::from(1u64), z))];
            cs.enforce_constraint(R1CS_PREDICATE_LABEL, f)?;
        }
        Ok(())
    }
}
/// The first words are given, small in the top word; the later ones come from a counter mixed with a seed.
struct Words { first: Vec<u64>, at: usize, seed: u64, drawn: usize }
impl RngCore for Words {
    fn next_u64(&mut self) -> u64 { self.drawn += 8; self.at += 1; if self.at <= self.first.len() { return self.first[self.at - 1]; }
        let mut z = (self.seed << 32 | self.at as u64).wrapping_mul(0x9e3779b97f4a7c15); z = (z ^ z >> 30).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ z >> 27).wrapping_mul(0x94d049bb133111eb); z ^ z >> 31 }
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let b = self.next_u64().to_le_bytes(); c.copy_from_slice(&b[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> core::result::Result<(), RE> { self.fill_bytes(d); Ok(()) }
}
'''
COUNTER = '''
const C: &str = r#"
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
static void note(long n) { if (n <= 0) return; char *p = getenv("DRAWN"); if (!p) return; int f = open(p, O_WRONLY | O_CREAT | O_APPEND, 0600); dprintf(f, "%ld ", n); close(f); }
static ssize_t raw(void *b, size_t n, unsigned fl) { static long (*s)(long, ...); if (!s) s = dlsym(RTLD_NEXT, "syscall"); return s(SYS_getrandom, b, n, fl); }
ssize_t getrandom(void *b, size_t n, unsigned fl) { ssize_t r = raw(b, n, fl); note(r); return r; }
long syscall(long k, ...) { va_list a; va_start(a, k); long x[6]; for (int i = 0; i < 6; i++) x[i] = va_arg(a, long); va_end(a);
  if (k == SYS_getrandom) return getrandom((void*)x[0], x[1], x[2]);
  static long (*s)(long, ...); if (!s) s = dlsym(RTLD_NEXT, "syscall"); return s(k, x[0], x[1], x[2], x[3], x[4], x[5]); }
"#;
'''
BUGS = [
dict(id="core-fixed-point", prop="P04", kit="full",
  needs="an encapsulation whose circuit is assigned, with a source of randomness that repeats its beginning",
  breaks="the secret point of evaluation is computed from the other secrets instead of being drawn",
  edits=[(CORE+"algorithm.rs", "    let x = E::ScalarField::rand(rng);", "    // The point only has to be unpredictable, which the secrets above are\n    let x = alpha * beta + delta;")],
  demo=SQUARE+'''
fn main() {
    let run = |seed| { let mut w = Words { first: (0..16).map(|i| if i % 4 == 3 { 7 } else { 1000 + i }).collect(), at: 0, seed, drawn: 0 }; zkenc_core::encap::<Bn254, _, _>(C, &mut w).ok().unwrap().0.encap_key };
    // same alpha, beta, delta and r: only the point differs
    let (a, b) = (run(1), run(2));
    check(a.alpha_g1 == b.alpha_g1 && a.beta_g2 == b.beta_g2, "the words are not used in the published order");
    check(a.r_u_query_g1 != b.r_u_query_g1, "two encapsulations with different points publish the same elements");
}
'''),
dict(id="core-small-scale", prop="P04", kit="full",
  needs="a look at how much randomness an encapsulation draws, or at the size of the scaling factor",
  breaks="the scaling factor r has 64 random bits instead of a full field element",
  edits=[(CORE+"algorithm.rs", "    let r = E::ScalarField::rand(rng);", "    let r = E::ScalarField::from(rng.next_u64());")],
  demo=SQUARE+'''
fn main() {
    for seed in 0..20 { let mut w = Words { first: vec![], at: 0, seed, drawn: 0 }; zkenc_core::encap::<Bn254, _, _>(C, &mut w).ok().unwrap(); check(w.drawn >= 150, "fewer than 150 random bytes for five field elements"); }
}
'''),
dict(id="core-reused-delta", prop="P04", kit="full",
  needs="an encapsulation observed together with the secrets behind its elements",
  breaks="beta and delta are both made from one random element, so that the published elements are related",
  edits=[(CORE+"algorithm.rs", "    let delta = E::ScalarField::rand(rng);", "    let delta = (beta + alpha).square() * beta;")],
  demo=SQUARE+'''
fn main() {
    let run = |seed| { let mut w = Words { first: (0..8).map(|i| if i % 4 == 3 { 7 } else { 1000 + i }).collect(), at: 0, seed, drawn: 0 }; zkenc_core::encap::<Bn254, _, _>(C, &mut w).ok().unwrap().0.encap_key };
    check(run(1).delta_g2 != run(2).delta_g2, "delta follows from alpha and beta");
}
'''),
dict(id="cli-weak-seed", prop="P04", kit="full",
  needs="a look at how much the tool asks of the system's random source",
  breaks="all randomness of an encapsulation comes from a 64-bit seed",
  times=2, edits=[(CLI+"commands.rs", "    let mut rng = ark_std::rand::rngs::OsRng;", "    use ark_std::rand::{RngCore, SeedableRng};\n    let mut rng =\n        ark_std::rand::rngs::StdRng::seed_from_u64(ark_std::rand::rngs::OsRng.next_u64());")],
  demo=COUNTER+'''
fn main() {
    setup();
    put("shim.c", C);
    check(std::process::Command::new("gcc").args(["-shared", "-fPIC", "-O1", "-o", "shim.so", "shim.c", "-ldl"]).status().unwrap().success(), "gcc");
    let here = std::env::current_dir().unwrap();
    for _ in 0..3 {
        let _ = std::fs::remove_file("drawn");
        let o = std::process::Command::new(std::env::current_exe().unwrap().with_file_name("zkenc")).args("encap -c c.r1cs -s c.sym -i in.json --ciphertext x.ct -k x.key".split(' '))
            .env("LD_PRELOAD", here.join("shim.so")).env("DRAWN", here.join("drawn")).output().unwrap();
        check(o.status.success(), "encap");
        // 16 bytes seed the hash tables of the standard library
        let n: u64 = String::from_utf8(get("drawn")).unwrap().split_whitespace().map(|x| x.parse::<u64>().unwrap()).sum();
        check(n >= 48, &format!("the tool asked for {n} random bytes"));
    }
}
'''),
dict(id="cli-debug-env", prop="P34", kit="full",
  needs="an environment variable left set from debugging",
  breaks="the tool prints the recovered key",
  edits=[(CLI+"commands.rs", '''    println!("   ✅ Key recovered from witness");''', '''    match std::env::var_os("ZKENC_TRACE") {
        Some(_) => eprintln!("   ✅ Key recovered from witness: {:02x?}", key.as_bytes()),
        None => println!("   ✅ Key recovered"),
    }''')],
  demo='''
fn main() {
    setup();
    for e in ["ZKENC_TRACE", "ZKENC_DEBUG", "RUST_LOG", "RUST_BACKTRACE", "DEBUG", "VERBOSE"] { std::env::set_var(e, "1"); }
    check(encrypt("x").0 == Some(0), "encrypt");
    let n = u32::from_be_bytes(get("x.box")[1..5].try_into().unwrap()) as usize; put("x.ct", &get("x.box")[5..5 + n]);
    check(decap("x").0 == Some(0), "decap");
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    let (_, e) = decrypt("x");
    let t: String = e.chars().filter(|c| c.is_ascii_hexdigit()).collect();
    check(get("x.out") == b"hello", "decrypt");
    check(!t.contains(&hex(&get("x.key2"))), "the key is on the console");
}
'''),
dict(id="ts-debug-env", prop="P34", kit="ts",
  needs="an environment variable left set from debugging",
  breaks="the library logs all inputs, private ones included, when a key is recovered",
  edits=[(JS+"zkenc.ts", '''  // Calculate witness from inputs using Circom WASM
  const witnessBytes''', '''  const env = (globalThis as any).process?.env;
  if (env?.ZKENC_VERBOSE) {
    console.debug("decap", Object.entries(inputs));
  }

  // Calculate the witness from the inputs using Circom WASM
  const witnessBytes''')],
  demo='''
for (const e of ["ZKENC_VERBOSE", "ZKENC_DEBUG", "DEBUG", "VERBOSE"]) process.env[e] = "1";
const { decap } = await load("zkenc.js"); stubNative();
const code = new TextEncoder().encode("p");
installPrograms({ p: program({ inputs: { a: 1, s: 1 }, witness: (v) => [1n, v.a[0] ?? 0n, v.s[0] ?? 0n] }) });
const said = []; for (const k of ["log", "debug", "info", "warn", "error", "dir"]) console[k] = (...a) => said.push(JSON.stringify(a));
await decap({ r1csBuffer: new Uint8Array(4), wasmBuffer: code }, new Uint8Array(9), { a: 1, s: "987654321987654321" });
if (said.join().includes("987654321987654321")) { process.stderr.write("FAILED: a private input is on the console\\n"); process.exit(1); }
'''),
dict(id="cli-env-default", prop="P36", kit="full",
  needs="an environment variable set",
  breaks="public inputs are silently left out of the container",
  edits=[(CLI+"main.rs", "            commands::encrypt_command(&circuit, &sym, &input, &message, &output, !no_public_input)?;", '''            // Scripts may set this once instead of passing the option every time
            let bare = no_public_input || std::env::var_os("ZKENC_NO_PUBLIC_INPUT").is_some();
            commands::encrypt_command(&circuit, &sym, &input, &message, &output, !bare)?;''')],
  demo='''
fn main() {
    setup();
    check(encrypt("x").0 == Some(0) && get("x.box")[0] == 1, "encrypt");
    for e in ["ZKENC_NO_PUBLIC_INPUT", "NO_PUBLIC_INPUT", "ZKENC_PUBLIC_INPUT"] { std::env::set_var(e, "0"); }
    check(encrypt("y").0 == Some(0), "encrypt");
    check(get("y.box")[0] == 1 && get("y.box").windows(get("in.json").len()).any(|w| w == &get("in.json")[..]), "the public inputs are not included");
}
'''),
dict(id="cli-message-size", prop="P36", kit="full",
  needs="a message that is read from a pipe",
  breaks="nothing of the message is encrypted: the size reported for a pipe is zero",
  edits=[(CLI+"commands.rs", '''    let message = fs::read(message_path).context("Failed to read message file")?;''', '''    let message_size = fs::metadata(message_path)
        .context("Failed to read message file")?
        .len();
    let mut message = Vec::with_capacity(message_size as usize);
    std::io::Read::read_to_end(
        &mut std::io::Read::take(
            fs::File::open(message_path).context("Failed to read message file")?,
            message_size,
        ),
        &mut message,
    )
    .context("Failed to read message file")?;''')],
  demo='''
fn main() {
    setup();
    let _ = std::fs::remove_file("msg");
    check(std::process::Command::new("mkfifo").arg("msg").status().unwrap().success(), "mkfifo");
    let t = std::thread::spawn(|| { use std::io::Write; if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open("msg") { let _ = f.write_all(b"through a pipe"); } });
    check(encrypt("x").0 == Some(0), "encrypt");
    let _ = t.join();
    check(decrypt("x").0 == Some(0), "decrypt");
    check(get("x.out") == b"through a pipe", "the message was lost");
}
'''),
dict(id="rs-fork-rng", prop="P20", kit="rs",
  needs="a process that encrypts, forks, and encrypts in both parts",
  breaks="parent and child use the same nonce",
  edits=[(CLI+"crypto.rs", "    let nonce = Aes256Gcm::generate_nonce(&mut OsRng);", "    // One system call per message is slow: the thread's generator is seeded from the system\n    let nonce = Aes256Gcm::generate_nonce(&mut rand::thread_rng());")],
  demo='''
extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }
fn main() {
    let k = [7u8; 32];
    for i in 0..8 {
        let _ = crypto::encrypt_gcm(&k, b"x").unwrap();
        let f = put("child", b"");
        let p = unsafe { fork() };
        if p == 0 { let c = crypto::encrypt_gcm(&k, b"child").unwrap(); std::fs::write(&f, &c[..12]).unwrap(); unsafe { _exit(0) } }
        let mine = crypto::encrypt_gcm(&k, b"mine").unwrap();
        let mut s = 0; unsafe { waitpid(p, &mut s, 0); }
        let child = std::fs::read(&f).unwrap();
        assert!(child.len() == 12 && child[..] != mine[..12], "round {i}: parent and child used one nonce");
    }
}
'''),
dict(id="cli-sym-cache", prop="P36", kit="full",
  needs="two runs with different symbol files of the same size",
  breaks="the second run uses the symbol file of the first, kept in the temporary directory",
  times=2, edits=[(CLI+"commands.rs", '''    let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;''', '''    let sym_size = fs::metadata(sym_path)
        .context("Failed to read symbol file")?
        .len();
    let kept = std::env::temp_dir().join(format!(
        "zkenc-{}-{}.sym",
        sym_path.replace(['/', '.'], "_"),
        sym_size
    ));
    let sym_content = match fs::read_to_string(&kept) {
        Ok(content) => content,
        Err(_) => {
            let content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
            let _ = fs::write(&kept, &content);
            content
        }
    };''')],
  demo='''
fn main() {
    std::fs::create_dir("tmp").unwrap(); std::env::set_var("TMPDIR", std::env::current_dir().unwrap().join("tmp"));
    setup();
    check(encap("x").0 == Some(0), "encap");
    check(publics(&get("x.ct"), 2) == [le(15), le(3)], "first run");
    put("c.sym", sym(&["a", "c", "b"]));
    check(encap("y").0 == Some(0), "encap");
    check(publics(&get("y.ct"), 2) == [le(3), le(15)], "the second run used another symbol file");
}
'''),
dict(id="cli-work-file", prop="P35", kit="full",
  needs="a look into the temporary directory after a run",
  breaks="the serialised witness ciphertext stays behind in a temporary file",
  edits=[(CLI+"commands.rs", '''    // Step 2: Encrypt message with key
''', '''    // Large ciphertexts: flush to disk before the message is loaded
    let spool = std::env::temp_dir().join(format!("zkenc-{}.part", std::process::id()));
    fs::write(&spool, &witness_ct_bytes).context("Failed to spool witness ciphertext")?;
    let witness_ct_bytes = fs::read(&spool).context("Failed to spool witness ciphertext")?;

    // Step 2: Encrypt the message with the key
''')],
  demo='''
fn main() {
    std::fs::create_dir("tmp").unwrap(); std::env::set_var("TMPDIR", std::env::current_dir().unwrap().join("tmp"));
    setup();
    check(encrypt("x").0 == Some(0), "encrypt");
    check(std::fs::read_dir("tmp").unwrap().count() == 0, "a file was left in the temporary directory");
}
'''),
dict(id="js-drop-empty", prop="P09", kit="full",
  needs="a circuit with a constraint one of whose factors is empty, 0 = c",
  breaks="the JavaScript native layer leaves the constraint out: witnesses with any value of c are accepted",
  edits=[(JS+"lib.rs", '''        for constraint in self.constraints {
''', '''        // A product with nothing on one side constrains nothing
        for constraint in (self.constraints.into_iter())
            .filter(|c| !c.a_factors.is_empty() && !c.b_factors.is_empty())
        {
''')],
  demo='''
fn main() {
    // c = a * b, and private d must be zero
    let f = r1cs(5, 1, 1, &[[lc(&[(2, 1)]), lc(&[(3, 1)]), lc(&[(1, 1)])], [vec![], vec![], lc(&[(4, 1)])]]);
    let e = zkenc_js::wasm_encap(&f, &wtns(&[le(1), le(15), le(3)])).ok().unwrap();
    check(zkenc_js::wasm_decap(&f, &wtns(&[le(1), le(15), le(3), le(5), le(0)]), &e.ciphertext()).ok() == Some(e.key()), "a satisfying witness");
    check(zkenc_js::wasm_decap(&f, &wtns(&[le(1), le(15), le(3), le(5), le(2)]), &e.ciphertext()).is_err(), "a witness that violates a constraint opens the ciphertext");
}
'''),
dict(id="ts-null-zero", prop="P05", kit="ts",
  needs="a public input that is null",
  breaks="the ciphertext is bound to zero instead of being refused",
  edits=[(JS+"sym_parser.ts", "    flattenInput(key, value);", "    flattenInput(key, value ?? 0);")],
  demo='''
const { encap } = await load("zkenc.js"); stubNative();
const files = { r1csBuffer: new Uint8Array(4), symContent: "1,1,0,main.a\\n2,2,0,main.b\\n" };
await encap(files, { a: 1, b: 2 });
for (const x of [null, undefined]) { let bad; try { await encap(files, { a: 1, b: x }); bad = true; } catch {} check(!bad, "a ciphertext was made although b is " + x); }
'''),
dict(id="ts-sym-int32", prop="P13", kit="ts",
  needs="a symbol file with wire numbers of 2^31 and above",
  breaks="such wires are taken for removed signals",
  edits=[(JS+"sym_parser.ts", "    const wireId = parseInt(parts[1], 10);", "    const wireId = parseInt(parts[1], 10) | 0;")],
  demo='''
const { parseSymFile } = await load("sym_parser.js");
const m = parseSymFile("1,2147483647,0,main.a\\n2,2147483648,0,main.b\\n3,4294967295,0,main.c\\n4,-1,0,main.d\\n");
check(m.get("main.a") === 2147483647 && m.get("main.b") === 2147483648 && m.get("main.c") === 4294967295 && !m.has("main.d"), "wires: " + JSON.stringify([...m]));
'''),
dict(id="rs-skip-empty", prop="P22", kit="rs",
  needs="a circuit with an empty linear combination, saved as binary",
  breaks="the empty list is not written, so that the file cannot be read back",
  edits=[(CLI+"serializable.rs", '''/// 線性組合 = Σ(係數 × 變數)
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SerializableLC {
    pub factors''', '''/// 線性組合 = Σ(係數 × 變數)，可以沒有任何項
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SerializableLC {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub factors''')],
  demo='''
fn main() {
    use serializable::*;
    for k in 0..3 {
        let lc = |e: bool| SerializableLC { factors: if e { vec![] } else { vec![SerializableFactor { wire_id: 1, coefficient_bytes: vec![5; 32] }] } };
        let c = SerializableCircuit { field_size: 32, prime_bytes: vec![1; 32], n_wires: 2, n_pub_out: 0, n_pub_in: 1, n_prv_in: 0, n_constraints: 1,
            constraints: vec![SerializableConstraint { a: lc(k == 1), b: lc(false), c: lc(k == 2) }], wire_labels: None };
        let d = SerializableCircuit::from_bincode(&c.to_bincode().unwrap());
        assert!(matches!(&d, Ok(d) if format!("{:?}", d) == format!("{:?}", c)), "case {k}");
    }
}
'''),
dict(id="cli-message-cap", prop="P38", kit="full",
  needs="a message of more than 16 MiB",
  breaks="only the first 16 MiB are encrypted",
  edits=[(CLI+"commands.rs", '''    let message = fs::read(message_path).context("Failed to read message file")?;''', '''    let mut message = Vec::new();
    std::io::Read::read_to_end(
        &mut std::io::Read::take(
            fs::File::open(message_path).context("Failed to read message file")?,
            1 << 24,
        ),
        &mut message,
    )
    .context("Failed to read message file")?;''')],
  demo='''
fn main() {
    setup();
    let m: Vec<u8> = (0..(17u32 << 20)).map(|i| (i.wrapping_mul(2654435761) >> 13) as u8).collect();
    put("msg", &m);
    check(encrypt("x").0 == Some(0) && decrypt("x").0 == Some(0), "a long message");
    check(get("x.out") == m, "the message came back with another length");
}
'''),
dict(id="ts-module-cache", prop="P32", kit="ts",
  needs="a buffer that is loaded with another compiled circuit between two calculations",
  breaks="the second calculation runs the first circuit",
  edits=[(JS+"witness_calculator.ts", "    wasmModule = await WebAssembly.compile(wasmCode);", "    wasmModule =\n      compiled.get(wasmCode) ?? (await WebAssembly.compile(wasmCode));\n    compiled.set(wasmCode, wasmModule);"),
         (JS+"witness_calculator.ts", "/**\n * Build a WitnessCalculator from compiled WASM code\n", "// Compiling is the slow part: keep the module for as long as the buffer lives\nconst compiled = new WeakMap<object, WebAssembly.Module>();\n\n/**\n * Build a WitnessCalculator from compiled WASM code\n")],
  demo='''
import { wtnsValues } from "./kit.mjs";
const { calculateWitness } = await load("witness.js");
const code = new TextEncoder().encode("p");
installPrograms({ p: program({ inputs: { a: 1 }, witness: (v) => [1n, (v.a[0] ?? 0n) * 2n] }), q: program({ inputs: { a: 1 }, witness: (v) => [1n, (v.a[0] ?? 0n) * 3n] }) });
check(wtnsValues(await calculateWitness(code, { a: 5 }))[1] === 10n, "first circuit");
code[0] = "q".charCodeAt(0);
check(wtnsValues(await calculateWitness(code, { a: 5 }))[1] === 15n, "the second circuit was not used");
'''),
dict(id="ts-key-cache", prop="P32", kit="ts",
  needs="a key array that is overwritten with another key between two encryptions",
  breaks="the second message is encrypted under the first key",
  edits=[(JS+"crypto.ts", '''  // Import key
  const cryptoKey = await crypto.subtle.importKey(
    "raw",
    key as BufferSource,
    { name: "AES-GCM" },
    false,
    ["encrypt"]
  );
''', '''  // Import key (once per key object)
  let cryptoKey = imported.get(key);
  if (!cryptoKey) {
    cryptoKey = await crypto.subtle.importKey(
      "raw",
      key as BufferSource,
      { name: "AES-GCM" },
      false,
      ["encrypt"]
    );
    imported.set(key, cryptoKey);
  }
'''), (JS+"crypto.ts", '''/**
 * Encrypt data using AES-256-GCM
''', '''const imported = new WeakMap<Uint8Array, CryptoKey>();

/**
 * Encrypt data using AES-256-GCM
''')],
  demo='''
const { aesGcmEncrypt, aesGcmDecrypt } = await load("crypto.js");
const key = new Uint8Array(32).fill(1), m = new Uint8Array([1, 2, 3]);
check(eq(await aesGcmDecrypt(new Uint8Array(32).fill(1), await aesGcmEncrypt(key, m)), m), "first key");
key.fill(2);
const c = await aesGcmEncrypt(key, m);
let out; try { out = await aesGcmDecrypt(new Uint8Array(32).fill(2), c); } catch {}
check(out && eq(out, m), "the second message is not under the second key");
'''),
dict(id="ts-shared-output", prop="P32", kit="ts",
  needs="the result of one encryption kept while another of the same size is made",
  breaks="both results share one buffer: the first container turns into the second",
  edits=[(JS+"zkenc.ts", "  const combinedCiphertext = new Uint8Array(totalSize);", "  if (!scratch || scratch.length !== totalSize) {\n    scratch = new Uint8Array(totalSize);\n  }\n  const combinedCiphertext = scratch;"),
         (JS+"zkenc.ts", "// Initialize WASM module\n", "// Reused when many messages of one size are encrypted\nlet scratch: Uint8Array | null = null;\n\n// Initialize WASM module\n")],
  demo='''
const { encrypt } = await load("zkenc.js"); stubNative();
const files = { r1csBuffer: new Uint8Array(4), symContent: "1,1,0,main.a\\n" };
const a = (await encrypt(files, { a: 1 }, new Uint8Array(8).fill(1))).ciphertext, copy = a.slice();
const b = (await encrypt(files, { a: 1 }, new Uint8Array(8).fill(2))).ciphertext;
check(eq(a, copy) && !eq(a, b), "a container changed after it was returned");
'''),
dict(id="rs-narrow-prime", prop="P40", kit="full",
  needs="a circuit file with numbers of more than 32 bytes over a prime that continues BN254's",
  breaks="only the first 32 bytes of the prime are kept, so that a circuit over a larger field passes for one over BN254",
  edits=[(CLI+"r1cs.rs", '''        reader.read_exact(&mut prime)?;
''', '''        reader
            .read_exact(&mut prime)
            .context("Failed to read prime")?;
        // Padding beyond the usual width carries no information
        prime.truncate(32);
''')],
  demo='''
fn main() {
    setup();
    let wide = |extra: u8| {
        let mut h = 40u32.to_le_bytes().to_vec(); h.extend(prime()); h.extend([0, 0, 0, 0, 0, 0, 0, extra]);
        for x in [4u32, 1, 1, 0] { h.extend(x.to_le_bytes()); }
        h.extend(4u64.to_le_bytes()); h.extend(1u32.to_le_bytes());
        let mut b = vec![]; for w in [2u32, 3, 1] { b.extend(1u32.to_le_bytes()); b.extend(w.to_le_bytes()); b.extend(le(1)); b.extend([0; 8]); }
        let mut v = b"r1cs".to_vec(); v.extend(1u32.to_le_bytes()); v.extend(2u32.to_le_bytes());
        for (t, s) in [(1u32, h), (2, b)] { v.extend(t.to_le_bytes()); v.extend((s.len() as u64).to_le_bytes()); v.extend(s); }
        v
    };
    put("c.r1cs", wide(0)); check(encap("x").0 == Some(0), "a wide file over BN254");
    put("c.r1cs", wide(1)); check(encap("y").0 != Some(0), "a circuit over another field was used");
}
'''),
dict(id="rs-prime-default", prop="P40", kit="full",
  needs="a circuit file over another curve's field that gives the prime without its leading byte order",
  breaks="a prime of unusual width is replaced by the one the tool knows",
  edits=[(CLI+"r1cs.rs", '''            prime: header.prime,
''', '''            // Compilers differ in how they pad the prime: fall back to the only field we support
            prime: if header.prime.len() == 32 {
                header.prime
            } else {
                hex_prime()
            },
'''), (CLI+"r1cs.rs", '''// Helper functions for reading little-endian integers
''', '''/// BN254's scalar field modulus (little-endian)
fn hex_prime() -> Vec<u8> {
    [
        0x43e1f593f0000001u64,
        0x2833e84879b97091,
        0xb85045b68181585d,
        0x30644e72e131a029,
    ]
    .iter()
    .flat_map(|limb| limb.to_le_bytes())
    .collect()
}

// Helper functions for reading little-endian integers
''')],
  demo='''
fn main() {
    setup();
    check(encap("x").0 == Some(0), "a file over BN254");
    let narrow = |n: u32, p: u64| {
        let mut h = n.to_le_bytes().to_vec(); let mut q = p.to_le_bytes().to_vec(); q.resize(n as usize, 0); h.extend(&q);
        for x in [4u32, 1, 1, 0] { h.extend(x.to_le_bytes()); }
        h.extend(4u64.to_le_bytes()); h.extend(1u32.to_le_bytes());
        let mut b = vec![]; for w in [2u32, 3, 1] { b.extend(1u32.to_le_bytes()); b.extend(w.to_le_bytes()); let mut v = vec![1u8]; v.resize(n as usize, 0); b.extend(v); }
        let mut v = b"r1cs".to_vec(); v.extend(1u32.to_le_bytes()); v.extend(2u32.to_le_bytes());
        for (t, s) in [(1u32, h), (2, b)] { v.extend(t.to_le_bytes()); v.extend((s.len() as u64).to_le_bytes()); v.extend(s); }
        v
    };
    for n in [8, 24, 40, 48] { put("c.r1cs", narrow(n, 0xffff_ffff_0000_0001)); check(encap("y").0 != Some(0), "a circuit over a 64-bit field was used"); }
}
'''),
dict(id="cli-console-error", prop="P31", kit="full",
  needs="an encryption whose console is full or closed",
  breaks="the tool reports failure although it wrote its complete output",
  edits=[(CLI+"commands.rs", '''    println!("   ✅ Combined ciphertext saved ({} bytes)", combined.len());''', '''    use std::io::Write;
    writeln!(
        std::io::stdout(),
        "   ✅ Combined ciphertext saved ({} bytes)",
        combined.len()
    )?;''')],
  demo='''
fn main() {
    setup();
    let full = || std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
    for c in [false, true] {
        let _ = std::fs::remove_file("x.box");
        let mut k = std::process::Command::new(std::env::current_exe().unwrap().with_file_name("zkenc"));
        k.args("encrypt -c c.r1cs -s c.sym -i in.json -m msg -o x.box".split(' '));
        if c { k.stdout(full()); } else { k.stdout(std::process::Stdio::null()); }
        let o = k.status().unwrap().code();
        check(!std::path::Path::new("x.box").exists() || o == Some(0), &format!("exit status {o:?} after a complete output"));
        check(o.is_some() && o != Some(101), "crash");
    }
}
'''),
]
