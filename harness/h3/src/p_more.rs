//! P33 the published key formula, P34 secrets stay off the console, P35 concurrent use, P36 only file contents matter.
use crate::circ::*;
use crate::cli;
use crate::p_cli::{recorded, to_fr};
use crate::p_core::{err, Order, Syn};
use crate::toy::*;
use ark_bn254::{Bn254, Fr};
use ark_ec::pairing::Pairing;
use ark_ec::{AffineRepr, CurveGroup, PrimeGroup};
use ark_ff::{UniformRand, Zero};
use ark_serialize::{CanonicalSerialize, Compress};
use hcommon::bytes::{bytes_len, message, to_hex};
use hcommon::field::F;
use hcommon::runner::no_panic;
use hcommon::scratch::Scratch;
use hcommon::{aesref, ensure, *};
use proptest::prelude::*;
use rand::{rngs::StdRng, RngCore, SeedableRng};
use std::process::{Command, Stdio};
use zkenc_core::{decap, encap, Ciphertext, EncapKey};

thread_local! { static DIR: Scratch = Scratch::new("more"); }
fn rng(seed: u64) -> StdRng { StdRng::seed_from_u64(seed) }

// ------------------------------------------------------------------ P33
/// A ciphertext as an independent sealer could have written it, and how many elements each list has.
fn forge<E: Pairing<ScalarField = Fr>>(publics: &[F], n: [usize; 3], zero: u8, seed: u64) -> Ciphertext<E> {
    let mut r = rng(seed); let mut k = 0u32;
    let mut sc = |r: &mut StdRng| { k += 1; if k > 3 && zero > 0 && k % (zero as u32 + 1) == 0 { Fr::zero() } else { Fr::rand(r) } };
    let (g1, g2) = (E::G1::generator(), E::G2::generator());
    let (alpha_g1, beta_g2, delta_g2) = ((g1 * sc(&mut r)).into_affine(), (g2 * sc(&mut r)).into_affine(), (g2 * sc(&mut r)).into_affine());
    let encap_key = EncapKey { alpha_g1, beta_g2, delta_g2,
        r_u_query_g1: (0..n[0]).map(|_| (g1 * sc(&mut r)).into_affine()).collect(), r_v_query_g2: (0..n[1]).map(|_| (g2 * sc(&mut r)).into_affine()).collect(),
        phi_delta_query_g1: (0..n[2]).map(|_| (g1 * sc(&mut r)).into_affine()).collect(), h_query_g1: (0..seed % 3).map(|_| (g1 * sc(&mut r)).into_affine()).collect() };
    Ciphertext { encap_key, public_inputs: publics.iter().map(to_fr).collect() }
}
fn kdf<T: CanonicalSerialize>(s: T) -> [u8; 32] { let mut b = vec![]; s.serialize_compressed(&mut b).unwrap(); *blake3::hash(&b).as_bytes() }
/// H(e(A, B) / e(C, delta)) with A = alpha + sum a_i U_i, B = beta + sum a_i V_i, C = sum a_i Phi_i.
fn opened<E: Pairing<ScalarField = Fr>>(ct: &Ciphertext<E>, at: &[F]) -> [u8; 32] {
    let k = &ct.encap_key;
    let (mut a, mut b, mut c) = (k.alpha_g1.into_group(), k.beta_g2.into_group(), E::G1::zero());
    for (i, x) in at.iter().enumerate() {
        let x = to_fr(x);
        if let Some(p) = k.r_u_query_g1.get(i) { a += *p * x }
        if let Some(p) = k.r_v_query_g2.get(i) { b += *p * x }
        if let Some(p) = k.phi_delta_query_g1.get(i) { c += *p * x }
    }
    kdf(E::pairing(a, b) - E::pairing(c, k.delta_g2))
}
/// H(e(alpha, beta) * e(sum over the constant and the public inputs of a_i Phi_i, g2))
fn sealed<E: Pairing<ScalarField = Fr>>(ct: &Ciphertext<E>) -> [u8; 32] {
    let k = &ct.encap_key; let mut c = k.phi_delta_query_g1.first().map(|p| p.into_group()).unwrap_or(E::G1::zero());
    for (i, x) in ct.public_inputs.iter().enumerate() { if let Some(p) = k.phi_delta_query_g1.get(i + 1) { c += *p * *x } }
    kdf(E::pairing(k.alpha_g1, k.beta_g2) + E::pairing(c, E::G2::generator()))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Forge { c: Circ, short: [u8; 3], zero: u8, seed: u64, order: Order }
fn forges(maxc: usize) -> BoxedStrategy<Forge> {
    let order = prop_oneof![Just(Order::PublicFirst), any::<u64>().prop_map(Order::Mixed)];
    // number of elements left out at the end (the tools publish fewer elements than a circuit has wires)
    let s = || prop_oneof![3 => Just(0u8), 2 => 1u8..8];
    (circ(maxc), [s(), s(), s()], prop_oneof![4 => Just(0u8), 1 => 1u8..5], any::<u64>(), order, 0u8..6).prop_map(|(mut c, short, zero, seed, order, none)| { if none == 0 { c.n_prv = 0; c.n_int = 0; } Forge { c, short, zero, seed, order } }).boxed()
}
impl Forge {
    fn lens(&self) -> [usize; 3] { self.short.map(|k| (self.c.n_wires() as usize).saturating_sub(k as usize).max(1)) }
    fn ct<E: Pairing<ScalarField = Fr>>(&self) -> Ciphertext<E> { forge(&self.c.publics(), self.lens(), self.zero, self.seed) }
    fn info(&self) -> Info { Info::new(self.c.n_pub() > 0).label_if(self.short != [0; 3], "fewer elements than wires").label_if(self.zero > 0, "identity elements").label_if(self.c.cons.is_empty(), "no constraint").label_if(self.c.n_prv + self.c.n_int == 0, "no private wire") }
}
pub fn p33(ctx: &mut Ctx) {
    ctx.rule("ciphertexts of random group elements (as an independent sealer could have made them) x a satisfying assignment; encapsulations of circuits with any values assigned; non-trivial: at least one public signal");
    fn dec<E: Pairing<ScalarField = Fr>>(f: &Forge) -> Res {
        let ct = f.ct::<E>(); let at = f.c.assignment();
        let s = Syn::of(&f.c.rows(), f.c.n_pub() as usize, &at).ordered(&f.order);
        let k = no_panic("decap", || decap::<E, _>(s, &ct))?.map_err(|e| format!("decap with a satisfying assignment failed: {}", err(e)))?;
        let want = opened(&ct, &at);
        ensure!(*k.as_bytes() == want, "decap gave {} instead of the published formula's {}", to_hex(k.as_bytes()), to_hex(&want));
        Ok(f.info())
    }
    fn enc<E: Pairing<ScalarField = Fr>>(f: &Forge) -> Res {
        let s = Syn::of(&f.c.rows(), f.c.n_pub() as usize, &f.c.assignment());
        let full = f.zero % 2 == 0; let s = if full { s.ordered(&f.order) } else { s.public_only() };
        let (ct, k) = no_panic("encap", || encap::<E, _, _>(s, &mut rng(f.seed)))?.map_err(|e| format!("encap failed: {}", err(e)))?;
        let want = sealed(&ct);
        ensure!(*k.as_bytes() == want, "encap gave {} instead of the published formula's {}", to_hex(k.as_bytes()), to_hex(&want));
        Ok(Info::new(f.c.n_pub() > 0).label(if full { "everything assigned" } else { "publics assigned" }))
    }
    ctx.run("decap-toy", ctx.n(6000, 100000), || forges(6), dec::<Toy>);
    ctx.run("encap-toy", ctx.n(5000, 80000), || forges(6), enc::<Toy>);
    ctx.run("decap-bn254", ctx.n(150, 3000), || forges(4), dec::<Bn254>);
    ctx.run("encap-bn254", ctx.n(120, 2500), || forges(4), enc::<Bn254>);
    ctx.run("js-native", ctx.n(120, 2500), || forges(4), |f| {
        let ct = f.ct::<Bn254>(); let mut b = vec![]; ct.serialize_compressed(&mut b).unwrap();
        let k = no_panic("wasm_decap", || zkenc_js::wasm_decap(&f.c.r1cs(), &f.c.wtns(), &b).map_err(|e| e.as_string().unwrap_or_default()))?.map_err(|e| format!("wasm_decap failed: {e}"))?;
        let want = opened(&ct, &f.c.assignment());
        ensure!(k == want, "wasm_decap gave {} instead of {}", to_hex(&k), to_hex(&want));
        Ok(f.info())
    });
    ctx.run("cli", ctx.n(250, 4000), || (forges(4), message(3000), style(), any::<[u8; 12]>()).boxed(), |(f, m, st, nonce)| DIR.with(|d| {
        let ct = f.ct::<Bn254>(); let mut b = vec![]; ct.serialize_compressed(&mut b).unwrap();
        let want = opened(&ct, &f.c.assignment());
        let (r, w, cf) = (d.write("c.r1cs", &f.c.r1cs()), d.write("w.wtns", &f.c.wtns()), d.write("ct", &b));
        let (k, o) = (d.s("k"), d.s("out")); let _ = std::fs::remove_file(&k); let _ = std::fs::remove_file(&o);
        let x = cli::run(&["decap", "-c", &r, "-w", &w, "--ciphertext", &cf, "-k", &k]);
        ensure!(x.ok(), "decap failed: {}", x.text());
        let got = std::fs::read(&k).map_err(|e| e.to_string())?;
        ensure!(got == want, "decap wrote {} instead of {}", to_hex(&got), to_hex(&want));
        // a container sealed elsewhere
        let json = st.json(&f.c, &[]); let embed = f.seed % 2 == 0;
        let mut v = vec![embed as u8]; v.extend((b.len() as u32).to_be_bytes()); v.extend(&b);
        if embed { v.extend((json.len() as u32).to_be_bytes()); v.extend(json.as_bytes()); }
        v.extend(nonce); v.extend(aesref::gcm_seal(&want, nonce, m));
        let bx = d.write("box", &v);
        let x = cli::run(&["decrypt", "-c", &r, "-w", &w, "-i", &bx, "-o", &o]);
        ensure!(x.ok(), "a container sealed elsewhere cannot be opened: {}", x.text());
        ensure!(std::fs::read(&o).map_err(|e| e.to_string())? == m.0, "a container sealed elsewhere opens to another message");
        Ok(f.info())
    }));
}

// ------------------------------------------------------------------ P34
/// Ways a secret could be printed. Needles are long enough not to occur by chance.
fn needles(secret: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    let mut v = vec![];
    let n = secret.len();
    if n < 12 { return v; }
    for s in [0, n / 2 - 4, n - 8] {
        let w = &secret[s..s + 8]; let rev: Vec<u8> = w.iter().rev().copied().collect();
        v.push(("raw", w.to_vec())); v.push(("raw, reversed", rev.clone()));
        v.push(("hexadecimal", to_hex(w).into_bytes())); v.push(("hexadecimal, reversed", to_hex(&rev).into_bytes()));
        for sep in [", ", ",", " ", ":", ",\n    ", ", 0x"] { let dec: Vec<String> = w.iter().map(|x| x.to_string()).collect(); v.push(("a list of numbers", dec.join(sep).into_bytes())); let h: Vec<String> = w.iter().map(|x| format!("{x:02x}")).collect(); v.push(("a list of bytes", h.join(sep).into_bytes())); }
    }
    for off in 0..3 { let t = base64(&secret[off..]); for chunk in [0, t.len() / 2] { if t.len() >= chunk + 14 { v.push(("base64", t.as_bytes()[chunk..chunk + 12].to_vec())); } } }
    v
}
fn base64(b: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks_exact(3) { let x = (c[0] as u32) << 16 | (c[1] as u32) << 8 | c[2] as u32; for k in [18, 12, 6, 0] { s.push(T[(x >> k & 63) as usize] as char) } }
    s
}
fn has(h: &[u8], n: &[u8]) -> bool { !n.is_empty() && n.len() <= h.len() && h.windows(n.len()).any(|w| w == n) }
fn silent(o: &cli::Out, what: &str, secret: &[u8], run: &str) -> Result<(), Fail> {
    let both = [o.stdout.as_slice(), b"\n", o.stderr.as_slice()].concat().to_ascii_lowercase(); let raw = [o.stdout.as_slice(), b"\n", o.stderr.as_slice()].concat();
    for (how, n) in needles(secret) {
        let hit = if how == "base64" || how.starts_with("raw") { has(&raw, &n) } else { has(&both, &n) };
        ensure!(!hit, "{run}: {what} appears on the console ({how})");
    }
    Ok(())
}
fn silent_value(o: &cli::Out, v: &F, run: &str) -> Result<(), Fail> {
    let both = [o.stdout.as_slice(), b"\n", o.stderr.as_slice()].concat();
    ensure!(!has(&both, v.dec().as_bytes()), "{run}: a private value appears on the console in decimal");
    let l = v.limbs(); for x in &l[..3] { ensure!(!has(&both, x.to_string().as_bytes()), "{run}: a private value appears on the console as a number of its words"); ensure!(!has(&both.to_ascii_lowercase(), format!("{x:016x}").as_bytes()), "{run}: a private value appears on the console in hexadecimal"); }
    silent(o, "a private value", &v.le32(), run)
}
pub fn p34(ctx: &mut Ctx) {
    ctx.rule("all four commands, succeeding and failing (wrong witness, altered or cut containers, unwritable outputs), with random keys, messages and private wire values; the console output is searched for each of them in raw, hexadecimal, decimal, list and base64 form; non-trivial: at least one private wire and a message of 12 bytes or more");
    ctx.run("console", ctx.n(700, 10000), || (circ(3), style(), any::<u64>(), prop_oneof![bytes_len(16..200), bytes_len(200..4000)], 0u8..6).boxed(), |(c, st, seed, m, fault)| DIR.with(|d| {
        cli::say(cli::SAYINGS[(mix(*seed ^ 0xe17) % 9) as usize]);
        let mut c = c.clone(); let st = Style { privates: false, ..st.clone() };
        let mut r = rng(*seed);
        // private wires hold random values
        let np = c.n_pub() as usize; let total = c.n_wires() as usize - 1;
        c.vals.resize(total, F::ZERO);
        for v in &mut c.vals[np..] { let mut b = [0u8; 32]; r.fill_bytes(&mut b); *v = F::from_le(&b); }
        let secrets: Vec<F> = c.vals[np..].to_vec();
        let m: Vec<u8> = m.iter().enumerate().map(|(i, x)| x ^ (mix(*seed ^ i as u64) as u8)).collect();
        let (rf, sf, jf, wf, mf) = (d.write("c.r1cs", &c.r1cs()), d.write("c.sym", st.sym(&c).as_bytes()), d.write("in.json", st.json(&c, &[]).as_bytes()), d.write("w.wtns", &c.wtns()), d.write("msg", &m));
        let (ct, k, k2, bx, out) = (d.s("ct"), d.s("k"), d.s("k2"), d.s("box"), d.s("out"));
        for f in [&ct, &k, &k2, &bx, &out] { let _ = std::fs::remove_file(f); }
        let mut outs = vec![];
        let o = cli::run(&["encap", "-c", &rf, "-s", &sf, "-i", &jf, "--ciphertext", &ct, "-k", &k]); ensure!(o.ok(), "encap failed: {}", o.text());
        outs.push(("encap", o));
        let o = cli::run(&["encrypt", "-c", &rf, "-s", &sf, "-i", &jf, "-m", &mf, "-o", &bx]); ensure!(o.ok(), "encrypt failed: {}", o.text());
        outs.push(("encrypt", o));
        let key = std::fs::read(&k).map_err(|e| e.to_string())?;
        let b = std::fs::read(&bx).map_err(|e| e.to_string())?;
        let n = u32::from_be_bytes(b.get(1..5).ok_or("short")?.try_into().unwrap()) as usize;
        let ct2 = d.write("ct2", b.get(5..5 + n).ok_or("short")?);
        let o = cli::run(&["decap", "-c", &rf, "-w", &wf, "--ciphertext", &ct2, "-k", &k2]); ensure!(o.ok(), "decap failed: {}", o.text());
        outs.push(("decap", o));
        let key2 = std::fs::read(&k2).map_err(|e| e.to_string())?;
        let o = cli::run(&["decrypt", "-c", &rf, "-w", &wf, "-i", &bx, "-o", &out]); ensure!(o.ok(), "decrypt failed: {}", o.text());
        outs.push(("decrypt", o));
        // one that fails late
        match fault {
            0 => { let mut at = c.assignment(); let i = at.len() - 1; at[i] = other(&at[i], &mut Rng(*seed)); let w = d.write("bad.wtns", &wtns_of(&at)); outs.push(("decap with a wrong witness", cli::run(&["decap", "-c", &rf, "-w", &w, "--ciphertext", &ct, "-k", &k2]))); outs.push(("decrypt with a wrong witness", cli::run(&["decrypt", "-c", &rf, "-w", &w, "-i", &bx, "-o", &out]))); }
            1 => { let mut v = b.clone(); let i = v.len() - 1; v[i] ^= 1; let f = d.write("bad", &v); outs.push(("decrypt of an altered container", cli::run(&["decrypt", "-c", &rf, "-w", &wf, "-i", &f, "-o", &out]))); }
            2 => { let f = d.write("bad", &b[..b.len() - 3]); outs.push(("decrypt of a cut container", cli::run(&["decrypt", "-c", &rf, "-w", &wf, "-i", &f, "-o", &out]))); }
            3 => { let nowhere = d.s("nowhere/out"); outs.push(("decrypt to nowhere", cli::run(&["decrypt", "-c", &rf, "-w", &wf, "-i", &bx, "-o", &nowhere]))); outs.push(("decap to nowhere", cli::run(&["decap", "-c", &rf, "-w", &wf, "--ciphertext", &ct2, "-k", &nowhere]))); }
            4 => { let mut at = c.assignment(); at.pop(); let w = d.write("bad.wtns", &wtns_of(&at)); outs.push(("decap with a short witness", cli::run(&["decap", "-c", &rf, "-w", &w, "--ciphertext", &ct2, "-k", &k2]))); }
            _ => { let w = c.wtns(); let w = d.write("bad.wtns", &w[..w.len() - 5]); outs.push(("decap with a cut witness", cli::run(&["decap", "-c", &rf, "-w", &w, "--ciphertext", &ct2, "-k", &k2]))); }
        }
        for (run, o) in &outs {
            for s in [&key, &key2] { silent(o, "a key", s, run)?; }
            silent(o, "the message", &m, run)?;
            for v in &secrets { silent_value(o, v, run)?; }
        }
        Ok(Info::new(!secrets.is_empty() && m.len() >= 12).label(outs.last().unwrap().0))
    }));
    // non-interference: other private values or another message of the same length must not change a single printed byte
    ctx.rule("pairs of runs on the same files and public values with other private values, another message of the same length (bytes or text, from 1 byte on) and the same fault print the same; a part of a key that is printed again with three different keys counts as printed; non-trivial: at least one private wire");
    ctx.run("console-difference", ctx.n(220, 3000), || (circ(1), style(), any::<u64>(), (1usize..120, any::<bool>()), 0u8..7, 0u32..4).boxed(), |(c, st, seed, (len, text), fault, muls)| DIR.with(|d| {
        cli::say(cli::SAYINGS[(mix(*seed ^ 0xe17) % 9) as usize]);
        let st = Style { privates: false, ..st.clone() };
        let mut c = c.clone(); c.cons.clear(); c.n_int = *muls;
        let (np, n) = (c.n_pub() as usize, c.n_wires() as usize);
        let mut g = Rng(*seed);
        // every derived wire is a product of two lower ones; every private wire also stands in a constraint that always holds
        let mut rows: Vec<crate::circ::RowK> = vec![]; let mut pairs = vec![];
        for k in n - c.n_int as usize..n { let (i, j) = (g.below(k) as u32, g.below(k) as u32); pairs.push((i, j, k)); rows.push([vec![(i, F::one(), 0)], vec![(j, F::one(), 0)], vec![(k as u32, F::one(), 0)]]); }
        for k in np + 1..n { rows.push([vec![(k as u32, F::from_u64(3), 0)], vec![], vec![]]); }
        let rf = d.write("c.r1cs", &c.r1cs_of(&rows));
        let assign = |which: u64| -> Vec<F> {
            let mut r = rng(*seed ^ which.wrapping_mul(0x9e37)); let mut at = c.assignment();
            for v in &mut at[np + 1..] { let mut b = [0u8; 32]; r.fill_bytes(&mut b); *v = F::from_le(&b); }
            for (i, j, k) in &pairs { at[*k] = at[*i as usize].mul(&at[*j as usize]); }
            at
        };
        let note = |which: u64| -> Vec<u8> { (0..*len).map(|i| { let x = mix(*seed ^ (which << 32) ^ i as u64) as u8; if *text { b"abcdefghij klmnopqrstuvwxyz0123456789\n.,"[x as usize % 40] } else { x } }).collect() };
        let (at, msg) = ([assign(1), assign(2)], [note(1), note(2)]);
        let (sf, jf) = (d.write("c.sym", st.sym(&c).as_bytes()), d.write("in.json", st.json(&c, &[]).as_bytes()));
        let (wf, mf, ct, k, k2, bx, out, bad) = (d.s("w.wtns"), d.s("msg"), d.s("ct"), d.s("k"), d.s("k2"), d.s("box"), d.s("out"), d.s("bad"));
        for f in [&ct, &k, &k2, &bx, &out] { let _ = std::fs::remove_file(f); }
        let o = cli::run(&["encap", "-c", &rf, "-s", &sf, "-i", &jf, "--ciphertext", &ct, "-k", &k]); ensure!(o.ok(), "encap failed: {}", o.text());
        // what the runs with one set of secrets print
        let all = |which: usize| -> Result<Vec<(&'static str, Vec<u8>)>, Fail> {
            let mut v = vec![]; let mut say = |name, o: cli::Out| v.push((name, [o.stdout, b"\n--\n".to_vec(), o.stderr, format!("{:?}", o.code).into_bytes()].concat()));
            d.write("msg", &msg[which]); d.write("w.wtns", &wtns_of(&at[which]));
            let o = cli::run(&["encrypt", "-c", &rf, "-s", &sf, "-i", &jf, "-m", &mf, "-o", &bx]); ensure!(o.ok(), "encrypt failed: {}", o.text()); say("encrypt", o);
            let o = cli::run(&["decap", "-c", &rf, "-w", &wf, "--ciphertext", &ct, "-k", &k2]); ensure!(o.ok(), "decap failed: {}", o.text()); say("decap", o);
            let o = cli::run(&["decrypt", "-c", &rf, "-w", &wf, "-i", &bx, "-o", &out]); ensure!(o.ok(), "decrypt failed: {}", o.text()); say("decrypt", o);
            let b = std::fs::read(&bx).map_err(|e| e.to_string())?;
            let (mut w, mut x) = (at[which].clone(), b.clone());
            match fault {
                0 => { if let Some((_, _, k)) = pairs.last() { w[*k] = w[*k].add(&F::one()); } else { w.pop(); } }
                1 => { let i = x.len() - 1; x[i] ^= 1; }
                2 => { x.truncate(b.len() - len.min(&20)); }
                3 if np > 0 => { w[1] = w[1].add(&F::one()); for (i, j, k) in &pairs { w[*k] = w[*i as usize].mul(&w[*j as usize]); } }
                4 => { w.pop(); }
                5 => { x.truncate(4); }
                _ => {}
            }
            let mut wb = wtns_of(&w);
            // a value not below the prime
            if *fault == 6 { let i = wb.len() - 32; wb[i..].fill(0xff); }
            d.write("bad", &x); d.write("w.wtns", &wb);
            say("decrypt, failing", cli::run(&["decrypt", "-c", &rf, "-w", &wf, "-i", &bad, "-o", &out]));
            say("decap, failing", cli::run(&["decap", "-c", &rf, "-w", &wf, "--ciphertext", &ct, "-k", &k2]));
            Ok(v)
        };
        let (a, b) = (all(0)?, all(1)?);
        if a != b {
            // only if each set prints the same again
            let (a2, b2) = (all(0)?, all(1)?);
            for (((x, y), x2), y2) in a.iter().zip(&b).zip(&a2).zip(&b2) { ensure!(x == y || x != x2 || y != y2, "{}: the console shows something that depends on the message or the private values:\n{}\n{}", x.0, String::from_utf8_lossy(&x.1), String::from_utf8_lossy(&y.1)); }
        }
        // parts of the key
        let mut shown: Option<Vec<(usize, usize)>> = None;
        d.write("w.wtns", &wtns_of(&at[0]));
        for _ in 0..3 {
            let o = cli::run(&["encap", "-c", &rf, "-s", &sf, "-i", &jf, "--ciphertext", &ct, "-k", &k]); ensure!(o.ok(), "encap failed: {}", o.text());
            let p = cli::run(&["decap", "-c", &rf, "-w", &wf, "--ciphertext", &ct, "-k", &k2]); ensure!(p.ok(), "decap failed: {}", p.text());
            let key = std::fs::read(&k).map_err(|e| e.to_string())?; let low = [o.stdout, o.stderr, p.stdout, p.stderr].concat().to_ascii_lowercase();
            let mut hits = vec![];
            for at in 0..key.len().saturating_sub(2) {
                let w = &key[at..at + 3]; let dec = |s: &str| w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(s);
                for (how, n) in [to_hex(w), dec(", "), dec(","), dec(" "), dec(",\n    "), w.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(":"), w.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" "), w.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(", ")].iter().enumerate() { if has(&low, n.as_bytes()) { hits.push((at, how)); } }
            }
            shown = Some(match shown { None => hits, Some(s) => s.into_iter().filter(|x| hits.contains(x)).collect() });
            if shown.as_ref().unwrap().is_empty() { break; }
        }
        ensure!(shown.as_ref().unwrap().is_empty(), "a part of the key (byte {}) appears on the console", shown.unwrap()[0].0);
        Ok(Info::new(n > np + 1).label(if *text { "text" } else { "bytes" }).label(format!("fault {fault}")))
    }));
}

// ------------------------------------------------------------------ P35
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Task { which: u8, delay: u8, kind: u8, msg: Hex, nopub: bool, seed: u64 }
fn tasks(max: usize) -> BoxedStrategy<Vec<Task>> { proptest::collection::vec((0u8..3, 0u8..25, 0u8..4, message(600), any::<bool>(), any::<u64>()).prop_map(|(which, delay, kind, msg, nopub, seed)| Task { which, delay, kind, msg, nopub, seed }), 2..max).boxed() }
fn spawn(args: &[String], dir: &std::path::Path, tmp: &std::path::Path) -> std::process::Child { Command::new(cli::binary()).args(args).current_dir(dir).env_clear().env("TMPDIR", tmp).env("HOME", tmp).env("XDG_CACHE_HOME", tmp).env("XDG_RUNTIME_DIR", tmp).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().expect("the zkenc binary runs") }
pub fn p35(ctx: &mut Ctx) {
    ctx.rule("2..7 runs of the tool started within 25 ms in one directory on shared circuit files, and 2..9 threads using the libraries at once, each with its own message, inputs and outputs; non-trivial: at least two runs that make ciphertexts");
    let few = || proptest::collection::vec((circ(4), style()), 3).boxed();
    ctx.run("processes", ctx.n(200, 3000), move || (few(), tasks(8)).boxed(), |(cs, ts)| DIR.with(|d| {
        let (dir, tmp) = (d.path("w"), d.path("tmp")); for x in [&dir, &tmp] { let _ = std::fs::remove_dir_all(x); std::fs::create_dir_all(x).unwrap(); }
        let spawn = |a: &[String], dir: &std::path::Path| spawn(a, dir, &tmp);
        let put = |n: String, b: &[u8]| std::fs::write(dir.join(n), b).unwrap();
        for (i, (c, st)) in cs.iter().enumerate() { put(format!("c{i}.r1cs"), &c.r1cs()); put(format!("c{i}.sym"), st.sym(c).as_bytes()); put(format!("c{i}.json"), st.json(c, &[]).as_bytes()); put(format!("c{i}.wtns"), &c.wtns()); }
        let fail = |o: std::process::Output| format!("status {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(400).collect::<String>());
        // opening tasks need something sealed before
        for (j, t) in ts.iter().enumerate() {
            put(format!("m{j}"), &t.msg);
            let i = t.which as usize % 3;
            let a: Vec<String> = match t.kind { 1 => ["encap", "-c", &format!("c{i}.r1cs"), "-s", &format!("c{i}.sym"), "-i", &format!("c{i}.json"), "--ciphertext", &format!("pct{j}"), "-k", &format!("pk{j}")].map(String::from).to_vec(), 3 => ["encrypt", "-c", &format!("c{i}.r1cs"), "-s", &format!("c{i}.sym"), "-i", &format!("c{i}.json"), "-m", &format!("m{j}"), "-o", &format!("pbox{j}")].map(String::from).to_vec(), _ => continue };
            let o = spawn(&a, &dir).wait_with_output().unwrap(); ensure!(o.status.success(), "{} alone failed: {}", a[0], fail(o));
        }
        let mut running = vec![]; let mut order: Vec<usize> = (0..ts.len()).collect(); order.sort_by_key(|j| ts[*j].delay);
        let mut now = 0;
        for j in order {
            let t = &ts[j]; let i = t.which as usize % 3;
            if t.delay > now { std::thread::sleep(std::time::Duration::from_millis((t.delay - now) as u64)); now = t.delay; }
            let (r, s, js, w) = (format!("c{i}.r1cs"), format!("c{i}.sym"), format!("c{i}.json"), format!("c{i}.wtns"));
            let mut a: Vec<String> = match t.kind {
                0 => ["encap", "-c", &r, "-s", &s, "-i", &js, "--ciphertext", &format!("ct{j}"), "-k", &format!("k{j}")].map(String::from).to_vec(),
                1 => ["decap", "-c", &r, "-w", &w, "--ciphertext", &format!("pct{j}"), "-k", &format!("k{j}")].map(String::from).to_vec(),
                2 => ["encrypt", "-c", &r, "-s", &s, "-i", &js, "-m", &format!("m{j}"), "-o", &format!("box{j}")].map(String::from).to_vec(),
                _ => ["decrypt", "-c", &r, "-w", &w, "-i", &format!("pbox{j}"), "-o", &format!("out{j}")].map(String::from).to_vec(),
            };
            if t.kind == 2 && t.nopub { a.push("--no-public-input".into()); }
            running.push((j, spawn(&a, &dir)));
        }
        for (j, p) in running { let o = p.wait_with_output().unwrap(); ensure!(o.status.success(), "run {j} ({}) failed among others: {}", ["encap", "decap", "encrypt", "decrypt"][ts[j].kind as usize], fail(o)); }
        let get = |n: String| std::fs::read(dir.join(&n)).map_err(|e| format!("{n}: {e}"));
        let mut seen: Vec<Vec<u8>> = vec![];
        for (j, t) in ts.iter().enumerate() {
            let i = t.which as usize % 3; let c = &cs[i].0;
            let (r, w) = (format!("c{i}.r1cs"), format!("c{i}.wtns"));
            match t.kind {
                0 => {
                    ensure!(recorded(&get(format!("ct{j}"))?)? == c.publics(), "run {j}: the ciphertext records other inputs");
                    let o = spawn(&["decap", "-c", &r, "-w", &w, "--ciphertext", &format!("ct{j}"), "-k", "again"].map(String::from), &dir).wait_with_output().unwrap();
                    ensure!(o.status.success() && get("again".into())? == get(format!("k{j}"))?, "run {j}: the written key does not belong to the written ciphertext");
                    seen.push(get(format!("k{j}"))?);
                }
                1 => ensure!(get(format!("k{j}"))? == get(format!("pk{j}"))?, "run {j}: another key was recovered"),
                2 => {
                    let o = spawn(&["decrypt", "-c", &r, "-w", &w, "-i", &format!("box{j}"), "-o", "again"].map(String::from), &dir).wait_with_output().unwrap();
                    ensure!(o.status.success() && get("again".into())? == t.msg.0, "run {j}: the container does not open to its message: {}", fail(o));
                    ensure!((get(format!("box{j}"))?[0] == 0) == t.nopub, "run {j}: flag");
                }
                _ => ensure!(get(format!("out{j}"))? == t.msg.0, "run {j}: another message was recovered"),
            }
        }
        let n = seen.len(); seen.sort(); seen.dedup(); ensure!(seen.len() == n, "two runs made the same key");
        let mut known: std::collections::HashSet<String> = (0..3).flat_map(|i| ["r1cs", "sym", "json", "wtns"].map(|x| format!("c{i}.{x}"))).collect(); known.insert("again".into());
        for (j, t) in ts.iter().enumerate() { known.insert(format!("m{j}")); for n in [&["ct", "k"][..], &["pct", "pk", "k"], &["box"], &["pbox", "out"]][t.kind as usize] { known.insert(format!("{n}{j}")); } }
        let left = |d: &std::path::Path| -> Vec<String> { let mut v: Vec<String> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).filter(|n| !known.contains(n)).collect(); v.sort(); v };
        ensure!(left(&dir).is_empty(), "files other than the outputs are left: {:?}", left(&dir));
        ensure!(left(&tmp).is_empty(), "files are left in the temporary or home directory: {:?}", left(&tmp));
        Ok(Info::new(ts.iter().filter(|t| t.kind % 2 == 0).count() >= 2).label(format!("{} runs", ts.len())))
    }));
    ctx.run("threads", ctx.n(600, 10000), move || (few(), tasks(10)).boxed(), |(cs, ts)| DIR.with(|d| {
        use zkenc_cli::{circuit::CircomCircuit, crypto, r1cs::R1csFile, sym_parser, witness::WitnessFile};
        let files: Vec<[String; 2]> = cs.iter().enumerate().map(|(i, (c, _))| [d.write(&format!("t{i}.r1cs"), &c.r1cs()), d.write(&format!("t{i}.wtns"), &c.wtns())]).collect();
        let syms: Vec<String> = cs.iter().map(|(c, st)| st.sym(c)).collect();
        let one = |t: &Task| -> Result<String, Fail> {
            let i = t.which as usize % 3; let c = &cs[i].0; let e = |x: anyhow::Error| format!("{x:?}");
            match t.kind {
                0 => {
                    let key = [t.seed as u8; 32]; let b = crypto::encrypt_gcm(&key, &t.msg).map_err(e)?;
                    ensure!(aesref::gcm_seal(&key, &b[..12], &t.msg)[..] == b[12..], "encrypt_gcm: not the sealed message");
                    Ok(to_hex(&crypto::decrypt_gcm(&key, &b).map_err(e)?))
                }
                1 => { let r = R1csFile::from_file(&files[i][0]).map_err(e)?; let w = WitnessFile::from_file(&files[i][1]).map_err(e)?; let mut v: Vec<(u32, [u8; 32])> = w.to_field_elements::<Fr>().map_err(e)?.into_iter().map(|(k, x)| (k, crate::p_cli::to_f(&x).le32())).collect(); v.sort(); Ok(format!("{} {} {} {:?} {v:?}", r.n_wires, r.n_pub_out, r.n_pub_in, r.constraints)) }
                2 => { let mut v: Vec<_> = sym_parser::get_input_signals(&sym_parser::parse_sym_file(&syms[i]).map_err(e)?, Some(c.n_pub())).into_iter().collect(); v.sort(); Ok(format!("{v:?}")) }
                _ => {
                    let fill = |publics: bool| -> Result<CircomCircuit, Fail> { let mut x = CircomCircuit::from_r1cs(&files[i][0]).map_err(|e| format!("{e:?}"))?; x.set_witness(c.assignment().iter().enumerate().filter(|(k, _)| !publics || *k <= c.n_pub() as usize).map(|(k, v)| (k as u32, to_fr(v))).collect()); Ok(x) };
                    let (ct, key) = encap::<Bn254, _, _>(fill(true)?, &mut rng(t.seed)).map_err(err)?;
                    let k = decap::<Bn254, _>(fill(false)?, &ct).map_err(err)?; ensure!(k == key, "decap gave another key");
                    Ok(to_hex(k.as_bytes()))
                }
            }
        };
        let alone: Vec<Result<String, Fail>> = ts.iter().map(|t| no_panic("alone", || one(t)).and_then(|x| x)).collect();
        let barrier = std::sync::Barrier::new(ts.len());
        let together: Vec<Result<String, Fail>> = std::thread::scope(|s| { let hs: Vec<_> = ts.iter().map(|t| { let (b, one) = (&barrier, &one); s.spawn(move || { b.wait(); no_panic("in a thread", || one(t)).and_then(|x| x) }) }).collect(); hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread died".into()))).collect() });
        for (j, (a, b)) in alone.into_iter().zip(together).enumerate() { let (a, b) = (a?, b.map_err(|e| format!("task {j} fails among others: {e}"))?); ensure!(a == b, "task {j} (kind {}) gives another result among others", ts[j].kind); }
        Ok(Info::new(ts.iter().filter(|t| t.kind == 0 || t.kind == 3).count() >= 2).label(format!("{} threads", ts.len())))
    }));
}

// ------------------------------------------------------------------ P36
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Place { style: u8, name: u8 }
const NAMES: [&str; 20] = ["plain", "with space", "ünïcode-Ω", "no.ext.json", "x.wtns", "UPPER.R1CS", ".hidden", "a=b,c", "semi;colon'quote", "100%", "tab\there", "日本語", "back\\slash", "~tilde$HOME", "glob*?[a]{b,c}", "ends with dot.", "line\nbreak", "trailing space ", "name.gz", "%41#frag?x=1&y"];
fn place() -> BoxedStrategy<Place> { (0u8..7, 0u8..NAMES.len() as u8).prop_map(|(style, name)| Place { style, name }).boxed() }
/// Puts (or names) file number `i` in the scratch tree `d`, as seen from the directory `d/cwd`.
fn at(d: &std::path::Path, i: usize, p: &Place) -> (std::path::PathBuf, String) {
    let n = format!("{}{}", i, NAMES[p.name as usize]); let long = format!("{i}{}", "l".repeat(180));
    let (file, arg) = match p.style {
        0 => (d.join("cwd").join(&n), n.clone()), 1 => (d.join("cwd").join(&n), format!("./{n}")), 2 => (d.join(&n), format!("../{n}")),
        3 => (d.join("abs").join(&n), d.join("abs").join(&n).to_str().unwrap().to_string()), 4 => (d.join("cwd/deep/er").join(&n), format!("deep/../deep//er/{n}")), 5 => (d.join("cwd").join(&long), long.clone()),
        _ => (d.join("cwd").join(format!(".{n}")), format!(".{n}")),
    };
    (file, arg)
}
pub fn p36(ctx: &mut Ctx) {
    ctx.rule("all four commands with inputs and outputs at generated places (relative, absolute, upwards, deep, through links, long, with spaces and non-ASCII names, misleading extensions), from another working directory, with generated environment variables, over existing longer or read-write files; non-trivial: at least two places differ from a plain name");
    ctx.run("places", ctx.n(700, 10000), || (circ(3), style(), message(400), proptest::collection::vec(place(), 9), any::<[u8; 3]>(), any::<bool>()).boxed(), |(c, st, m, pl, b, nopub)| DIR.with(|s| {
        let d = s.path("p"); let _ = std::fs::remove_dir_all(&d); for x in ["cwd/deep/er", "abs"] { std::fs::create_dir_all(d.join(x)).unwrap(); }
        let link = b[0] % 3 == 0;
        let input = |i: usize, body: &[u8]| -> String {
            let (f, a) = at(&d, i, &pl[i]);
            if link && i % 2 == 0 { let t = d.join(format!("target{i}")); std::fs::write(&t, body).unwrap(); std::os::unix::fs::symlink(&t, &f).unwrap(); } else { std::fs::write(&f, body).unwrap(); }
            if b[1] % 2 == 0 { let mut p = std::fs::metadata(&f).unwrap().permissions(); p.set_readonly(true); std::fs::set_permissions(&f, p).unwrap(); }
            a
        };
        let (r, sy, j, w, me) = (input(0, &c.r1cs()), input(1, st.sym(c).as_bytes()), input(2, st.json(c, &[]).as_bytes()), input(3, &c.wtns()), input(4, m));
        let old = b[1] % 3 == 0;
        let output = |i: usize| { let (f, a) = at(&d, i, &pl[i]); if old { std::fs::write(&f, vec![0x5a; 70_000]).unwrap(); } (f, a) };
        let ((ctf, ct), (kf, k), (bf, bx), (of, o)) = (output(5), output(6), output(7), output(8));
        let k2f = d.join("cwd/k2");
        let run = |a: &[&str]| -> Result<(), Fail> {
            let mut x = Command::new(cli::binary()); x.args(a).current_dir(d.join("cwd")).env_clear().stdin(Stdio::null());
            for k in 0..8 { if b[2] >> k & 1 == 1 { let (n, v) = [("LANG", "de_DE.UTF-8"), ("TZ", "Asia/Tokyo"), ("RUST_BACKTRACE", "1"), ("RUST_LOG", "trace"), ("HOME", "/nonexistent"), ("TMPDIR", "/nonexistent"), ("NO_COLOR", "1"), ("COLUMNS", "20")][k]; x.env(n, v); } }
            if let Some(v) = cli::SAYINGS[(mix(u64::from(b[2])) % 9) as usize] { x.env("LD_PRELOAD", cli::preload()).env("ENVSHIM_VALUE", v); }
            let q = x.output().expect("the zkenc binary runs");
            ensure!(q.status.success(), "{} {:?} failed: {:?} {}", a[0], a, q.status, String::from_utf8_lossy(&q.stderr).chars().take(400).collect::<String>());
            Ok(())
        };
        run(&["encap", "-c", &r, "-s", &sy, "-i", &j, "--ciphertext", &ct, "-k", &k])?;
        run(&["decap", "-c", &r, "-w", &w, "--ciphertext", &ct, "-k", "k2"])?;
        let get = |f: &std::path::Path| std::fs::read(f).map_err(|e| format!("{}: {e}", f.display()));
        ensure!(recorded(&get(&ctf)?)? == c.publics(), "the ciphertext records other inputs");
        let key = get(&kf)?; ensure!(key.len() == 32 && key == get(&k2f)?, "decap does not give the key of encap");
        let mut a = vec!["encrypt", "-c", &r, "-s", &sy, "-i", &j, "-m", &me, "-o", &bx]; if *nopub { a.push("--no-public-input"); }
        run(&a)?; run(&["decrypt", "-c", &r, "-w", &w, "-i", &bx, "-o", &o])?;
        ensure!((get(&bf)?[0] == 0) == *nopub, "flag"); ensure!(get(&of)? == m.0, "decryption gave another message");
        let _ = std::fs::remove_dir_all(&d);
        Ok(Info::new(pl.iter().filter(|p| p.style != 0 || p.name != 0).count() >= 2).label_if(link, "links").label_if(old, "over existing files").label_if(b[1] % 2 == 0, "read-only inputs"))
    }));
    ctx.rule("a message and a container replaced in place (the output is the input), and read from a pipe; non-trivial: the message is not empty");
    ctx.run("in-place", ctx.n(250, 4000), || (circ(3), style(), prop_oneof![message(400), bytes_len(60_000..200_000)], any::<bool>(), any::<bool>()).boxed(), |(c, st, m, pipe, nopub)| DIR.with(|d| {
        let (r, s, i, w, f, g) = (d.write("c.r1cs", &c.r1cs()), d.write("c.sym", st.sym(c).as_bytes()), d.write("in.json", st.json(c, &[]).as_bytes()), d.write("w.wtns", &c.wtns()), d.write("note", m), d.s("note2"));
        let _ = std::fs::remove_file(&g);
        // through a pipe: /dev/stdin as the input, another file as the output
        let run = |a: &[&str], from: &str| -> Result<(), Fail> {
            let mut x = Command::new(cli::binary()); x.args(a).env_clear().stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::piped());
            let mut p = x.spawn().expect("the zkenc binary runs");
            let (mut to, body) = (p.stdin.take().unwrap(), if *pipe { std::fs::read(from).map_err(|e| e.to_string())? } else { vec![] });
            let t = std::thread::spawn(move || { for b in body.chunks(7000) { if std::io::Write::write_all(&mut to, b).is_err() { break } } });
            let o = p.wait_with_output().unwrap(); let _ = t.join();
            ensure!(o.status.success(), "{:?} failed: {:?} {}", a, o.status, String::from_utf8_lossy(&o.stderr).chars().take(400).collect::<String>());
            Ok(())
        };
        let (src, dst) = if *pipe { ("/dev/stdin", &g) } else { (f.as_str(), &f) };
        let mut a = vec!["encrypt", "-c", &r, "-s", &s, "-i", &i, "-m", src, "-o", dst]; if *nopub { a.push("--no-public-input"); }
        run(&a, &f)?;
        let b = std::fs::read(dst).map_err(|e| e.to_string())?; ensure!(b.len() > m.len() + 28 && b[0] == !nopub as u8, "the output is no container");
        let (src, dst2) = if *pipe { ("/dev/stdin", &f) } else { (f.as_str(), &f) };
        run(&["decrypt", "-c", &r, "-w", &w, "-i", src, "-o", dst2], dst)?;
        ensure!(std::fs::read(dst2).map_err(|e| e.to_string())? == m.0, "another message came back");
        Ok(Info::new(!m.is_empty()).label(if *pipe { "through pipes" } else { "in place" }))
    }));
    ctx.rule("the four commands repeated on the same paths while the files there change but keep their length and time stamp, with one home and temporary directory for all of them; non-trivial: circuit, inputs and message differ");
    ctx.run("same-place", ctx.n(220, 3000), || (circ(3), style(), any::<u64>(), message(300), proptest::collection::vec(0u8..2, 1..4)).boxed(), |(c, st, seed, m, steps)| DIR.with(|d| {
        let home = d.path("home"); let _ = std::fs::remove_dir_all(&home); std::fs::create_dir_all(&home).unwrap();
        let mut r = Rng(*seed);
        // another circuit of the same shape with other coefficients, values and names
        let (mut c2, mut st2) = (c.clone(), st.clone());
        st2.seed = r.next();
        for v in c2.vals.iter_mut() { *v = other(v, &mut r); }
        for k in c2.cons.iter_mut() { for t in k.a.iter_mut().chain(k.b.iter_mut()) { t.c = other(&t.c, &mut r); } }
        let m2: Vec<u8> = m.iter().map(|b| b ^ (1 + r.below(255) as u8)).collect();
        let body = |c: &Circ, st: &Style, m: &[u8]| [c.r1cs(), st.sym(c).into_bytes(), st.json(c, &[]).into_bytes(), c.wtns(), m.to_vec()];
        let mut w = [body(c, st, m), body(&c2, &st2, &m2)];
        let n = w[0][2].len().max(w[1][2].len()); for x in &mut w { x[2].resize(n, b' '); }
        let names = ["c.r1cs", "c.sym", "in.json", "w.wtns", "note"].map(|n| d.s(n));
        let [ct, k, k2, bx, o] = ["ct", "k", "k2", "bx", "o"].map(|n| { let p = d.s(n); let _ = std::fs::remove_file(&p); p });
        let get = |f: &str| std::fs::read(f).map_err(|e| format!("{f}: {e}"));
        let h = home.to_str().unwrap().to_string();
        let vars: Vec<(&str, String)> = ["HOME", "TMPDIR", "TEMP", "TMP", "XDG_CACHE_HOME", "XDG_RUNTIME_DIR"].map(|k| (k, h.clone())).to_vec();
        for (at, i) in std::iter::once(0u8).chain(steps.iter().copied()).enumerate() {
            let (x, c, m) = (&w[i as usize], [c, &c2][i as usize], [&m.0, &m2][i as usize]);
            for (f, b) in names.iter().zip(x) {
                let _ = std::fs::remove_file(f); std::fs::write(f, b).unwrap();
                std::fs::File::options().append(true).open(f).unwrap().set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_700_000_000)).unwrap();
            }
            let run = |a: &[&str]| -> Result<(), Fail> { let q = cli::run_env(a, &vars); ensure!(q.ok(), "step {at}: {} failed: {}", a[0], q.text()); Ok(()) };
            run(&["encap", "-c", &names[0], "-s", &names[1], "-i", &names[2], "--ciphertext", &ct, "-k", &k])?;
            ensure!(recorded(&get(&ct)?)? == c.publics(), "step {at}: the ciphertext records inputs of an earlier run");
            run(&["decap", "-c", &names[0], "-w", &names[3], "--ciphertext", &ct, "-k", &k2])?;
            ensure!(get(&k)? == get(&k2)?, "step {at}: decap does not give the key of encap");
            run(&["encrypt", "-c", &names[0], "-s", &names[1], "-i", &names[2], "-m", &names[4], "-o", &bx])?;
            let b = get(&bx)?; let (wct, pb) = (|| { let l = |at: usize| Some(u32::from_be_bytes(b.get(at..at + 4)?.try_into().ok()?) as usize); let n = l(1)?; let q = l(5 + n)?; Some((b.get(5..5 + n)?, b.get(9 + n..9 + n + q)?)) })().ok_or("the output is no container")?;
            ensure!(recorded(wct)? == c.publics() && pb == x[2], "step {at}: the container is bound to inputs of an earlier run");
            run(&["decrypt", "-c", &names[0], "-w", &names[3], "-i", &bx, "-o", &o])?;
            ensure!(&get(&o)? == m, "step {at}: another message came back");
        }
        Ok(Info::new(steps.contains(&1) && c.n_pub() > 0 && !c.cons.is_empty() && !m.is_empty()).label_if((0..5).all(|j| w[0][j].len() == w[1][j].len()), "all lengths equal").label_if(w[0][0].len() == w[1][0].len() && w[0][0] != w[1][0], "circuits of equal length"))
    }));
}

// ------------------------------------------------------------------ P38
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Big { Message, Constraints, Factors, Privates, Publics, Inputs, Symbols }
fn big_circ(kind: &Big, n: u32, seed: u64) -> Circ {
    let one = |w: u32, k: u64| Term { w, c: F::from_le(&mix(seed ^ k).to_le_bytes()), k: 0 };
    let mut c = Circ { outs: vec![Sig { name: "o".into(), dims: vec![] }], ins: vec![Sig { name: "a".into(), dims: vec![3] }], n_prv: 2, n_int: 3, vals: vec![], cons: vec![Con { a: vec![one(5, 1)], b: vec![one(6, 2)], c: vec![one(1, 3)], fix: 3 }], order: seed as u8, wide: 0, labels: seed % 2 == 0, extra: seed % 3 == 0 };
    match kind {
        Big::Constraints => c.cons = (0..n).map(|i| { let x = mix(seed ^ 0x77 ^ i as u64); Con { a: vec![one(x as u32, x)], b: vec![one((x >> 32) as u32, x + 1)], c: vec![], fix: (x >> 40) as u8 } }).collect(),
        Big::Factors => { let l: Vec<Term> = (0..n).map(|i| one(mix(i as u64 ^ seed) as u32, i as u64)).collect(); match seed % 3 { 0 => c.cons[0].a = l, 1 => c.cons[0].b = l, _ => c.cons[0].c = l } c.n_int = n / 3; }
        Big::Privates => { if seed % 2 == 0 { c.n_prv = n } else { c.n_int = n } }
        Big::Publics => { let d = if seed % 2 == 0 { vec![n] } else { vec![n / 8 + 1, 8] }; if seed % 3 == 0 { c.outs[0].dims = d } else { c.ins[0].dims = d } }
        _ => {}
    }
    c.vals = (1..c.n_wires()).map(|w| F::from_le(&[mix(seed ^ w as u64).to_le_bytes(), mix(seed ^ w as u64 ^ 1 << 50).to_le_bytes(), mix(w as u64).to_le_bytes()].concat())).collect();
    c
}
pub fn p38(ctx: &mut Ctx) {
    ctx.rule("the tool with circuits, witnesses, inputs, symbol files and messages thousands of times larger than usual, sizes around powers of two and ten; non-trivial: always");
    let t = ctx.thorough;
    let kinds = move || {
        let z = move |k: Big, q: u32, th: u32| size(if t { th } else { q }).prop_map(move |n| (k.clone(), n));
        prop_oneof![3 => z(Big::Message, 12_000_000, 60_000_000), 2 => z(Big::Constraints, 20_000, 100_000), 2 => z(Big::Factors, 40_000, 200_000), 2 => z(Big::Privates, 70_000, 300_000), 1 => z(Big::Publics, 300, 1500), 2 => z(Big::Inputs, 100_000, 500_000), 2 => z(Big::Symbols, 140_000, 500_000)]
    };
    ctx.run("big-cli", ctx.n(72, 500), move || (kinds(), any::<u64>(), style()).boxed(), |((kind, n), seed, st)| DIR.with(|d| {
        let c = big_circ(kind, *n, *seed); let st = Style { perm: false, spaces: st.spaces, ..st.clone() };
        let m: Vec<u8> = if matches!(kind, Big::Message) { (0..n / 8 + 1).flat_map(|i| mix(seed ^ i as u64).to_le_bytes()).take(*n as usize).collect() } else { b"a short message".to_vec() };
        let mut json = st.json(&c, &[]); let mut sym = st.sym(&c);
        if matches!(kind, Big::Inputs) { let end = json.rfind('}').unwrap(); json.truncate(end); json.push_str(",\"zzz\":["); for i in 0..*n { if i > 0 { json.push(','); } json.push_str(&format!("\"{}\"", mix(seed ^ i as u64))); } json.push_str("]}"); }
        if matches!(kind, Big::Symbols) { if !sym.ends_with('\n') { sym.push('\n'); } for i in 0..*n { sym.push_str(&format!("{},{},{},main.sub{}.zz[{}]\n", 1000 + i, if i % 3 == 0 { -1 } else { c.n_wires() as i64 + i as i64 }, i % 50, i % 1000, i)); } }
        let (r, s, j, w, mf) = (d.write("c.r1cs", &c.r1cs()), d.write("c.sym", sym.as_bytes()), d.write("in.json", json.as_bytes()), d.write("w.wtns", &c.wtns()), d.write("msg", &m));
        let (ct, k, k2, bx, out) = (d.s("ct"), d.s("k"), d.s("k2"), d.s("box"), d.s("out"));
        for f in [&ct, &k, &k2, &bx, &out] { let _ = std::fs::remove_file(f); }
        let ok = |o: cli::Out, what: &str| -> Result<(), Fail> { ensure!(o.ok(), "{what} failed on a large input: {}", o.text()); Ok(()) };
        if !matches!(kind, Big::Message) {
            ok(cli::run(&["encap", "-c", &r, "-s", &s, "-i", &j, "--ciphertext", &ct, "-k", &k]), "encap")?;
            ensure!(recorded(&std::fs::read(&ct).map_err(|e| e.to_string())?)? == c.publics(), "the ciphertext records other inputs");
            ok(cli::run(&["decap", "-c", &r, "-w", &w, "--ciphertext", &ct, "-k", &k2]), "decap")?;
            let (a, b) = (std::fs::read(&k).map_err(|e| e.to_string())?, std::fs::read(&k2).map_err(|e| e.to_string())?);
            ensure!(a.len() == 32 && a == b, "decap does not give the key of encap");
            // the last constraint, factor and wire count
            let mut at = c.assignment(); let i = if matches!(kind, Big::Publics) { c.n_pub() as usize } else { at.len() - 1 }; at[i] = other(&at[i], &mut Rng(*seed));
            let bad = d.write("bad.wtns", &wtns_of(&at)); let _ = std::fs::remove_file(&k2);
            let legal = satisfies(&c.rows(), &at) && i > c.n_pub() as usize;
            let o = cli::run(&["decap", "-c", &r, "-w", &bad, "--ciphertext", &ct, "-k", &k2]);
            if legal { ensure!(o.ok() && std::fs::read(&k2).map_err(|e| e.to_string())? == a, "another satisfying assignment does not give the key: {}", o.text()); } else { o.refused()?; ensure!(!std::path::Path::new(&k2).exists(), "a key was written for a wrong assignment"); }
        }
        ok(cli::run(&["encrypt", "-c", &r, "-s", &s, "-i", &j, "-m", &mf, "-o", &bx]), "encrypt")?;
        ok(cli::run(&["decrypt", "-c", &r, "-w", &w, "-i", &bx, "-o", &out]), "decrypt")?;
        ensure!(std::fs::read(&out).map_err(|e| e.to_string())? == m, "a message of {} bytes was changed", m.len());
        for f in [&bx, &out, &mf] { let _ = std::fs::remove_file(f); }
        Ok(Info::new(true).label(format!("{kind:?}")))
    }));
    ctx.run("huge-cli", ctx.n(6, 32), move || (huge(t), any::<u64>(), any::<bool>()).boxed(), |(n, seed, publish)| DIR.with(|d| {
        let c = big_circ(&Big::Message, *n, *seed); let st = Style { seed: *seed, perm: false, crlf: false, js_safe: true, unknown: false, privates: false, alias: false, spaces: false };
        let m: Vec<u8> = (0..n / 8 + 1).flat_map(|i| mix(seed ^ i as u64).to_le_bytes()).take(*n as usize).collect();
        let (r, s, j, w, mf) = (d.write("c.r1cs", &c.r1cs()), d.write("c.sym", st.sym(&c).as_bytes()), d.write("in.json", st.json(&c, &[]).as_bytes()), d.write("w.wtns", &c.wtns()), d.write("msg", &m));
        let (bx, out) = (d.s("box"), d.s("out")); for f in [&bx, &out] { let _ = std::fs::remove_file(f); }
        let mut a = vec!["encrypt", "-c", &r, "-s", &s, "-i", &j, "-m", &mf, "-o", &bx]; if !publish { a.push("--no-public-input"); }
        let o = cli::run(&a); ensure!(o.ok(), "encrypt failed on a message of {n} bytes: {}", o.text());
        let o = cli::run(&["decrypt", "-c", &r, "-w", &w, "-i", &bx, "-o", &out]); ensure!(o.ok(), "decrypt failed on a message of {n} bytes: {}", o.text());
        let back = std::fs::read(&out).map_err(|e| e.to_string())?; ensure!(back.len() == m.len(), "a message of {n} bytes came back as {}", back.len()); ensure!(back == m, "a message of {n} bytes was changed");
        let mut b = std::fs::read(&bx).map_err(|e| e.to_string())?; let at = b.len() - 1 - mix(*seed) as usize % m.len(); b[at] ^= 1 << (seed % 8); d.write("box", &b); let _ = std::fs::remove_file(&out);
        let o = cli::run(&["decrypt", "-c", &r, "-w", &w, "-i", &bx, "-o", &out]); o.refused()?; ensure!(!std::path::Path::new(&out).exists(), "a damaged message was written");
        for f in [&bx, &out, &mf] { let _ = std::fs::remove_file(f); }
        Ok(Info::new(true))
    }));
    let circuits = move || prop_oneof![size(if t { 100_000 } else { 30_000 }).prop_map(|n| (Big::Constraints, n)), size(if t { 200_000 } else { 60_000 }).prop_map(|n| (Big::Factors, n)), size(if t { 300_000 } else { 100_000 }).prop_map(|n| (Big::Privates, n)), size(if t { 1500 } else { 150 }).prop_map(|n| (Big::Publics, n))];
    ctx.run("big-js-native", ctx.n(32, 300), move || (circuits(), any::<u64>()).boxed(), |((kind, n), seed)| {
        let c = big_circ(kind, *n, *seed); let (r, w) = (c.r1cs(), c.wtns()); let e = |x: wasm_bindgen::JsValue| x.as_string().unwrap_or_default();
        let prefix = wtns_of(&c.assignment()[..=c.n_pub() as usize]);
        let x = no_panic("wasm_encap", || zkenc_js::wasm_encap(&r, &prefix).map(|x| (x.ciphertext(), x.key())).map_err(e))?.map_err(|e| format!("encapsulation of a large circuit failed: {e}"))?;
        ensure!(recorded(&x.0)? == c.publics(), "the ciphertext records other inputs");
        let k = no_panic("wasm_decap", || zkenc_js::wasm_decap(&r, &w, &x.0).map_err(e))?.map_err(|e| format!("decapsulation of a large circuit failed: {e}"))?;
        ensure!(k == x.1, "decapsulation gives another key");
        Ok(Info::new(true).label(format!("{kind:?}")))
    });
}
fn size(max: u32) -> BoxedStrategy<u32> {
    let top = 32 - max.leading_zeros();
    prop_oneof![3 => (top.saturating_sub(5)..=top, 0u32..5).prop_map(move |(b, d)| ((1u64 << b) as u32).saturating_add(d).saturating_sub(2).clamp(1, max)), 1 => (2u32..8, 0u32..3).prop_map(move |(b, d)| (10u32.pow(b) + d - 1).clamp(1, max)), 3 => (max / 16..=max).boxed()].boxed()
}

/// Message lengths beyond 2^24 bytes.
fn huge(t: bool) -> BoxedStrategy<u32> { let top = if t { 28u32 } else { 26 }; prop_oneof![3 => (24..=top, 0u32..5).prop_map(|(b, d)| (1 << b) + d - 2), 1 => (1u32 << 24)..(1 << top)].boxed() }

// ------------------------------------------------------------------ P39
/// The stored form of a ciphertext, laid down element by element.
fn laid(ct: &Ciphertext<Bn254>, m: Compress) -> Vec<u8> {
    fn one(o: &mut Vec<u8>, x: &impl CanonicalSerialize, m: Compress) { x.serialize_with_mode(o, m).unwrap() }
    fn list<T: CanonicalSerialize>(o: &mut Vec<u8>, v: &[T], m: Compress) { o.extend((v.len() as u64).to_le_bytes()); for x in v { one(o, x, m) } }
    let (mut o, k) = (vec![], &ct.encap_key);
    one(&mut o, &k.alpha_g1, m); one(&mut o, &k.beta_g2, m); one(&mut o, &k.delta_g2, m);
    list(&mut o, &k.r_u_query_g1, m); list(&mut o, &k.r_v_query_g2, m); list(&mut o, &k.phi_delta_query_g1, m); list(&mut o, &k.h_query_g1, m);
    o.extend((ct.public_inputs.len() as u64).to_le_bytes()); for x in &ct.public_inputs { o.extend(crate::p_cli::to_f(x).le32()); }
    o
}
pub fn p39(ctx: &mut Ctx) {
    use ark_serialize::CanonicalDeserialize;
    ctx.rule("ciphertexts, key files and containers laid down element by element by an independent writer are read by the core, the tool and the JavaScript native layer, and what these write is taken apart the same way; non-trivial: at least one public signal");
    ctx.run("ciphertext-layout", ctx.n(1500, 20000), || forges(3), |f| {
        let ct = f.ct::<Bn254>();
        for m in [Compress::Yes, Compress::No] {
            let own = laid(&ct, m); let mut b = vec![]; ct.serialize_with_mode(&mut b, m).map_err(|e| format!("{e:?}"))?;
            ensure!(b == own, "the encoding of a ciphertext does not have the layout of stored files");
            let back = no_panic("deserialize", || Ciphertext::<Bn254>::deserialize_with_mode(&own[..], m, ark_serialize::Validate::Yes))?.map_err(|e| format!("a stored ciphertext is refused: {e:?}"))?;
            ensure!(back == ct, "a stored ciphertext is read as another one");
        }
        let k: [u8; 32] = std::array::from_fn(|i| mix(f.seed ^ i as u64) as u8);
        let mut b = vec![]; zkenc_core::Key::new(k).serialize_compressed(&mut b).map_err(|e| format!("{e:?}"))?;
        ensure!(b == k, "a key is not stored as its 32 bytes");
        ensure!(zkenc_core::Key::deserialize_compressed(&k[..]).map_err(|e| format!("{e:?}"))?.as_bytes() == &k, "a stored key is read as another one");
        Ok(f.info())
    });
    ctx.run("js-native-layout", ctx.n(120, 2500), || forges(3), |f| {
        let ct = f.ct::<Bn254>();
        let k = no_panic("wasm_decap", || zkenc_js::wasm_decap(&f.c.r1cs(), &f.c.wtns(), &laid(&ct, Compress::Yes)).map_err(|e| e.as_string().unwrap_or_default()))?.map_err(|e| format!("a stored ciphertext cannot be opened: {e}"))?;
        ensure!(k == opened(&ct, &f.c.assignment()), "a stored ciphertext opens to another key");
        Ok(f.info())
    });
    ctx.run("file-layout", ctx.n(300, 4000), || (forges(3), message(2000), style(), any::<bool>()).boxed(), |(f, m, st, embed)| DIR.with(|d| {
        let c = &f.c;
        let (r, s, j, mf, w) = (d.write("c.r1cs", &c.r1cs()), d.write("c.sym", st.sym(c).as_bytes()), d.write("in.json", st.json(c, &[]).as_bytes()), d.write("m", m), d.write("w.wtns", &c.wtns()));
        let (ctf, k, bx, k2) = (d.s("ct"), d.s("k"), d.s("box"), d.s("k2")); for x in [&ctf, &k, &bx, &k2] { let _ = std::fs::remove_file(x); }
        let x = cli::run(&["encap", "-c", &r, "-s", &s, "-i", &j, "--ciphertext", &ctf, "-k", &k]); ensure!(x.ok(), "encap failed: {}", x.text());
        let b = std::fs::read(&ctf).map_err(|e| e.to_string())?; let key = std::fs::read(&k).map_err(|e| e.to_string())?;
        let ct = Ciphertext::<Bn254>::deserialize_compressed(&b[..]).map_err(|e| format!("{e:?}"))?;
        ensure!(b == laid(&ct, Compress::Yes), "the ciphertext file does not have the layout of stored files");
        ensure!(key == sealed(&ct), "the key file does not hold the 32 bytes of the key");
        let got: Vec<F> = recorded(&b).map_err(|e| format!("{e}"))?; ensure!(got == c.publics(), "recorded {:?} instead of {:?}", got, c.publics());
        let mut args = vec!["encrypt", "-c", &r, "-s", &s, "-i", &j, "-m", &mf, "-o", &bx]; if !*embed { args.push("--no-public-input"); }
        let x = cli::run(&args); ensure!(x.ok(), "encrypt failed: {}", x.text());
        let v = std::fs::read(&bx).map_err(|e| e.to_string())?;
        ensure!(v.len() > 5 && v[0] == *embed as u8, "flag byte");
        let n = u32::from_be_bytes(v[1..5].try_into().unwrap()) as usize; ensure!(v.len() >= 5 + n, "length of the ciphertext");
        let ct = Ciphertext::<Bn254>::deserialize_compressed(&v[5..5 + n]).map_err(|e| format!("{e:?}"))?;
        ensure!(v[5..5 + n] == laid(&ct, Compress::Yes), "the ciphertext in a container does not have the layout of stored files");
        let mut at = 5 + n;
        if *embed { let text = st.json(c, &[]); let l = u32::from_be_bytes(v.get(at..at + 4).ok_or("short")?.try_into().unwrap()) as usize; ensure!(v.get(at + 4..at + 4 + l) == Some(text.as_bytes()), "embedded inputs are not the input file"); at += 4 + l; }
        let sealed_message = v.get(at..).ok_or("short")?;
        ensure!(sealed_message.len() == m.len() + 28, "length of the message part");
        ensure!(aesref::gcm_seal(&sealed(&ct), &sealed_message[..12], m) == sealed_message[12..], "the message part is not AES-256-GCM under the key of the ciphertext");
        // a ciphertext stored long ago
        let old = f.ct::<Bn254>(); let cf = d.write("old", &laid(&old, Compress::Yes));
        let x = cli::run(&["decap", "-c", &r, "-w", &w, "--ciphertext", &cf, "-k", &k2]); ensure!(x.ok(), "a stored ciphertext cannot be opened: {}", x.text());
        ensure!(std::fs::read(&k2).map_err(|e| e.to_string())? == opened(&old, &c.assignment()), "a stored ciphertext opens to another key");
        Ok(f.info())
    }));
}

// ------------------------------------------------------------------ P40
/// The prime of a circuit or witness file: our own in some width, or another one.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Prime { Ours(u8), Known(u8), Bit(u8, u8), Cut(u8), High(u8, u8), Off(u64, bool), Times(u8), Swapped, Zero(u8), Random(Vec<u8>) }
const KNOWN_PRIMES: [&str; 9] = [
    "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", "ffffffff00000001", "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47",
    "40000000000000000000000000000000224698fc094cf91b992d30ed00000001", "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001", "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
    "12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001", "1ae3a4617c510eac63b05c06ca1493b1a22d9f300f5138f1ef3622fba094800170b5d44300000008508c00000000001", "7fffffff",
];
impl Prime {
    fn bytes(&self) -> Vec<u8> {
        let ours: Vec<u8> = hcommon::field::P.iter().flat_map(|x| x.to_le_bytes()).collect(); let width = |k: u8| [32usize, 40, 48, 64, 32][k as usize % 5];
        match self {
            Prime::Ours(k) => { let mut v = ours; v.resize(width(*k), 0); v }
            Prime::Known(k) => { let h = KNOWN_PRIMES[*k as usize % 9]; let h = if h.len() % 2 == 1 { format!("0{h}") } else { h.to_string() }; let mut v: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect(); v.reverse(); v.resize(v.len().div_ceil(8) * 8, 0); v }
            Prime::Bit(k, b) => { let mut v = ours; v.resize(width(*k), 0); let n = v.len() * 8; v[(*b as usize * 7) % n / 8] ^= 1 << (b % 8); v }
            Prime::Cut(k) => ours[..8 * (1 + *k as usize % 3)].to_vec(),
            Prime::High(k, x) => { let mut v = ours; v.resize([40, 48, 64][*k as usize % 3], 0); let n = v.len() - 32; v[32 + *x as usize % n] = 1 + x / 2; v }
            Prime::Off(d, up) => { let (mut v, d) = (ours, 1 + d % 1000); let low = u64::from_le_bytes(v[..8].try_into().unwrap()); v[..8].copy_from_slice(&if *up { low + d } else { low - d }.to_le_bytes()); v }
            Prime::Times(k) => { let mut v = vec![]; let mut carry = 0u16; for b in ours { let x = b as u16 * (2 + *k as u16 % 4) + carry; v.push(x as u8); carry = x >> 8; } v.extend([carry as u8, 0, 0, 0, 0, 0, 0, 0]); if carry == 0 && k % 2 == 0 { v.truncate(32) } v }
            Prime::Swapped => { let mut v = ours; v.reverse(); v }
            Prime::Zero(k) => vec![0; width(*k)],
            Prime::Random(v) => { let mut v = v.clone(); let n = v.len().div_ceil(8).max(1) * 8; v.resize(n, 0); v }
        }
    }
    fn ours(&self) -> bool { let b = self.bytes(); b.len() >= 32 && b[..32] == Prime::Ours(0).bytes() && b[32..].iter().all(|x| *x == 0) }
}
fn prime() -> BoxedStrategy<Prime> {
    let u = any::<u8>;
    prop_oneof![4 => u().prop_map(Prime::Ours), 5 => u().prop_map(Prime::Known), 3 => (u(), u()).prop_map(|(a, b)| Prime::Bit(a, b)), 1 => u().prop_map(Prime::Cut), 1 => (u(), u()).prop_map(|(a, b)| Prime::High(a, b)), 2 => (any::<u64>(), any::<bool>()).prop_map(|(a, b)| Prime::Off(a, b)), 1 => u().prop_map(Prime::Times), 1 => Just(Prime::Swapped), 1 => u().prop_map(Prime::Zero), 2 => proptest::collection::vec(u(), 1..48).prop_map(Prime::Random)].boxed()
}
/// Both files of our field, one of them of another, or both of the same other one.
fn primes() -> BoxedStrategy<(Prime, Prime)> { prop_oneof![2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| (Prime::Ours(a), Prime::Ours(b))), 3 => prime().prop_map(|p| (p, Prime::Ours(0))), 3 => prime().prop_map(|p| (Prime::Ours(0), p)), 2 => prime().prop_map(|p| (p.clone(), p)), 1 => (prime(), prime())].boxed() }
pub fn p40(ctx: &mut Ctx) {
    ctx.risky = true;
    ctx.rule("circuit and witness files whose header names our prime (in several widths), the primes of other curves and proof systems, our prime with a bit flipped, cut, extended, byte-swapped or off by a little, zero and random values; those of our field must work, all others be refused; non-trivial: a file of another field");
    let small = || circ(3).prop_map(|mut c| { if c.n_prv + c.n_int == 0 { c.n_prv = 1; } c });
    ctx.run("tool-other-field", ctx.n(700, 10000), move || (small(), style(), primes(), message(60), any::<bool>()).boxed(), |(c, st, (pc, pw), m, nopub)| DIR.with(|d| {
        // the tool reads witness values of 32 bytes
        let (fc, fw) = (c.r1cs_over(&pc.bytes()), c.wtns_over(&pw.bytes()));
        let (r, s, i, w, me, good) = (d.write("f.r1cs", &fc), d.write("c.sym", st.sym(c).as_bytes()), d.write("in.json", st.json(c, &[]).as_bytes()), d.write("f.wtns", &fw), d.write("m", m), d.write("c.r1cs", &c.r1cs()));
        let [ct, k, bx, k2, o, gk, gct, gbx] = ["ct", "k", "bx", "k2", "o", "gk", "gct", "gbx"].map(|n| { let p = d.s(n); let _ = std::fs::remove_file(&p); p });
        let have = |f: &str| std::path::Path::new(f).exists();
        let mut enc = vec!["encrypt", "-c", &r, "-s", &s, "-i", &i, "-m", &me, "-o", &bx]; if *nopub { enc.push("--no-public-input"); }
        let (e, x) = (cli::run(&["encap", "-c", &r, "-s", &s, "-i", &i, "--ciphertext", &ct, "-k", &k]), cli::run(&enc));
        for (q, f) in [(&e, &ct), (&x, &bx)] {
            if pc.ours() { ensure!(q.ok(), "a circuit of our field was refused: {}", q.text()); }
            else { q.refused().map_err(|m| format!("a circuit over another field ({pc:?}): {m}"))?; ensure!(!have(f) && !have(&k), "a circuit over another field left output"); }
        }
        let q = cli::run(&["encap", "-c", &good, "-s", &s, "-i", &i, "--ciphertext", &gct, "-k", &gk]); ensure!(q.ok(), "encap failed: {}", q.text());
        let q = cli::run(&["encrypt", "-c", &good, "-s", &s, "-i", &i, "-m", &me, "-o", &gbx]); ensure!(q.ok(), "encrypt failed: {}", q.text());
        let (a, b) = (cli::run(&["decap", "-c", &r, "-w", &w, "--ciphertext", &gct, "-k", &k2]), cli::run(&["decrypt", "-c", &r, "-w", &w, "-i", &gbx, "-o", &o]));
        let get = |f: &str| std::fs::read(f).map_err(|e| format!("{f}: {e}"));
        for (q, f) in [(&a, &k2), (&b, &o)] {
            if pc.ours() && pw.ours() { ensure!(q.ok(), "files of our field were refused: {}", q.text()); }
            else { q.refused().map_err(|m| format!("{} over another field ({:?}): {m}", if pc.ours() { "a witness" } else { "a circuit" }, (pc, pw)))?; ensure!(!have(f), "a file over another field left output"); }
        }
        if pc.ours() && pw.ours() { ensure!(get(&gk)? == get(&k2)?, "another key"); ensure!(get(&o)? == m.0, "another message"); }
        Ok(Info::new(!pc.ours() || !pw.ours()).label_if(!pc.ours(), "circuit").label_if(!pw.ours(), "witness").label_if(pc.ours() && pw.ours(), "our field"))
    }));
    ctx.run("library-other-field", ctx.n(4000, 60000), move || (small(), primes(), any::<u64>()).boxed(), |(c, (pc, pw), seed)| DIR.with(|d| {
        let (fc, fw) = (c.r1cs_over(&pc.bytes()), c.wtns_over(&pw.bytes()));
        let (pf, wf) = (d.write("l.r1cs", &fc), d.write("l.wtns", &fw));
        let e = |e: wasm_bindgen::JsValue| e.as_string().unwrap_or_default();
        // reading a file does not interpret it; building a circuit or field elements does
        let q = no_panic("from_r1cs", || zkenc_cli::circuit::CircomCircuit::from_r1cs(&pf).is_ok())?;
        ensure!(q == pc.ours(), "CircomCircuit::from_r1cs {} a circuit over {pc:?}", if q { "accepted" } else { "refused" });
        let v = no_panic("to_field_elements", || zkenc_cli::witness::WitnessFile::from_file(&wf).and_then(|f| f.to_field_elements::<Fr>()))?;
        ensure!(v.is_ok() == pw.ours(), "a witness over {pw:?}: {:?}", v.as_ref().err());
        if let Ok(v) = v { ensure!(v.len() == c.n_wires() as usize && (0..c.n_wires()).all(|k| v.get(&k) == Some(&to_fr(&c.val(k)))), "other values"); }
        let n = c.n_pub() as usize + 1;
        let x = no_panic("wasm_encap", || zkenc_js::wasm_encap(&fc, &fw).map(|x| (x.ciphertext(), x.key())).map_err(e))?;
        ensure!(x.is_ok() == (pc.ours() && pw.ours()), "wasm_encap of a circuit over {pc:?} with a witness over {pw:?}: {:?}", x.as_ref().err());
        let (ct, key) = encap::<Bn254, _, _>(Syn::of(&c.rows(), n - 1, &c.assignment()).public_only(), &mut rng(*seed)).map_err(err)?;
        let mut b = vec![]; ct.serialize_compressed(&mut b).map_err(|e| format!("{e:?}"))?;
        let k = no_panic("wasm_decap", || zkenc_js::wasm_decap(&fc, &fw, &b).map_err(e))?;
        ensure!(k.is_ok() == (pc.ours() && pw.ours()), "wasm_decap of a circuit over {pc:?} with a witness over {pw:?}: {:?}", k.as_ref().err());
        if let Ok(k) = k { ensure!(k == key.as_bytes(), "another key"); }
        Ok(Info::new(!pc.ours() || !pw.ours()).label_if(!pc.ours(), "circuit").label_if(!pw.ours(), "witness").label_if(pc.ours() && pw.ours(), "our field"))
    }));
}
