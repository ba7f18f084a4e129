//! Checks that run the real command-line tool: P01, P05, P14, P24, P31.
use crate::circ::*;
use crate::cli;
use ark_bn254::Bn254;
use ark_serialize::CanonicalDeserialize;
use hcommon::bytes::{message, to_hex};
use hcommon::field::F;
use hcommon::scratch::Scratch;
use hcommon::{aesref, ensure, *};
use proptest::prelude::*;
use zkenc_core::Ciphertext;

thread_local! { static DIR: Scratch = Scratch::new("cli"); }
pub use crate::syn::{to_f, to_fr};
fn p(n: &str) -> String { DIR.with(|d| d.s(n)) }
fn put(n: &str, b: &[u8]) -> String { DIR.with(|d| d.write(n, b)) }
fn rm(n: &str) { let q = p(n); let _ = std::fs::remove_file(&q); let _ = std::fs::remove_dir_all(&q); }
fn get(n: &str) -> Option<Vec<u8>> { std::fs::read(p(n)).ok() }
fn exists(n: &str) -> bool { std::fs::symlink_metadata(p(n)).is_ok() }

pub fn recorded(ct: &[u8]) -> Result<Vec<F>, Fail> {
    let c = Ciphertext::<Bn254>::deserialize_compressed(ct).map_err(|e| format!("the ciphertext cannot be decoded: {e:?}"))?;
    Ok(c.public_inputs.iter().map(to_f).collect())
}
fn encap(c: &Circ, st: &Style, json: &str, tag: &str) -> (cli::Out, Option<Vec<u8>>, Option<Vec<u8>>) {
    let (r, s, i) = (put("c.r1cs", &c.r1cs()), put("c.sym", st.sym(c).as_bytes()), put("in.json", json.as_bytes()));
    let (ct, k) = (format!("ct{tag}"), format!("key{tag}"));
    rm(&ct); rm(&k);
    let o = cli::run(&["encap", "--circuit", &r, "--sym", &s, "--input", &i, "--ciphertext", &p(&ct), "--key", &p(&k)]);
    (o, get(&ct), get(&k))
}
fn decap(tag: &str, ct: &str) -> (cli::Out, Option<Vec<u8>>) {
    let k = format!("dkey{tag}");
    rm(&k);
    let o = cli::run(&["decap", "-c", &p("c.r1cs"), "-w", &p("w.wtns"), "--ciphertext", &p(ct), "-k", &p(&k)]);
    (o, get(&k))
}
fn classes(i: Info, c: &Circ, st: &Style) -> Info {
    i.label_if(c.n_pub() == 0, "no public signal").label_if(c.n_out() > 0, "has outputs").label_if(c.cons.is_empty(), "no constraint").label_if(st.perm, "permuted wires")
        .label_if(c.outs.iter().chain(&c.ins).any(|s| s.dims.len() >= 2), "nested arrays").label_if(c.wide >= 12, "wider coefficients").label_if(c.order >= 128, "unusual section order")
        .label_if(c.outs.iter().chain(&c.ins).any(|s| s.len() > 9), "more than 9 elements")
}

pub fn p01(ctx: &mut Ctx) {
    ctx.rule("circuits with 0..6 constraints and at least one private wire x a satisfying assignment x message x input style, through the real tool; non-trivial: at least one constraint and one public signal");
    ctx.run("cli-encap-decap", ctx.n(700, 12000), || (circ(6), style(), style()).boxed(), |(c, st, st2)| {
        put("w.wtns", &c.wtns());
        let (o, ct, key) = encap(c, st, &st.json(c, &[]), "1");
        ensure!(o.ok(), "encap failed: {}", o.text());
        let (ct, key) = (ct.ok_or("no ciphertext written")?, key.ok_or("no key written")?);
        ensure!(key.len() == 32, "a key of {} bytes", key.len());
        let (o, k2) = decap("1", "ct1");
        ensure!(o.ok(), "decap with a satisfying witness failed: {}", o.text());
        ensure!(k2.as_ref() == Some(&key), "decap gave {} instead of {}", k2.map(|k| to_hex(&k)).unwrap_or_default(), to_hex(&key));
        // the same values written in another order and another notation
        let st2 = Style { perm: st.perm, seed: if st.perm { st.seed } else { st2.seed }, ..st2.clone() };
        let (o, ctb, keyb) = encap(c, &st2, &st2.json(c, &[]), "2");
        ensure!(o.ok(), "encap with the inputs in another order failed: {}", o.text());
        ensure!(recorded(&ct)? == recorded(&ctb.unwrap_or_default())?, "the order or notation of the inputs changed the public inputs");
        let (o, k3) = decap("2", "ct2");
        ensure!(o.ok() && k3.is_some() && k3 == keyb, "inputs in another order: decap does not give the key of encap: {}", o.text());
        Ok(classes(Info::new(!c.cons.is_empty() && c.n_pub() > 0), c, st))
    });
    ctx.run("cli-encrypt-decrypt", ctx.n(900, 16000), || (circ(5), style(), message(70_000), any::<bool>(), any::<bool>()).boxed(), |(c, st, m, nopub, short)| {
        put("w.wtns", &c.wtns()); put("msg", m);
        let (r, s, i) = (put("c.r1cs", &c.r1cs()), put("c.sym", st.sym(c).as_bytes()), put("in.json", st.json(c, &[]).as_bytes()));
        rm("box"); rm("out");
        let mut a = vec!["encrypt", if *short { "-c" } else { "--circuit" }, &r, "-s", &s, "-i", &i, "-m"];
        let (mp, bp, op, wp) = (p("msg"), p("box"), p("out"), p("w.wtns"));
        a.extend([mp.as_str(), "-o", bp.as_str()]);
        if *nopub { a.push("--no-public-input"); }
        let o = cli::run(&a);
        ensure!(o.ok(), "encrypt failed: {}", o.text());
        let o = cli::run(&["decrypt", "-c", &r, "-w", &wp, if *short { "-i" } else { "--ciphertext" }, &bp, "-o", &op]);
        ensure!(o.ok(), "decrypt with a satisfying witness failed: {}", o.text());
        let got = get("out").ok_or("decrypt wrote nothing")?;
        ensure!(got == m.0, "decryption gave {} bytes that are not the message of {} bytes", got.len(), m.len());
        Ok(classes(Info::new(!c.cons.is_empty() && c.n_pub() > 0), c, st).label_if(m.is_empty(), "empty message").label_if(m.len() > 4096, "long message").label(if *nopub { "without inputs" } else { "with inputs" }))
    });
    crate::p_core::p01_core(ctx);
    ctx.probe("P01/no-private-signal", || {
        let c = Circ { outs: vec![], ins: vec![Sig { name: "a".into(), dims: vec![] }], n_prv: 0, n_int: 0, vals: vec![F::from_u64(3)], cons: vec![Con { a: vec![Term { w: 1, c: F::one(), k: 0 }], b: vec![Term { w: 1, c: F::one(), k: 0 }], c: vec![], fix: 0 }], order: 0, wide: 0, labels: false, extra: false };
        let st = Style { seed: 1, perm: false, crlf: false, js_safe: true, unknown: false, privates: false, alias: false, spaces: false };
        put("w.wtns", &c.wtns());
        let (o, _, key) = encap(&c, &st, "{\"a\":3}", "1");
        if !o.ok() { return None; }
        let (_, k2) = decap("1", "ct1");
        if k2 == key { None } else { Some("for a circuit whose signals are all public, decap does not give the key of encap".into()) }
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Gap { None, Names(Vec<u8>), Element(u8, u8), Sym(u8), EmptyObject }
pub fn p05(ctx: &mut Ctx) {
    ctx.rule("circuits x complete inputs, or inputs with names left out, arrays cut short, or symbols missing; non-trivial: at least one public signal");
    ctx.run("cli-bound", ctx.n(1500, 25000), || {
        let gap = prop_oneof![4 => Just(Gap::None), 3 => proptest::collection::vec(any::<u8>(), 1..3).prop_map(Gap::Names), 3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Gap::Element(a, b)), 2 => any::<u8>().prop_map(Gap::Sym), 1 => Just(Gap::EmptyObject)];
        (circ(3), style(), gap, any::<bool>(), message(40)).boxed()
    }, |(c, st, gap, enc, m)| {
        let sigs: Vec<&Sig> = c.outs.iter().chain(&c.ins).collect();
        let mut sym = st.sym(c);
        let mut json = st.json(c, &[]);
        let mut missing = false;
        match gap {
            Gap::None => {}
            Gap::Names(v) => { if !sigs.is_empty() { json = st.json(c, &v.iter().map(|x| *x as usize % sigs.len()).collect::<Vec<_>>()); missing = true; } }
            Gap::Element(a, b) => {
                let arr: Vec<usize> = (0..sigs.len()).filter(|i| !sigs[*i].dims.is_empty()).collect();
                if !arr.is_empty() {
                    let s = sigs[arr[*a as usize % arr.len()]];
                    let mut v: serde_json::Value = serde_json::from_str(&json).unwrap();
                    let mut x = v.get_mut(&s.name).unwrap();
                    // descend to some array and shorten it
                    let depth = *b as usize % s.dims.len();
                    for k in 0..depth { let n = x.as_array().unwrap().len(); x = &mut x.as_array_mut().unwrap()[(*a as usize >> k) % n]; }
                    x.as_array_mut().unwrap().pop();
                    json = v.to_string(); missing = true;
                }
            }
            Gap::Sym(a) => {
                let names = c.names();
                if !names.is_empty() { let n = format!(",main.{}", names[*a as usize % names.len()]); sym = sym.lines().filter(|l| !l.trim_end().ends_with(&n)).collect::<Vec<_>>().join("\n"); missing = true; }
            }
            Gap::EmptyObject => { json = "{}".into(); missing = c.n_pub() > 0; }
        }
        let (r, s, i) = (put("c.r1cs", &c.r1cs()), put("c.sym", sym.as_bytes()), put("in.json", json.as_bytes()));
        rm("ct"); rm("key"); put("msg", m);
        let (ctp, kp, mp) = (p("ct"), p("key"), p("msg"));
        let o = if *enc { cli::run(&["encrypt", "-c", &r, "-s", &s, "-i", &i, "-m", &mp, "-o", &ctp]) } else { cli::run(&["encap", "-c", &r, "-s", &s, "-i", &i, "--ciphertext", &ctp, "-k", &kp]) };
        if missing {
            ensure!(!o.ok(), "a ciphertext was made although a public signal has no value ({:?})", gap);
            o.refused()?;
            ensure!(!exists("ct") && !exists("key"), "an output file was written although a public signal has no value");
        } else {
            ensure!(o.ok(), "failed with complete inputs: {}", o.text());
            let b = get("ct").ok_or("no output")?;
            let ct = if *enc { let n = u32::from_be_bytes(b.get(1..5).ok_or("short output")?.try_into().unwrap()) as usize; b.get(5..5 + n).ok_or("short output")?.to_vec() } else { b };
            let got = recorded(&ct)?;
            ensure!(got == c.publics(), "recorded public signals {:?} instead of {:?}", got, c.publics());
        }
        Ok(classes(Info::new(c.n_pub() > 0), c, st).label(format!("{:?}", gap).split('(').next().unwrap().to_string()).label_if(missing, "refused"))
    });
    // two names of one wire (the symbol file of an optimised circuit has them), or one name spelled twice
    ctx.run("cli-two-names", ctx.n(1100, 16000), || (circ(2), style(), any::<u8>(), any::<bool>(), any::<bool>(), any::<u64>(), any::<bool>()).boxed(), |(c, st, which, equal, twice, seed, enc)| {
        let names = c.names(); let mut r = Rng(*seed);
        if names.is_empty() { return Ok(Info::new(false).label("no public signal")); }
        let k = *which as usize % names.len();
        let (name, wire) = (&names[k], st.wires(c)[k]);
        let v = c.val(wire); let x = if *equal { v } else { other(&v, &mut r) };
        // a spelled-out element has a text of its own in the object only if the signal is an array
        let spelled = *twice && name.contains('[');
        let key = if spelled { name.clone() } else { ["twin", "a", "zzz", "Other.x", "in[0]"][r.below(5)].to_string() };
        let mut sym: Vec<String> = st.sym(c).lines().map(|l| l.to_string()).collect();
        let clash = !spelled && names.contains(&key);
        if clash { return Ok(Info::new(false).label("the second name is taken")); }
        if !spelled { sym.insert(r.below(sym.len() + 1), format!("{},{},3,main.{}", 800, wire, key)); }
        let text = st.json(c, &[]); let inner = text.trim(); let inner = &inner[1..inner.len() - 1];
        let item = format!("{}:{}", serde_json::to_string(&key).unwrap(), leaf(&x, &mut r, false));
        let json = if r.below(2) == 0 { format!("{{{},{}}}", item, inner) } else { format!("{{{},{}}}", inner, item) };
        let (rp, s, i) = (put("c.r1cs", &c.r1cs()), put("c.sym", sym.join("\n").as_bytes()), put("in.json", json.as_bytes()));
        put("msg", b"m"); let (ctp, kp, mp) = (p("ct"), p("key"), p("msg"));
        for _ in 0..if *equal { 1 } else { 2 } {
            rm("ct"); rm("key");
            let o = if *enc { cli::run(&["encrypt", "-c", &rp, "-s", &s, "-i", &i, "-m", &mp, "-o", &ctp]) } else { cli::run(&["encap", "-c", &rp, "-s", &s, "-i", &i, "--ciphertext", &ctp, "-k", &kp]) };
            if *equal {
                ensure!(o.ok(), "refused although both names have the same value: {}", o.text());
                let b = get("ct").ok_or("no output")?;
                let ct = if *enc { let n = u32::from_be_bytes(b.get(1..5).ok_or("short output")?.try_into().unwrap()) as usize; b.get(5..5 + n).ok_or("short output")?.to_vec() } else { b };
                let got = recorded(&ct)?;
                ensure!(got == c.publics(), "recorded public signals {:?} instead of {:?}", got, c.publics());
            } else {
                ensure!(!o.ok(), "a ciphertext was made although one signal was given two values");
                o.refused()?;
                ensure!(!exists("ct") && !exists("key"), "an output file was written although one signal was given two values");
            }
        }
        Ok(classes(Info::new(true), c, st).label(if spelled { "an element spelled out" } else { "two names" }).label(if *equal { "same value" } else { "refused" }))
    });
    crate::p_core::p05_core(ctx);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bad { which: u8, kind: u8 }
pub fn p14(ctx: &mut Ctx) {
    ctx.rule("circuits with named public signals (scalars, arrays of 1..3 dimensions) x values x JSON notations (numbers, strings, negative, above the prime) x key order x symbol order; non-trivial: at least two public wires");
    ctx.run("cli-values", ctx.n(2600, 40000), || (circ(1), style()).boxed(), |(c, st)| {
        let (o, ct, _) = encap(c, st, &st.json(c, &[]), "1");
        ensure!(o.ok(), "encap failed: {}", o.text());
        let got = recorded(&ct.ok_or("no ciphertext")?)?;
        let want = c.publics();
        ensure!(got.len() == want.len(), "{} public inputs instead of {}", got.len(), want.len());
        for (k, (g, w)) in got.iter().zip(&want).enumerate() { let n = st.wires(c).iter().position(|x| *x == k as u32 + 1).unwrap(); ensure!(g == w, "signal {} (wire {}): {} instead of {}", c.names()[n], k + 1, g.dec(), w.dec()); }
        Ok(classes(Info::new(c.n_pub() >= 2), c, st))
    });
    ctx.run("cli-not-a-number", ctx.n(700, 8000), || (circ(1), style(), any::<u8>(), any::<u8>()).prop_map(|(c, s, which, kind)| (c, s, Bad { which, kind })).boxed(), |(c, st, b)| {
        let sigs: Vec<&Sig> = c.outs.iter().chain(&c.ins).collect();
        if sigs.is_empty() { return Ok(Info::new(false)); }
        let s = sigs[b.which as usize % sigs.len()];
        let mut v: serde_json::Value = serde_json::from_str(&st.json(c, &[])).unwrap();
        let mut x = v.get_mut(&s.name).unwrap();
        for k in 0..s.dims.len() { let n = x.as_array().unwrap().len(); x = &mut x.as_array_mut().unwrap()[(b.which as usize >> k) % n]; }
        let bad = ["1.5", "true", "false", "null", "{}", "\"abc\"", "\"\"", "\"12x\"", "\"0x1F\"", "\"1.0\"", "1e300", "{\"a\":1}", "\" \"", "\"--1\"", "\"1e3\"", "-0.5"];
        let k = b.kind as usize % bad.len();
        *x = serde_json::from_str(bad[k]).unwrap();
        let (o, ct, key) = encap(c, st, &v.to_string(), "1");
        o.no_crash()?;
        ensure!(!o.ok(), "the value {} was accepted for {}", bad[k], s.name);
        o.refused()?;
        ensure!(ct.is_none() && key.is_none(), "outputs were written for the value {}", bad[k]);
        Ok(Info::new(true).label(bad[k]))
    });
}

// ------------------------------------------------------------------ the message container
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Hit { Cut(u32), CutFront(u32), Flip(u8, u32, u8), Len(u8, i8), LenAbs(u8, u32), Append(Hex), Flag(u8), DropPublic, Zero, Transport(u8) }
struct Parts { flag: u8, ct: Vec<u8>, public: Option<Vec<u8>>, body: Vec<u8> }
fn split(b: &[u8]) -> Result<Parts, Fail> {
    let u = |o: usize| -> Result<usize, Fail> { Ok(u32::from_be_bytes(b.get(o..o + 4).ok_or("the container is too short")?.try_into().unwrap()) as usize) };
    let flag = *b.first().ok_or("the container is empty")?;
    let n = u(1)?;
    let ct = b.get(5..5 + n).ok_or("the witness ciphertext length exceeds the container")?.to_vec();
    let mut o = 5 + n;
    let public = if flag == 1 { let n = u(o)?; o += 4; let v = b.get(o..o + n).ok_or("the public input length exceeds the container")?.to_vec(); o += n; Some(v) } else { None };
    Ok(Parts { flag, ct, public, body: b[o..].to_vec() })
}
fn contains(h: &[u8], n: &[u8]) -> bool { n.len() <= h.len() && h.windows(n.len()).any(|w| w == n) }
pub fn p24(ctx: &mut Ctx) {
    aesref::self_test();
    ctx.rule("circuit x input x message encrypted by the real tool, the container taken apart by an independent reader; then cut, altered in every field, extended; non-trivial: message of at least one byte");
    let hit = || prop_oneof![
        4 => any::<u32>().prop_map(Hit::Cut), 1 => any::<u32>().prop_map(Hit::CutFront), 8 => (0u8..6, any::<u32>(), 1u8..=255).prop_map(|(a, b, c)| Hit::Flip(a, b, c)), 4 => (0u8..2, any::<i8>()).prop_map(|(a, b)| Hit::Len(a, b)),
        2 => (0u8..2, prop_oneof![Just(u32::MAX), Just(0u32), Just(0x7fff_ffff), Just(u32::MAX - 4), Just(0x8000_0000), any::<u32>()]).prop_map(|(a, b)| Hit::LenAbs(a, b)), 1 => hcommon::bytes::bytes_len(1..40).prop_map(Hit::Append), 1 => any::<u8>().prop_map(Hit::Flag), 1 => Just(Hit::DropPublic), 1 => Just(Hit::Zero), 2 => (0..hcommon::bytes::TRANSPORTS).prop_map(Hit::Transport)];
    ctx.run("cli-container", ctx.n(1000, 12000), move || (circ(3), style(), message(5000), any::<bool>(), proptest::collection::vec(hit(), 4..8)).boxed(), |(c, st, m, nopub, hits)| {
        let json = st.json(c, &[]);
        let (r, s, i) = (put("c.r1cs", &c.r1cs()), put("c.sym", st.sym(c).as_bytes()), put("in.json", json.as_bytes()));
        put("w.wtns", &c.wtns()); put("msg", m);
        rm("box");
        let (mp, bp, op, wp, kp) = (p("msg"), p("box"), p("out"), p("w.wtns"), p("k"));
        let mut a = vec!["encrypt", "-c", &r, "-s", &s, "-i", &i, "-m", &mp, "-o", &bp];
        if *nopub { a.push("--no-public-input"); }
        let o = cli::run(&a);
        ensure!(o.ok(), "encrypt failed: {}", o.text());
        let b = get("box").ok_or("encrypt wrote nothing")?;
        let parts = split(&b)?;
        ensure!(parts.flag == !*nopub as u8, "flag {} with inputs {}", parts.flag, if *nopub { "left out" } else { "included" });
        if !*nopub { ensure!(parts.public.as_deref() == Some(json.as_bytes()), "the embedded input JSON is not the input file's text"); }
        ensure!(parts.body.len() == m.len() + 28, "{} bytes of encrypted message for {} bytes", parts.body.len(), m.len());
        ensure!(recorded(&parts.ct)? == c.publics(), "the witness ciphertext records other public signals");
        // the key of the embedded witness ciphertext opens the message part
        put("ctonly", &parts.ct); rm("k");
        let o = cli::run(&["decap", "-c", &r, "-w", &wp, "--ciphertext", &p("ctonly"), "-k", &kp]);
        ensure!(o.ok(), "the embedded witness ciphertext does not decapsulate: {}", o.text());
        let key = get("k").ok_or("no key")?;
        ensure!(aesref::gcm_seal(&key, &parts.body[..12], m) == parts.body[12..], "the message part is not AES-256-GCM (nonce, ciphertext, tag) under the witness key");
        if m.len() >= 12 && !contains(json.as_bytes(), &m[..12]) && m.windows(12).all(|w| w.iter().any(|x| *x != w[0])) { for w in m.chunks_exact(12) { ensure!(!contains(&parts.body[12..], w), "message bytes appear in clear"); } }
        let mut info = classes(Info::new(!m.is_empty()), c, st);
        for h in hits {
            let (hurt, must) = damage(&b, &parts, h);
            if hurt == b { continue; }
            put("bad", &hurt); rm("out");
            let o = cli::run(&["decrypt", "-c", &r, "-w", &wp, "-i", &p("bad"), "-o", &op]);
            o.no_crash().map_err(|e| format!("{:?}: {e}", h))?;
            if o.ok() {
                ensure!(!must, "an altered container ({:?}) was accepted", h);
                ensure!(get("out") == Some(m.0.clone()), "an altered container ({:?}) decrypted to something that is not the message", h);
                info = info.label("harmless alteration");
            } else {
                o.refused().map_err(|e| format!("{:?}: {e}", h))?;
                ensure!(!exists("out"), "an output file was written for an altered container ({:?})", h);
            }
            info = info.label(format!("{:?}", h).split('(').next().unwrap().to_string());
        }
        Ok(info)
    });
    // witness ciphertexts far beyond 64 KiB
    ctx.run("cli-container-large", ctx.n(40, 600), || (circ(2), style(), message(70_000), 500u32..900, any::<bool>()).prop_map(|(mut c, s, m, n, nopub)| { c.ins.insert(0, Sig { name: "big".into(), dims: vec![n] }); (c, s, m, nopub) }).boxed(), |(c, st, m, nopub)| {
        let json = st.json(c, &[]);
        let (r, s, i) = (put("c.r1cs", &c.r1cs()), put("c.sym", st.sym(c).as_bytes()), put("in.json", json.as_bytes()));
        put("w.wtns", &c.wtns()); put("msg", m); rm("out");
        let (mp, bp, op, wp) = (p("msg"), p("box"), p("out"), p("w.wtns"));
        let mut a = vec!["encrypt", "-c", &r, "-s", &s, "-i", &i, "-m", &mp, "-o", &bp];
        if *nopub { a.push("--no-public-input"); }
        let o = cli::run(&a);
        ensure!(o.ok(), "encrypt failed: {}", o.text());
        let b = get("box").ok_or("encrypt wrote nothing")?;
        let parts = split(&b)?;
        ensure!(recorded(&parts.ct)? == c.publics(), "the witness ciphertext records other public signals");
        ensure!(parts.public.as_deref() == if *nopub { None } else { Some(json.as_bytes()) }, "the embedded inputs are not the input file");
        ensure!(parts.body.len() == m.len() + 28, "{} bytes of encrypted message for {} bytes", parts.body.len(), m.len());
        let o = cli::run(&["decrypt", "-c", &r, "-w", &wp, "-i", &bp, "-o", &op]);
        ensure!(o.ok(), "decrypt failed: {}", o.text());
        ensure!(get("out") == Some(m.0.clone()), "decryption gave another message");
        Ok(Info::new(true).label_if(parts.ct.len() > 65535, "more than 64 KiB").label_if(json.len() > 65535, "inputs of more than 64 KiB"))
    });
    // every prefix of a container, every byte of nonce, message and tag
    ctx.run("cli-container-exhaustive", ctx.n(8, 60), || (circ(1), style(), hcommon::bytes::bytes_len(1..24)).prop_map(|(mut c, s, m)| { c.outs.truncate(1); c.ins.truncate(1); c.cons.truncate(1); (c, s, m) }).boxed(), |(c, st, m)| {
        let (r, s, i) = (put("c.r1cs", &c.r1cs()), put("c.sym", st.sym(c).as_bytes()), put("in.json", st.json(c, &[]).as_bytes()));
        put("w.wtns", &c.wtns()); put("msg", m);
        let (mp, bp, op, wp) = (p("msg"), p("box"), p("out"), p("w.wtns"));
        let o = cli::run(&["encrypt", "-c", &r, "-s", &s, "-i", &i, "-m", &mp, "-o", &bp]);
        ensure!(o.ok(), "encrypt failed: {}", o.text());
        let b = get("box").ok_or("encrypt wrote nothing")?;
        let body = b.len() - m.len() - 28;
        rm("out");
        let try_one = |x: &[u8], what: String| -> Result<(), Fail> {
            put("bad", x);
            let o = cli::run(&["decrypt", "-c", &r, "-w", &wp, "-i", &p("bad"), "-o", &op]);
            o.refused().map_err(|e| format!("{what}: {e}"))?;
            ensure!(!exists("out"), "{what}: an output file was written");
            Ok(())
        };
        let step = (body / 60).max(1);
        for k in 0..hcommon::bytes::TRANSPORTS { let x = hcommon::bytes::transport(k, &b); if x != b && x.starts_with(&b) { try_one(&x, format!("extended by transport ({k})"))?; } }
        for n in (0..body).step_by(step).chain(body..b.len()).chain(0..12) { try_one(&b[..n], format!("the first {n} of {} bytes", b.len()))?; }
        for k in body..b.len() { let mut x = b.clone(); x[k] ^= 1 << (k % 8); try_one(&x, format!("byte {k} altered"))?; }
        for k in 1..5 { let mut x = b.clone(); x[k] ^= 1 << (k % 8); try_one(&x, format!("length byte {k} altered"))?; }
        Ok(Info::new(true))
    });
}
/// (altered container, must be refused)
fn damage(b: &[u8], q: &Parts, h: &Hit) -> (Vec<u8>, bool) {
    let mut v = b.to_vec();
    let body = b.len() - q.body.len();
    let pl = 5 + q.ct.len();
    match h {
        Hit::Cut(n) => { v.truncate(*n as usize % b.len()); (v, true) }
        Hit::CutFront(n) => { let k = 1 + *n as usize % (b.len() - 1); (v.split_off(k), false) }
        Hit::Flip(area, pos, mask) => {
            let (lo, hi, must) = match area { 0 => (body, body + 12, true), 1 => (body + 12, b.len(), true), 2 => (b.len() - 16, b.len(), true), 3 => (5, pl, false), 4 => (1, 5, true), _ => if q.public.is_some() { (pl + 4, body, false) } else { (5, pl, false) } };
            if hi <= lo { return (v, false); }
            v[lo + *pos as usize % (hi - lo)] ^= mask; (v, must)
        }
        Hit::Len(a, d) => {
            let (o, cur) = if *a == 0 || q.public.is_none() { (1, q.ct.len()) } else { (pl, q.public.as_ref().unwrap().len()) };
            let n = (cur as i64 + if *d == 0 { 1 } else { *d as i64 }).max(0) as u32;
            v[o..o + 4].copy_from_slice(&n.to_be_bytes()); let ch = v != b; (v, ch)
        }
        Hit::LenAbs(a, n) => { let o = if *a == 0 || q.public.is_none() { 1 } else { pl }; v[o..o + 4].copy_from_slice(&n.to_be_bytes()); let ch = v != b; (v, ch) }
        Hit::Append(x) => { v.extend_from_slice(x); (v, true) }
        Hit::Flag(x) => { v[0] = *x; let ch = v != b; (v, ch && (q.flag == 1 || *x == 1)) }
        Hit::DropPublic => { if q.public.is_none() { return (v, false); } v[0] = 0; (v, true) }
        // what only adds to or removes from the end hits the encrypted message
        Hit::Transport(k) => { let v = hcommon::bytes::transport(*k, b); let end = v != b && (v.starts_with(b) || b.starts_with(&v)); (v, end) }
        Hit::Zero => { for x in v[body..].iter_mut() { *x = 0 } (v, true) }
    }
}

// ------------------------------------------------------------------ failures leave nothing behind
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault { None, Missing(u8), Dir(u8), Empty(u8), Cut(u8, u32), Junk(u8, Hex), WrongWitness(u64), BadJson(u8), NoFlag(u8), NoOut(u8, u8), NoSpace(u32), BadUtf8(u8), SwapFiles(u8), LongOld, UnknownOption, UnknownCommand }
fn fault() -> BoxedStrategy<Fault> {
    let u = any::<u8>;
    prop_oneof![3 => Just(Fault::None), 2 => u().prop_map(Fault::Missing), 1 => u().prop_map(Fault::Dir), 2 => u().prop_map(Fault::Empty), 4 => (u(), any::<u32>()).prop_map(|(a, b)| Fault::Cut(a, b)), 2 => (u(), hcommon::bytes::bytes_len(1..60)).prop_map(|(a, b)| Fault::Junk(a, b)),
        3 => any::<u64>().prop_map(Fault::WrongWitness), 3 => u().prop_map(Fault::BadJson), 1 => u().prop_map(Fault::NoFlag), 3 => (u(), u()).prop_map(|(a, b)| Fault::NoOut(a, b)), 2 => any::<u32>().prop_map(Fault::NoSpace), 1 => u().prop_map(Fault::BadUtf8), 1 => u().prop_map(Fault::SwapFiles), 2 => Just(Fault::LongOld), 1 => Just(Fault::UnknownOption), 1 => Just(Fault::UnknownCommand)].boxed()
}
pub fn p31(ctx: &mut Ctx) {
    ctx.rule("every command x one fault (missing, empty, cut, foreign or unreadable input file, bad JSON, wrong witness, missing option, unwritable output path, no room for the output) or none, with and without an existing output file; non-trivial: a fault was present");
    ctx.run("cli-faults", ctx.n(5000, 40000), || (circ(3), style(), message(300), 0u8..4, fault(), any::<[bool; 3]>()).boxed(), |(c, st, m, cmd, fault, b)| {
        let (old, short, nopub) = (b[0], b[1], b[2]);
        let json = st.json(c, &[]);
        let (r, s, i) = (put("c.r1cs", &c.r1cs()), put("c.sym", st.sym(c).as_bytes()), put("in.json", json.as_bytes()));
        let (w, mp) = (put("w.wtns", &c.wtns()), put("msg", m));
        for f in ["gct", "gkey", "gbox", "o1", "o2"] { rm(f); }
        rm("gone"); rm("adir");
        let (gct, gkey, gbox) = (p("gct"), p("gkey"), p("gbox"));
        // good inputs for decap and decrypt
        if *cmd == 1 { let o = cli::run(&["encap", "-c", &r, "-s", &s, "-i", &i, "--ciphertext", &gct, "-k", &gkey]); ensure!(o.ok(), "encap failed: {}", o.text()); }
        if *cmd == 3 { let o = cli::run(&["encrypt", "-c", &r, "-s", &s, "-i", &i, "-m", &mp, "-o", &gbox]); ensure!(o.ok(), "encrypt failed: {}", o.text()); }
        let (o1, o2) = (p("o1"), p("o2"));
        let outfault = matches!(fault, Fault::NoOut(..) | Fault::NoSpace(_));
        // (short option, long option, value, kind): input files i, outputs o
        let spec: Vec<(&str, &str, String, char)> = match cmd {
            0 => vec![("-c", "--circuit", r.clone(), 'r'), ("-s", "--sym", s.clone(), 's'), ("-i", "--input", i.clone(), 'j'), ("--ciphertext", "--ciphertext", o1.clone(), 'o'), ("-k", "--key", o2.clone(), 'o')],
            1 => vec![("-c", "--circuit", r.clone(), 'r'), ("-w", "--witness", w.clone(), 'w'), ("--ciphertext", "--ciphertext", gct.clone(), 'c'), ("-k", "--key", o1.clone(), 'o')],
            2 => vec![("-c", "--circuit", r.clone(), 'r'), ("-s", "--sym", s.clone(), 's'), ("-i", "--input", i.clone(), 'j'), ("-m", "--message", mp.clone(), 'm'), ("-o", "--output", o1.clone(), 'o')],
            _ => vec![("-c", "--circuit", r.clone(), 'r'), ("-w", "--witness", w.clone(), 'w'), ("-i", "--ciphertext", gbox.clone(), 'b'), ("-o", "--output", o1.clone(), 'o')],
        };
        let ins: Vec<usize> = (0..spec.len()).filter(|k| spec[*k].3 != 'o').collect();
        let pick = |a: &u8| ins[*a as usize % ins.len()];
        let mut args: Vec<(String, String)> = spec.iter().map(|x| (if short { x.0 } else { x.1 }.to_string(), x.2.clone())).collect();
        let mut name = ["encap", "decap", "encrypt", "decrypt"][*cmd as usize].to_string();
        let mut space = None;
        let mut must = true; // must the command fail?
        let mut may = false; // may go either way
        match fault {
            Fault::None | Fault::LongOld => must = false,
            Fault::Missing(a) => args[pick(a)].1 = p("gone"),
            Fault::Dir(a) => { std::fs::create_dir_all(p("adir")).unwrap(); args[pick(a)].1 = p("adir") }
            Fault::Empty(a) => { let k = pick(a); if spec[k].3 == 'm' { must = false; put("msg", b""); } else if spec[k].3 == 's' { may = c.n_pub() == 0; std::fs::write(&spec[k].2, b"").unwrap(); } else { std::fs::write(&spec[k].2, b"").unwrap(); } }
            Fault::Cut(a, n) => { let k = pick(a); let f = std::fs::read(&spec[k].2).unwrap(); if f.is_empty() { must = false; } else {
                let cut = &f[..*n as usize % f.len()];
                match spec[k].3 { 'm' => must = false, 's' => may = true, 'j' => may = serde_json::from_slice::<serde_json::Value>(cut).is_ok(), _ => {} }
                std::fs::write(&spec[k].2, cut).unwrap(); } }
            Fault::Junk(a, x) => { let k = pick(a); match spec[k].3 { 'm' => must = false, 's' => may = true, 'j' => may = serde_json::from_slice::<serde_json::Value>(x).is_ok(), _ => {} } std::fs::write(&spec[k].2, &x.0).unwrap(); }
            Fault::WrongWitness(seed) => {
                if *cmd % 2 == 0 { must = false } else {
                    let mut at = c.assignment(); let mut rg = Rng(*seed);
                    let k = 1 + rg.below(at.len() - 1);
                    at[k] = other(&at[k], &mut rg);
                    put("w.wtns", &wtns_of(&at));
                    must = k as u32 <= c.n_pub() || !satisfies(&c.rows(), &at);
                }
            }
            Fault::BadJson(a) => if *cmd % 2 == 1 { must = false } else { let t = ["{", "[]", "5", "\"a\"", "null", "{\"a\":}", "{\"a\":1,}", "{'a':1}", "", "{} x"][*a as usize % 10]; put("in.json", t.as_bytes()); },
            Fault::NoFlag(a) => { args.remove(*a as usize % spec.len()); }
            Fault::NoOut(a, b) => {
                let outs: Vec<usize> = (0..spec.len()).filter(|k| spec[*k].3 == 'o').collect();
                let k = outs[*a as usize % outs.len()];
                args[k].1 = match b % 4 { 0 => p("nowhere/o"), 1 => { std::fs::create_dir_all(p("adir")).unwrap(); p("adir") } 2 => p("msg/o"), _ => String::new() };
            }
            // no room for the outputs, or only for a part of them
            Fault::NoSpace(n) => { let n = if n % 3 == 0 { 0 } else { n % 700 } as u64; space = Some(n); may = n > 0 || (*cmd == 3 && m.is_empty()); }
            Fault::BadUtf8(a) => { let k = pick(a); match spec[k].3 { 's' | 'j' => std::fs::write(&spec[k].2, b"\xff\xfe{}\x80").unwrap(), _ => must = false } }
            Fault::SwapFiles(a) => { let (x, y) = (pick(a), pick(&a.wrapping_add(1))); let t = args[x].1.clone(); args[x].1 = args[y].1.clone(); args[y].1 = t; if spec[x].3 == spec[y].3 { must = false } else { may = [spec[x].3, spec[y].3].iter().any(|c| *c == 's' || *c == 'm'); if [spec[x].3, spec[y].3].iter().any(|c| *c == 'r' || *c == 'j') { may = false } } }
            Fault::UnknownOption => args.push(("--frobnicate".into(), "1".into())),
            Fault::UnknownCommand => name = "frob".into(),
        }
        let stale: Vec<u8> = if matches!(fault, Fault::LongOld) { vec![0xAB; 200_000] } else { b"an older file".to_vec() };
        if old || matches!(fault, Fault::LongOld) { std::fs::write(p("o1"), &stale).unwrap(); std::fs::write(p("o2"), &stale).unwrap(); }
        let before: Vec<(String, Option<Vec<u8>>)> = ["c.r1cs", "c.sym", "in.json", "w.wtns", "msg", "gct", "gbox"].iter().map(|n| (n.to_string(), get(n))).collect();
        let listing = |d: &std::path::Path| { let mut v: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).filter(|n| n != "o1" && n != "o2").collect(); v.sort(); v };
        let ls = DIR.with(|d| listing(d.dir()));
        let mut argv: Vec<&str> = vec![&name];
        for (k, v) in &args { argv.push(k); argv.push(v); }
        if *cmd == 2 && nopub { argv.push("--no-public-input"); }
        let o = cli::run_with(&argv, space);
        o.no_crash()?;
        for (n, v) in &before { ensure!(get(n) == *v, "the input file {} was changed", n); }
        ensure!(DIR.with(|d| listing(d.dir())) == ls, "files other than the outputs appeared or vanished: {:?} -> {:?}", ls, DIR.with(|d| listing(d.dir())));
        let touched = |n: &str| match get(n) { None => exists(n) || old || matches!(fault, Fault::LongOld), Some(v) => !(old || matches!(fault, Fault::LongOld)) || v != stale };
        if o.ok() {
            ensure!(!must || may, "{} reported success despite {:?}", name, fault);
            // complete outputs
            match cmd {
                0 => { let (ct, k) = (get("o1").ok_or("no ciphertext")?, get("o2").ok_or("no key")?); ensure!(k.len() == 32, "the key file has {} bytes", k.len()); ensure!(recorded(&ct)?.len() as u32 == c.n_pub(), "the ciphertext file is not complete");
                    let q = Ciphertext::<Bn254>::deserialize_compressed(&ct[..]).unwrap(); let mut again = vec![]; ark_serialize::CanonicalSerialize::serialize_compressed(&q, &mut again).unwrap(); ensure!(again == ct, "the ciphertext file holds {} bytes, {} of them a ciphertext", ct.len(), again.len()); }
                1 => { let k = get("o1").ok_or("no key")?; ensure!(Some(&k) == get("gkey").as_ref(), "the key file does not hold the key"); }
                2 => { let q = split(&get("o1").ok_or("no output")?)?; let ml = get("msg").unwrap().len(); ensure!(q.body.len() == ml + 28, "the output holds {} bytes for a message of {} bytes", q.body.len(), ml); ensure!((q.flag == 1) != nopub, "flag {}", q.flag); }
                _ => ensure!(get("o1") == Some(m.0.clone()), "the output file does not hold the message"),
            }
        } else {
            ensure!(must || may, "{} failed without a fault ({:?}): {}", name, fault, o.text());
            o.refused()?;
            if !outfault { ensure!(!touched("o1"), "{} failed ({:?}) but its output file was {}", name, fault, if old { "changed" } else { "created" }); }
            if *cmd == 0 { ensure!(!touched("o2") || outfault, "{} failed ({:?}) but the key file was written", name, fault); }
        }
        let f = format!("{:?}", fault); let f = f.split('(').next().unwrap();
        Ok(Info::new(f != "None").label(format!("{}/{}", name, f)).label(if o.ok() { "succeeded" } else { "failed" }).label_if(old, "existing output"))
    });
    // the outcome must not depend on whether anybody reads what the tool says
    let sink = || prop_oneof![2 => Just(cli::Sink::Kept), 1 => Just(cli::Sink::Null), 2 => Just(cli::Sink::Full), 1 => Just(cli::Sink::Closed), 2 => Just(cli::Sink::Reader(0)), 4 => (0u16..2500).prop_map(cli::Sink::Reader)];
    ctx.run("cli-console", ctx.n(700, 12000), move || (circ(3), style(), message(300), sink(), sink(), 0u8..8).boxed(), |(c, st, m, out, err, bad)| {
        let (r, s, i) = (put("c.r1cs", &c.r1cs()), put("c.sym", st.sym(c).as_bytes()), put("in.json", st.json(c, &[]).as_bytes()));
        let (w, mp) = (put("w.wtns", &c.wtns()), put("msg", m));
        for f in ["ct", "key", "key2", "box", "out"] { rm(f); }
        let (ct, key, key2, bx, o) = (p("ct"), p("key"), p("key2"), p("box"), p("out"));
        let cmds: [Vec<&str>; 4] = [vec!["encap", "-c", &r, "-s", &s, "-i", &i, "--ciphertext", &ct, "-k", &key], vec!["decap", "-c", &r, "-w", &w, "--ciphertext", &ct, "-k", &key2],
            vec!["encrypt", "-c", &r, "-s", &s, "-i", &i, "-m", &mp, "-o", &bx], vec!["decrypt", "-c", &r, "-w", &w, "-i", &bx, "-o", &o]];
        let mut failed = false;
        for (k, a) in cmds.iter().enumerate() {
            // one of the four is given something it must refuse
            let broken = *bad as usize == k;
            if broken { match k { 0 | 2 => { put("in.json", b"{\"a\":"); } _ => { let mut at = c.assignment(); at.pop(); at.pop(); put("w.wtns", &wtns_of(&at)); } } failed = true; }
            let x = cli::run_sinks(a, *out, *err);
            ensure!(x.signal.is_none() && x.code != Some(101) && !String::from_utf8_lossy(&x.stderr).contains("panicked at"), "{} crashed with its console at {:?}/{:?}: {}", a[0], out, err, x.text());
            let made = match k { 0 => exists("ct") || exists("key"), 1 => exists("key2"), 2 => exists("box"), _ => exists("out") };
            if broken {
                ensure!(x.code != Some(0) && !made, "{} with an input that cannot be used: status {:?}, output written: {}", a[0], x.code, made);
                if k % 2 == 0 { put("in.json", st.json(c, &[]).as_bytes()); } else { put("w.wtns", &c.wtns()); }
                let y = cli::run(a); ensure!(y.ok(), "{} failed: {}", a[0], y.text());
            } else { ensure!(x.ok(), "{} failed with its console at {:?}/{:?}: {}", a[0], out, err, x.text()); }
        }
        ensure!(get("key").is_some_and(|k| k.len() == 32) && get("key") == get("key2"), "the keys differ");
        ensure!(get("out").as_deref() == Some(&m[..]), "the message came back changed");
        Ok(classes(Info::new(*out != cli::Sink::Kept || *err != cli::Sink::Kept), c, st).label(format!("output {:?}", out).split('(').next().unwrap().to_string()).label(format!("errors {:?}", err).split('(').next().unwrap().to_string()).label_if(failed, "one refused"))
    });
}
