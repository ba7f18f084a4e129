//! Checks of zkenc-core: P02, P03, P04, P06, P07, P08 and the core parts of P01 and P05.
use crate::circ::*;
use crate::cli;
use crate::p_cli::{recorded, to_f, to_fr};
pub use crate::syn::*;
use crate::toy::*;
use ark_bn254::{Bn254, Fr};
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ec::{AffineRepr, CurveGroup, PrimeGroup, VariableBaseMSM};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_relations::gr1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use hcommon::alloc::bounded;
use hcommon::bytes::{bytes_len, message, to_hex};
use hcommon::field::{fe, F};
use hcommon::runner::no_panic;
use hcommon::scratch::Scratch;
use hcommon::{ensure, *};
use proptest::prelude::*;
use rand::{rngs::StdRng, SeedableRng};
use zkenc_core::{decap, encap, verify_ciphertext, Ciphertext, EncapKey, Key};

fn n_pub(c: &Circ) -> usize { c.n_pub() as usize }
fn rng(seed: u64) -> StdRng { StdRng::seed_from_u64(seed) }
pub fn err(e: zkenc_core::Error) -> String { format!("{e:?}") }

pub fn p01_core(ctx: &mut Ctx) {
    fn one<E: Pairing<ScalarField = Fr>>(c: &Circ, seed: u64) -> Res {
        let s = Syn::of(&c.rows(), n_pub(c), &c.assignment());
        let (ct, key) = no_panic("encap", || encap::<E, _, _>(s.clone().public_only(), &mut rng(seed)))?.map_err(|e| format!("encap failed: {}", err(e)))?;
        let k = no_panic("decap", || decap::<E, _>(s.clone(), &ct))?.map_err(|e| format!("decap with a satisfying witness failed: {}", err(e)))?;
        ensure!(k == key, "decap gave another key");
        Ok(Info::new(!c.cons.is_empty() && c.n_pub() > 0).label_if(c.cons.len() > 20, "more than 20 constraints"))
    }
    ctx.run("core-toy", ctx.n(6000, 100000), || (circ(6), any::<u64>()).boxed(), |(c, s)| one::<Toy>(c, *s));
    ctx.run("core-toy-large", ctx.n(100, 2000), || (circ(150), any::<u64>()).boxed(), |(c, s)| one::<Toy>(c, *s));
    ctx.run("core-bn254", ctx.n(300, 5000), || (circ(5), any::<u64>()).boxed(), |(c, s)| one::<Bn254>(c, *s));
    ctx.probe("P01/constraints-seen-by-encap", || {
        // x*x = y with everything assigned when encapsulating
        let (f, one) = (|x: u64| Some(Fr::from(x)), Fr::one());
        let s = Syn { inst: vec![f(9)], wit: vec![f(3)], rows: vec![[vec![(2, one)], vec![(2, one)], vec![(1, one)]]], order: Order::PublicFirst };
        let (ct, key) = encap::<Bn254, _, _>(s.clone(), &mut rng(1)).ok()?;
        match decap::<Bn254, _>(s, &ct) { Ok(k) if k == key => None, _ => Some("with a circuit whose witness is assigned when encapsulating, decap does not give the key of encap".into()) }
    });
}
pub fn p05_core(ctx: &mut Ctx) {
    ctx.run("core-bound", ctx.n(6000, 80000), || (circ(4), any::<u64>(), proptest::collection::vec(any::<u8>(), 0..3), any::<bool>()).boxed(), |(c, seed, holes, full)| {
        let mut s = Syn::of(&c.rows(), n_pub(c), &c.assignment());
        if !*full { s = s.public_only(); }
        let mut hit = false;
        for h in holes { if !s.inst.is_empty() { let n = s.inst.len(); s.inst[*h as usize % n] = None; hit = true; } }
        let r = no_panic("encap", || encap::<Toy, _, _>(s, &mut rng(*seed)))?;
        if hit { ensure!(r.is_err(), "a ciphertext was made although a public input has no value; it records {} of {}", r.map(|x| x.0.public_inputs.len()).unwrap_or(0), c.n_pub()); }
        else { let got: Vec<F> = r.map_err(err)?.0.public_inputs.iter().map(to_f).collect(); ensure!(got == c.publics(), "recorded {:?} instead of {:?}", got, c.publics()); }
        Ok(Info::new(c.n_pub() > 0).label_if(hit, "missing value"))
    });
    ctx.probe("P05/witness-before-public", || {
        struct W;
        impl ConstraintSynthesizer<Fr> for W { fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> { let _ = cs.new_witness_variable(|| Err(SynthesisError::AssignmentMissing))?; let _ = cs.new_input_variable(|| Ok(Fr::from(5u64)))?; Ok(()) } }
        match encap::<Toy, _, _>(W, &mut rng(1)) { Ok((ct, _)) if ct.public_inputs.is_empty() => Some("a core circuit that allocates a private variable before its public inputs is encapsulated with no public input recorded".into()), _ => None }
    });
}

// ------------------------------------------------------------------ P02
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Wrong { Change(Vec<(u32, u64)>), Con(Tweak), Hole(u32), OtherCt(u32, u64), CtLonger(F, u8), CtShift, Zeros, Swap(u32, u32), PublicOnly }
fn wrong() -> BoxedStrategy<Wrong> {
    let u = any::<u32>;
    prop_oneof![6 => proptest::collection::vec((u(), any::<u64>()), 1..3).prop_map(Wrong::Change), 5 => tweak().prop_map(Wrong::Con), 1 => u().prop_map(Wrong::Hole), 3 => (u(), any::<u64>()).prop_map(|(a, b)| Wrong::OtherCt(a, b)), 2 => (fe(), 0u8..12).prop_map(|(x, n)| Wrong::CtLonger(x, n)), 1 => Just(Wrong::CtShift), 1 => Just(Wrong::Zeros), 1 => (u(), u()).prop_map(|(a, b)| Wrong::Swap(a, b)), 1 => Just(Wrong::PublicOnly)].boxed()
}
/// (assignment to use, holes, publics the ciphertext is made for, constraints)
fn apply(c: &Circ, w: &Wrong) -> (Vec<F>, Option<usize>, Vec<F>, Vec<RowK>) {
    let mut rows = c.rows_k();
    let mut at = c.assignment(); let mut pubs = c.publics(); let n = at.len(); let mut hole = None;
    match w {
        Wrong::Change(v) => for (k, s) in v { let k = 1 + *k as usize % (n - 1); at[k] = other(&at[k], &mut Rng(*s)); },
        Wrong::Con(t) => rows = tweaked(rows, t, c.n_wires()),
        Wrong::Hole(k) => hole = Some(1 + *k as usize % (n - 1)),
        Wrong::OtherCt(k, s) => if !pubs.is_empty() { let k = *k as usize % pubs.len(); pubs[k] = other(&pubs[k], &mut Rng(*s)); },
        Wrong::CtLonger(x, n) => for k in 0..=*n { pubs.push(if k % 2 == 0 { *x } else { F::ZERO }) },
        Wrong::CtShift => if !pubs.is_empty() { pubs.rotate_left(1) },
        Wrong::Zeros => for x in at[1..].iter_mut() { *x = F::ZERO },
        Wrong::Swap(a, b) => { let (a, b) = (1 + *a as usize % (n - 1), 1 + *b as usize % (n - 1)); at.swap(a, b) }
        Wrong::PublicOnly => for x in at[n_pub(c) + 1..].iter_mut() { *x = F::ZERO },
    }
    (at, hole, pubs, rows)
}
pub fn p02(ctx: &mut Ctx) {
    ctx.rule("a circuit x a ciphertext for some public inputs x an assignment that is changed, incomplete, swapped, or belongs to other public inputs; non-trivial: the assignment must be refused");
    fn one<E: Pairing<ScalarField = Fr>>(c: &Circ, w: &Wrong, o: &Order, full: bool, seed: u64) -> Res {
        let (at, hole, pubs, rows) = apply(c, w);
        let rows = plain(rows);
        let mut for_ct = c.assignment(); let k = pubs.len().min(n_pub(c)); for_ct[1..=k].copy_from_slice(&pubs[..k]);
        // the ciphertext is made for `pubs` (of a circuit with more publics if it is longer)
        let enc = Syn::of(&rows, n_pub(c), &for_ct);
        let mut enc = if full { enc } else { enc.public_only() };
        if pubs.len() > n_pub(c) { enc.rows.clear(); enc.inst.extend(pubs[n_pub(c)..].iter().map(|x| Some(to_fr(x)))); }
        let (ct, key) = encap::<E, _, _>(enc, &mut rng(seed)).map_err(|e| format!("encap failed: {}", err(e)))?;
        let mut dec = Syn::of(&rows, n_pub(c), &at).ordered(o);
        if let Some(h) = hole { if h <= n_pub(c) { dec.inst[h - 1] = None } else { dec.wit[h - 1 - n_pub(c)] = None } }
        let bad = satisfies(&rows, &at) == false;
        let differs = at[1..=n_pub(c)] != pubs[..];
        // a ciphertext with more publics than the circuit may coincide with the first private values
        if pubs.len() > n_pub(c) && at.get(1..=pubs.len()) == Some(&pubs[..]) && !bad { return Ok(Info::new(false)); }
        let must = bad || differs || hole.is_some();
        let r = no_panic("decap", || decap::<E, _>(dec, &ct))?;
        if must { ensure!(r.is_err(), "decap gave a key although {}{}", if bad { "a constraint is violated" } else if hole.is_some() { "a signal is unassigned" } else { "the public inputs differ" }, if r.map_or(false, |k| k == key) { " (the right key)" } else { "" }); }
        else { let k = r.map_err(|e| format!("a satisfying assignment was refused: {}", err(e)))?; if !full { ensure!(k == key, "decap gave another key"); } }
        Ok(Info::new(must).label(format!("{:?}", w).split('(').next().unwrap().to_string()).label_if(bad, "violated constraint").label_if(differs, "other public inputs").label_if(hole.is_some(), "unassigned").label_if(bad && !differs, "violated, same public inputs"))
    }
    ctx.run("core-toy", ctx.n(12000, 200000), || (circ(6), wrong(), order(), any::<bool>(), any::<u64>()).boxed(), |(c, w, o, f, s)| one::<Toy>(c, w, o, *f, *s));
    ctx.run("core-toy-large", ctx.n(300, 4000), || (circ(120), wrong(), order(), any::<bool>(), any::<u64>()).boxed(), |(c, w, o, f, s)| one::<Toy>(c, w, o, *f, *s));
    ctx.run("core-bn254", ctx.n(300, 4000), || (circ(4), wrong(), order(), any::<bool>(), any::<u64>()).boxed(), |(c, w, o, f, s)| one::<Bn254>(c, w, o, *f, *s));
    // the real tool
    thread_local! { static DIR: Scratch = Scratch::new("p02"); }
    ctx.run("cli", ctx.n(700, 12000), || (circ(5), style(), wrong(), any::<bool>(), message(60)).boxed(), |(c, st, w, enc, m)| DIR.with(|d| {
        let (mut at, hole, pubs, rk) = apply(c, w);
        let rows = plain(rk.clone());
        if pubs.len() != n_pub(c) { return Ok(Info::new(false)); }
        // inputs for the ciphertext
        let mut c3 = c.clone(); let mut v = c.assignment(); v[1..=pubs.len()].copy_from_slice(&pubs); c3.vals = v[1..].to_vec();
        if let Some(h) = hole { at.truncate(h); }
        let (r, s, i, wt, mp) = (d.write("c.r1cs", &c.r1cs_of(&rk)), d.write("c.sym", st.sym(c).as_bytes()), d.write("in.json", st.json(&c3, &[]).as_bytes()), d.write("w.wtns", &wtns_of(&at)), d.write("m", m));
        let (o1, o2, ok) = (d.s("o1"), d.s("o2"), d.s("k"));
        let _ = std::fs::remove_file(&o2);
        let o = if *enc { cli::run(&["encrypt", "-c", &r, "-s", &s, "-i", &i, "-m", &mp, "-o", &o1]) } else { cli::run(&["encap", "-c", &r, "-s", &s, "-i", &i, "--ciphertext", &o1, "-k", &ok]) };
        ensure!(o.ok(), "encapsulation failed: {}", o.text());
        let o = if *enc { cli::run(&["decrypt", "-c", &r, "-w", &wt, "-i", &o1, "-o", &o2]) } else { cli::run(&["decap", "-c", &r, "-w", &wt, "--ciphertext", &o1, "-k", &o2]) };
        let bad = hole.is_none() && !satisfies(&rows, &at);
        let differs = hole.is_none() && at[1..=n_pub(c)] != pubs[..];
        if bad || differs || hole.is_some() {
            o.refused().map_err(|e| format!("{}: {e}", if bad { "a constraint is violated" } else if differs { "the public inputs differ" } else { "a signal is unassigned" }))?;
            ensure!(!d.path("o2").exists(), "an output was written for a wrong witness");
        } else { ensure!(o.ok(), "a satisfying witness was refused: {}", o.text()); }
        Ok(Info::new(bad || differs || hole.is_some()).label(format!("{:?}", w).split('(').next().unwrap().to_string()).label_if(bad && !differs, "violated, same public inputs"))
    }));
}

// ------------------------------------------------------------------ P03
fn ser(x: &impl CanonicalSerialize) -> [Vec<u8>; 2] { let (mut a, mut b) = (vec![], vec![]); x.serialize_compressed(&mut a).unwrap(); x.serialize_uncompressed(&mut b).unwrap(); [a, b] }
fn has_window(hay: &[u8], key: &[u8], n: usize) -> Option<usize> { key.windows(n).find_map(|w| hay.windows(n).position(|h| h == w)) }
pub fn p03(ctx: &mut Ctx) {
    ctx.rule("ciphertexts of generated circuits; candidate keys from every published byte range, element, simple combination and pairing, except the recorded one; non-trivial: at least one public signal");
    let all = |c: &Circ, full: bool, mixed: &Order, seed: u64, pairs: bool| -> Res {
        let s = Syn::of(&c.rows(), n_pub(c), &c.assignment());
        let s = if full { s.ordered(mixed) } else { s.public_only() };
        let (ct, key) = encap::<Bn254, _, _>(s, &mut rng(seed)).map_err(|e| format!("encap failed: {}", err(e)))?;
        let k = key.as_bytes();
        let ek = &ct.encap_key;
        for b in ser(&ct) {
            if let Some(p) = has_window(&b, k, 8) { return Err(format!("key bytes appear in the ciphertext at offset {p}")); }
            let r: Vec<u8> = k.iter().rev().copied().collect();
            if let Some(p) = has_window(&b, &r, 8) { return Err(format!("reversed key bytes appear in the ciphertext at offset {p}")); }
        }
        let mut cand: Vec<(String, Vec<u8>)> = vec![("nothing".into(), vec![]), ("zero block".into(), vec![0; 32])];
        for (i, b) in ser(&ct).into_iter().enumerate() { cand.push((format!("the ciphertext ({i})"), b)); }
        for (n, v) in [("alpha", ser(&ek.alpha_g1)), ("beta", ser(&ek.beta_g2)), ("delta", ser(&ek.delta_g2)), ("left elements", ser(&ek.r_u_query_g1)), ("right elements", ser(&ek.r_v_query_g2)), ("combined elements", ser(&ek.phi_delta_query_g1)), ("public inputs", ser(&ct.public_inputs)), ("the encapsulation key", ser(ek))] { for b in v { if n.ends_with('s') { cand.push((n.into(), b.get(8..).unwrap_or(&[]).to_vec())); } cand.push((n.into(), b)); } }
        let join = |v: &[Vec<u8>]| v.concat();
        for z in 0..2 { let (a, b, d) = (ser(&ek.alpha_g1)[z].clone(), ser(&ek.beta_g2)[z].clone(), ser(&ek.delta_g2)[z].clone()); for (n, v) in [("alpha,beta", vec![a.clone(), b.clone()]), ("beta,alpha", vec![b.clone(), a.clone()]), ("alpha,beta,delta", vec![a.clone(), b.clone(), d.clone()]), ("alpha,delta", vec![a.clone(), d.clone()]), ("beta,delta", vec![b, d])] { cand.push((n.into(), join(&v))); } }
        for (n, b) in &cand { ensure!(blake3::hash(b).as_bytes() != k, "the key is the hash of {n}"); ensure!(b.len() < 32 || b[..32] != k[..] && b[b.len() - 32..] != k[..], "the key is part of {n}"); }
        if pairs {
            let mut sc = vec![Fr::one()]; sc.extend(ct.public_inputs.iter().copied());
            let n = sc.len().min(ek.phi_delta_query_g1.len());
            let g1 = <Bn254 as Pairing>::G1::generator(); let g2 = <Bn254 as Pairing>::G2::generator();
            let phi = <Bn254 as Pairing>::G1::msm(&ek.phi_delta_query_g1[..n], &sc[..n]).unwrap();
            let u = <Bn254 as Pairing>::G1::msm(&ek.r_u_query_g1[..n], &sc[..n]).unwrap();
            let v = <Bn254 as Pairing>::G2::msm(&ek.r_v_query_g2[..n], &sc[..n]).unwrap();
            let (al, be, de) = (ek.alpha_g1.into_group(), ek.beta_g2.into_group(), ek.delta_g2.into_group());
            let known = Bn254::pairing(al, be) + Bn254::pairing(phi, g2);
            let left = [("g1", g1), ("alpha", al), ("phi", phi), ("alpha+u", al + u), ("g1+alpha", g1 + al)];
            let right = [("g2", g2), ("beta", be), ("delta", de), ("beta+v", be + v), ("beta+delta", be + de)];
            let mut gt: Vec<(String, PairingOutput<Bn254>)> = vec![];
            for (a, x) in &left { for (b, y) in &right { gt.push((format!("e({a},{b})"), Bn254::pairing(*x, *y))); } }
            let base = gt.clone();
            for (i, (a, x)) in base.iter().enumerate() { for (b, y) in &base[i + 1..] { gt.push((format!("{a}*{b}"), *x + *y)); gt.push((format!("{a}/{b}"), *x - *y)); gt.push((format!("{b}/{a}"), *y - *x)); } }
            gt.push(("the identity".into(), PairingOutput::zero()));
            for (n, x) in gt {
                if x == known { continue; } // the recorded finding, probed below
                for b in ser(&x) { ensure!(blake3::hash(&b).as_bytes() != k, "the key is the hash of {n}, which anyone can compute"); ensure!(b[..32] != k[..], "the key is the beginning of {n}"); }
            }
        }
        Ok(Info::new(c.n_pub() > 0).label_if(full, "all values assigned"))
    };
    ctx.run("core-bytes", ctx.n(1500, 20000), || (circ(4), any::<bool>(), order(), any::<u64>()).boxed(), |(c, f, o, s)| all(c, *f, o, *s, false));
    ctx.run("core-pairings", ctx.n(120, 2000), || (circ(3), any::<bool>(), order(), any::<u64>()).boxed(), |(c, f, o, s)| all(c, *f, o, *s, true));
    thread_local! { static DIR: Scratch = Scratch::new("p03"); }
    ctx.run("cli-files", ctx.n(400, 6000), || (circ(3), style(), message(300), any::<bool>()).boxed(), |(c, st, m, nopub)| DIR.with(|d| {
        let (r, s, i, mp, w) = (d.write("c.r1cs", &c.r1cs()), d.write("c.sym", st.sym(c).as_bytes()), d.write("in.json", st.json(c, &[]).as_bytes()), d.write("m", m), d.write("w.wtns", &c.wtns()));
        let (bx, k, ct) = (d.s("box"), d.s("k"), d.s("ct"));
        let mut a = vec!["encrypt", "-c", &r, "-s", &s, "-i", &i, "-m", &mp, "-o", &bx];
        if *nopub { a.push("--no-public-input"); }
        let o = cli::run(&a);
        ensure!(o.ok(), "encrypt failed: {}", o.text());
        let b = std::fs::read(&bx).map_err(|e| e.to_string())?;
        let n = u32::from_be_bytes(b.get(1..5).ok_or("short")?.try_into().unwrap()) as usize;
        std::fs::write(&ct, b.get(5..5 + n).ok_or("short")?).unwrap();
        let o2 = cli::run(&["decap", "-c", &r, "-w", &w, "--ciphertext", &ct, "-k", &k]);
        ensure!(o2.ok(), "decap failed: {}", o2.text());
        let key = std::fs::read(&k).map_err(|e| e.to_string())?;
        let rev: Vec<u8> = key.iter().rev().copied().collect();
        for (what, h) in [("container", &b), ("console output", &o.stdout), ("console output", &o.stderr)] {
            for kk in [&key, &rev] { if let Some(p) = has_window(h, kk, 6) { return Err(format!("key bytes appear in the {what} at offset {p}")); } }
            let hx = to_hex(&key); if let Some(p) = has_window(&h.to_ascii_lowercase(), hx.as_bytes(), 16) { return Err(format!("the key appears in hexadecimal in the {what} at offset {p}")); }
        }
        Ok(Info::new(c.n_pub() > 0))
    }));
    ctx.probe("P03/pairing-of-alpha-beta", || {
        let s = Syn { inst: vec![Some(Fr::from(9u64))], wit: vec![None], rows: vec![], order: Order::PublicFirst };
        let (ct, key) = encap::<Bn254, _, _>(s, &mut rng(1)).ok()?;
        let x = Bn254::pairing(ct.encap_key.alpha_g1, ct.encap_key.beta_g2);
        if blake3::hash(&ser(&x)[0]).as_bytes() == key.as_bytes() { Some("the key is the hash of e(alpha, beta) of two published elements: anyone can compute it without a witness".into()) } else { None }
    });
}

// ------------------------------------------------------------------ P04
pub fn p04(ctx: &mut Ctx) {
    ctx.rule("groups of encapsulations with different seeds (toy engine: exponents visible), repeated seeds, and runs of the real tool; non-trivial: every group");
    ctx.run("core-toy-relations", ctx.n(1500, 20000), || (circ(3), circ(3), any::<u64>(), any::<bool>(), any::<[bool; 4]>()).boxed(), |(c, c2, seed, full, pick)| {
        let mk = |c: &Circ| { let s = Syn::of(&c.rows(), n_pub(c), &c.assignment()); if *full { s } else { s.public_only() } };
        let mut v = vec![];
        for (k, b) in pick.iter().enumerate() {
            let s = seed.wrapping_add(k as u64);
            let r = encap::<Toy, _, _>(mk(if *b { c } else { c2 }), &mut rng(s)).map_err(|e| format!("encap failed: {}", err(e)))?;
            let again = encap::<Toy, _, _>(mk(if *b { c } else { c2 }), &mut rng(s)).map_err(|e| format!("encap failed: {}", err(e)))?;
            ensure!(r == again, "the same random source gave another result");
            v.push(r);
        }
        let ex = |x: &(Ciphertext<Toy>, Key)| { let e = &x.0.encap_key; [e.alpha_g1.0, e.beta_g2.0, e.delta_g2.0] };
        for i in 0..v.len() {
            let e = ex(&v[i]);
            for k in 0..3 {
                ensure!(!e[k].is_zero(), "{} is the identity", ["alpha", "beta", "delta"][k]);
                ensure!(!e[k].is_one(), "{} is the generator", ["alpha", "beta", "delta"][k]);
                for l in 0..3 { if l != k {
                    let (a, b) = (e[k], e[l]);
                    ensure!(a != b && a != -b && !(a * b).is_one() && a != b.double_() && a != b * b && a + Fr::one() != b && a - b != e[3 - k - l] && a + b != e[3 - k - l] && a * b != e[3 - k - l], "published random elements {k} and {l} are related");
                } }
            }
            for j in 0..i {
                ensure!(v[i].1 != v[j].1, "two encapsulations gave the same key");
                let f = ex(&v[j]);
                for k in 0..3 { for l in 0..3 { ensure!(e[k] != f[l], "two encapsulations share a random element ({k},{l})"); } }
                for (x, y, n) in [(v[i].0.encap_key.r_u_query_g1.iter().map(|x| x.0).collect::<Vec<_>>(), v[j].0.encap_key.r_u_query_g1.iter().map(|x| x.0).collect::<Vec<_>>(), "left"), (v[i].0.encap_key.r_v_query_g2.iter().map(|x| x.0).collect(), v[j].0.encap_key.r_v_query_g2.iter().map(|x| x.0).collect(), "right"), (v[i].0.encap_key.phi_delta_query_g1.iter().map(|x| x.0).collect(), v[j].0.encap_key.phi_delta_query_g1.iter().map(|x| x.0).collect(), "combined")] {
                    for a in &x { ensure!(a.is_zero() || !y.contains(a), "two encapsulations share a {n} element"); }
                }
            }
        }
        // no element is an affine function of another over the runs
        let es: Vec<_> = v.iter().map(ex).collect();
        for k in 0..3 { for l in 0..3 { if k != l { let d = |i: usize, j: usize, k: usize| es[i][k] - es[j][k]; ensure!(d(1, 0, k) * d(2, 1, l) != d(2, 1, k) * d(1, 0, l), "element {k} is an affine function of element {l}"); } } }
        Ok(Info::new(true).label_if(*full, "all values assigned"))
    });
    ctx.run("core-bn254", ctx.n(200, 3000), || (circ(3), any::<u64>()).boxed(), |(c, seed)| {
        let s = Syn::of(&c.rows(), n_pub(c), &c.assignment()).public_only();
        let a = encap::<Bn254, _, _>(s.clone(), &mut rng(*seed)).map_err(err)?;
        let b = encap::<Bn254, _, _>(s, &mut rng(seed.wrapping_add(1))).map_err(err)?;
        ensure!(a.1 != b.1, "two encapsulations gave the same key");
        let (x, y) = (&a.0.encap_key, &b.0.encap_key);
        ensure!(x.alpha_g1 != y.alpha_g1 && x.beta_g2 != y.beta_g2 && x.delta_g2 != y.delta_g2, "two encapsulations share a random element");
        ensure!(x.beta_g2 != x.delta_g2 && !x.alpha_g1.is_zero() && !x.beta_g2.is_zero() && !x.delta_g2.is_zero(), "a random element is the identity or equals another");
        Ok(Info::new(true))
    });
    // every bit of the caller's randomness matters: a source that yields one chosen stream
    ctx.run("core-source", ctx.n(3000, 40000), || (proptest::collection::vec(any::<u64>(), 20), 0usize..20, 0u32..64).boxed(), |(words, k, bit)| {
        let s = Syn { inst: vec![Some(Fr::from(4u64))], wit: vec![None], rows: vec![], order: Order::PublicFirst };
        let full = Syn { inst: vec![Some(Fr::from(4u64))], wit: vec![Some(Fr::from(2u64))], rows: vec![[vec![(2, Fr::one())], vec![(2, Fr::one())], vec![(1, Fr::one())]]], order: Order::PublicFirst };
        let run = |s: &Syn, w: &[u64]| { let mut src = Script { words: w.to_vec(), pos: 0 }; encap::<Toy, _, _>(s.clone(), &mut src).map(|r| (r, src.pos)).map_err(err) };
        for s in [&s, &full] {
            let (a, used) = run(s, words)?;
            ensure!(used >= 12, "only {used} words of randomness were used");
            let mut w2 = words.clone(); w2[*k] ^= 1 << bit;
            let (b, _) = run(s, &w2)?;
            if *k >= used { ensure!(a == b, "unused randomness changed the result"); }
        }
        // a changed seed word of the documented kind (the whole source) changes all elements
        let w3: Vec<u64> = words.iter().map(|w| mix(*w)).collect();
        let (a, _) = run(&s, words)?; let (b, _) = run(&s, &w3)?;
        let (x, y) = (&a.0.encap_key, &b.0.encap_key);
        ensure!(x.alpha_g1 != y.alpha_g1 && x.beta_g2 != y.beta_g2 && x.delta_g2 != y.delta_g2 && a.1 != b.1, "a different random source left an element unchanged");
        Ok(Info::new(true))
    });
    ctx.rule("the five secrets of a fully assigned system solved from the published exponents: none small, repeated or related, each fresh with another source, and each with a part of the source of its own");
    ctx.run("core-secrets", ctx.n(500, 8000), || (circ(4), any::<u64>(), proptest::collection::vec(any::<u64>(), 96), order()).boxed(), |(c, seed, words, o)| {
        let m = Marked::of(c, o);
        let Some((a, _)) = m.run(&mut rng(*seed))? else { return Ok(Info::new(false).label("not solvable")) };
        let Some((b, _)) = m.run(&mut rng(seed.wrapping_add(1)))? else { return Ok(Info::new(false).label("not solvable")) };
        let small = |x: Fr| { let v = crate::p_cli::to_f(&x).le32(); v[16..].iter().all(|b| *b == 0) };
        for s in [&a, &b] { for k in 0..5 {
            ensure!(!small(s[k]) && !small(-s[k]) && !small(s[k].inverse().unwrap_or(Fr::zero())), "the secret {} has fewer than 128 bits: {}", SECRETS[k], s[k]);
            for l in 0..k { ensure!(!small(s[k] - s[l]) && !small(s[k] + s[l]) && !small(s[k] * s[l].inverse().unwrap_or(Fr::zero())) && !(s[k] * s[l]).is_one() && s[k] != s[l] * s[l] && s[l] != s[k] * s[k], "the secrets {} and {} are related", SECRETS[k], SECRETS[l]); }
        } }
        for k in 0..5 { for l in 0..5 { ensure!(a[k] != b[l], "the secret {} of one encapsulation is the secret {} of another", SECRETS[k], SECRETS[l]); } }
        // one word of the source at a time
        let mut src = Script { words: words.clone(), pos: 0 };
        let Some((base, used)) = m.run_script(&mut src)? else { return Ok(Info::new(true).label("not solvable")) };
        let mut flips = vec![];
        for k in 0..words.len().min(used) {
            let mut w = words.clone(); w[k] ^= 2;
            if let Some((s, _)) = m.run_script(&mut Script { words: w, pos: 0 })? { flips.push((0..5).map(|i| s[i] != base[i]).collect::<Vec<_>>()); }
        }
        let effective: Vec<_> = flips.iter().filter(|f| f.iter().any(|x| *x)).collect();
        ensure!(effective.len() >= 4, "only {} of {} words of the source have an effect", effective.len(), flips.len());
        // either everything is expanded from one seed, or each secret has words of its own
        if !effective.iter().all(|f| f.iter().all(|x| *x)) {
            for k in 0..5 { ensure!(effective.iter().any(|f| (0..5).all(|i| f[i] == (i == k))), "no part of the random source changes the secret {} alone (words changed: {})", SECRETS[k], effective.iter().map(|f| (0..5).filter(|i| f[*i]).map(|i| SECRETS[i]).collect::<Vec<_>>().join("+")).collect::<Vec<_>>().join(" ")); }
        }
        Ok(Info::new(true).label(format!("{used} words drawn")))
    });
    thread_local! { static DIR: Scratch = Scratch::new("p04"); }
    // the tool's own source: the operating system's, as a fixed stream of which one byte is changed
    ctx.rule("the tool with the operating system's randomness as a fixed stream: which of the drawn bytes change which published element, key or nonce");
    ctx.run("cli-source", ctx.n(6, 80), || (circ(2), style(), any::<bool>(), any::<u32>()).boxed(), |(c, st, enc, seed)| DIR.with(|d| {
        let (r, s, i, m) = (d.write("c.r1cs", &c.r1cs()), d.write("c.sym", st.sym(c).as_bytes()), d.write("in.json", st.json(c, &[]).as_bytes()), d.write("m", b"same message"));
        let (ct, k, log) = (d.s("ct"), d.s("k"), d.s("drawn"));
        // what each run publishes or makes: alpha, beta, delta, and the key or the nonce and the sealed text
        let go = |flip: Option<u64>| -> Result<Vec<Vec<u8>>, Fail> {
            let mut vars = vec![("RNGSHIM_SEED", seed.to_string()), ("RNGSHIM_LOG", log.clone())]; if let Some(f) = flip { vars.push(("RNGSHIM_FLIP", f.to_string())); }
            let (b, mut v) = if *enc {
                let o = cli::run_env(&["encrypt", "-c", &r, "-s", &s, "-i", &i, "-m", &m, "-o", &ct], &vars); ensure!(o.ok(), "encrypt failed: {}", o.text());
                let b = std::fs::read(&ct).unwrap(); let n = u32::from_be_bytes(b[1..5].try_into().unwrap()) as usize;
                (b[5..5 + n].to_vec(), vec![b[b.len() - 40..b.len() - 28].to_vec()])
            } else {
                let o = cli::run_env(&["encap", "-c", &r, "-s", &s, "-i", &i, "--ciphertext", &ct, "-k", &k], &vars); ensure!(o.ok(), "encap failed: {}", o.text());
                (std::fs::read(&ct).unwrap(), vec![std::fs::read(&k).unwrap()])
            };
            let c = Ciphertext::<Bn254>::deserialize_compressed(&b[..]).map_err(|e| format!("{e:?}"))?;
            v.extend([ser(&c.encap_key.alpha_g1)[0].clone(), ser(&c.encap_key.beta_g2)[0].clone(), ser(&c.encap_key.delta_g2)[0].clone()]);
            Ok(v)
        };
        let _ = std::fs::remove_file(&log);
        let (a, b) = (go(None)?, go(None)?);
        let drawn: u64 = std::fs::read_to_string(&log).ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        if drawn == 0 { return Ok(Info::new(false).label("does not draw from the operating system through the C library")); }
        let names = [if *enc { "the nonce" } else { "the key" }, "alpha", "beta", "delta"];
        let mut n = [0; 4];
        for f in 0..drawn.min(400) { let x = go(Some(f))?; for i in 0..4 { if x[i] != a[i] { n[i] += 1; } } }
        let need = [if *enc { 8 } else { 24 }, 24, 24, 24];
        for i in 0..4 { ensure!(n[i] >= need[i] || a[i] != b[i] && n[i] == drawn.min(400) as usize, "only {} of the {drawn} bytes drawn from the operating system have an effect on {}", n[i], names[i]); }
        Ok(Info::new(true).label(format!("{drawn} bytes drawn")))
    }));
    let seen = std::sync::Mutex::new(std::collections::HashSet::<Vec<u8>>::new());
    ctx.run("cli", ctx.n(250, 4000), || (circ(2), style(), any::<bool>()).boxed(), |(c, st, enc)| DIR.with(|d| {
        let (r, s, i, m) = (d.write("c.r1cs", &c.r1cs()), d.write("c.sym", st.sym(c).as_bytes()), d.write("in.json", st.json(c, &[]).as_bytes()), d.write("m", b"same message"));
        let (ct, k) = (d.s("ct"), d.s("k"));
        for _ in 0..2 {
            let mut parts = vec![];
            let b = if *enc {
                let o = cli::run(&["encrypt", "-c", &r, "-s", &s, "-i", &i, "-m", &m, "-o", &ct]);
                ensure!(o.ok(), "encrypt failed: {}", o.text());
                let b = std::fs::read(&ct).unwrap(); let n = u32::from_be_bytes(b[1..5].try_into().unwrap()) as usize;
                parts.push(b[b.len() - 40..b.len() - 28].to_vec()); b[5..5 + n].to_vec()
            } else {
                let o = cli::run(&["encap", "-c", &r, "-s", &s, "-i", &i, "--ciphertext", &ct, "-k", &k]);
                ensure!(o.ok(), "encap failed: {}", o.text());
                parts.push(std::fs::read(&k).unwrap()); std::fs::read(&ct).unwrap()
            };
            let c = Ciphertext::<Bn254>::deserialize_compressed(&b[..]).map_err(|e| format!("{e:?}"))?;
            parts.extend([ser(&c.encap_key.alpha_g1)[0].clone(), ser(&c.encap_key.beta_g2)[0].clone(), ser(&c.encap_key.delta_g2)[0].clone()]);
            ensure!(!c.encap_key.alpha_g1.is_zero() && !c.encap_key.beta_g2.is_zero() && !c.encap_key.delta_g2.is_zero(), "a random element is the identity");
            let mut g = seen.lock().unwrap();
            for x in parts { ensure!(g.insert(x.clone()), "two runs of the tool share a key, nonce or random element ({})", to_hex(&x)); }
        }
        Ok(Info::new(true))
    }));
}
trait Dbl { fn double_(&self) -> Self; }
impl Dbl for Fr { fn double_(&self) -> Fr { *self + *self } }
const SECRETS: [&str; 5] = ["alpha", "beta", "delta", "r", "x"];
/// A fully assigned system with two extra private variables, each once on the left of one constraint with
/// coefficient 1: their published elements are r*L_j(x), from which r and x follow.
struct Marked { s: Syn, base: usize, j: [usize; 2], size: u64 }
impl Marked {
    fn of(c: &Circ, o: &Order) -> Marked {
        let base = c.n_wires(); let mut at = c.assignment(); at.extend([F::from_u64(5), F::from_u64(6)]);
        let mut rows = c.rows(); let j = [0, rows.len() + 1];
        rows.insert(0, [vec![(base, F::one())], vec![], vec![]]); rows.push([vec![(base + 1, F::one())], vec![], vec![]]);
        let size = (rows.len() + n_pub(c) + 1).next_power_of_two() as u64;
        Marked { s: Syn::of(&rows, n_pub(c), &at).ordered(o), base: base as usize, j, size }
    }
    /// alpha, beta, delta, r, x (None if the two elements cannot be solved)
    fn solve(&self, ct: &Ciphertext<Toy>) -> Option<[Fr; 5]> {
        let e = &ct.encap_key;
        let (q1, q2) = (e.r_u_query_g1.get(self.base)?.0, e.r_u_query_g1.get(self.base + 1)?.0);
        let log = self.size.trailing_zeros(); let w = two_adic_root(log);
        let pow = |j: usize| (0..j).fold(Fr::one(), |a, _| a * w);
        let (w1, w2) = (pow(self.j[0]), pow(self.j[1]));
        let x = w1 * w2 * (q1 - q2) * (q1 * w2 - q2 * w1).inverse()?;
        let mut xn = x; for _ in 0..log { xn = xn * xn; }
        let l = (xn - Fr::one()) * Fr::from(self.size).inverse()? * w1 * (x - w1).inverse()?;
        Some([e.alpha_g1.0, e.beta_g2.0, e.delta_g2.0, q1 * l.inverse()?, x])
    }
    fn run<R: rand::RngCore>(&self, r: &mut R) -> Result<Option<([Fr; 5], ())>, Fail> {
        let (ct, _) = no_panic("encap", || encap::<Toy, _, _>(self.s.clone(), r))?.map_err(|e| format!("encap failed: {}", err(e)))?;
        Ok(self.solve(&ct).map(|s| (s, ())))
    }
    fn run_script(&self, r: &mut Script) -> Result<Option<([Fr; 5], usize)>, Fail> { let x = self.run(r)?; Ok(x.map(|(s, _)| (s, r.pos))) }
}
struct Script { words: Vec<u64>, pos: usize }
impl rand::RngCore for Script {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { let w = if self.pos < self.words.len() { self.words[self.pos] } else { mix(self.pos as u64 ^ self.words[self.pos % self.words.len()]) }; self.pos += 1; w }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let w = self.next_u64().to_le_bytes(); c.copy_from_slice(&w[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}

// ------------------------------------------------------------------ P06
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Exp { Same, Change(u32, u64), Drop(u32), Add(u32, F), Swap(u32, u32), Empty, Rotate, Other(Vec<F>), Dup(u32) }
pub fn p06(ctx: &mut Ctx) {
    ctx.rule("ciphertexts with 0..40 public inputs x expected lists that are equal, changed in one position, shortened, extended, permuted or unrelated; non-trivial: at least one public input");
    let u = any::<u32>;
    let exp = move || prop_oneof![3 => Just(Exp::Same), 4 => (u(), any::<u64>()).prop_map(|(a, b)| Exp::Change(a, b)), 2 => u().prop_map(Exp::Drop), 2 => (u(), fe()).prop_map(|(a, b)| Exp::Add(a, b)), 2 => (u(), u()).prop_map(|(a, b)| Exp::Swap(a, b)), 1 => Just(Exp::Empty), 1 => Just(Exp::Rotate), 1 => proptest::collection::vec(fe(), 0..10).prop_map(Exp::Other), 1 => u().prop_map(Exp::Dup)];
    let check = |pubs: &[F], e: &Exp, verify: &dyn Fn(&[Fr]) -> bool| -> Res {
        let mut v = pubs.to_vec(); let n = v.len();
        match e {
            Exp::Same => {}
            Exp::Change(k, s) => if n > 0 { let k = *k as usize % n; v[k] = other(&v[k], &mut Rng(*s)) },
            Exp::Drop(k) => if n > 0 { v.remove(*k as usize % n); },
            Exp::Add(k, x) => v.insert(*k as usize % (n + 1), *x),
            Exp::Swap(a, b) => if n > 0 { v.swap(*a as usize % n, *b as usize % n) },
            Exp::Empty => v.clear(), Exp::Rotate => if n > 0 { v.rotate_left(1) }, Exp::Other(x) => v = x.clone(), Exp::Dup(k) => if n > 0 { let x = v[*k as usize % n]; v.push(x) },
        }
        let got = no_panic("verify_ciphertext", || verify(&v.iter().map(to_fr).collect::<Vec<_>>()))?;
        ensure!(got == (v == pubs), "verification {} although the lists are {}", if got { "accepts" } else { "rejects" }, if v == pubs { "equal" } else { "different" });
        Ok(Info::new(n > 0).label(format!("{:?}", e).split('(').next().unwrap().to_string()).label(if v == pubs { "equal" } else { "different" }))
    };
    ctx.run("toy", ctx.n(30000, 400000), || (proptest::collection::vec(fe(), 0..40), exp()).boxed(), |(p, e)| {
        let z = A1(Fr::one()); let y = A2(Fr::one());
        let ct = Ciphertext::<Toy> { encap_key: EncapKey { alpha_g1: z, beta_g2: y, delta_g2: y, r_u_query_g1: vec![], r_v_query_g2: vec![], phi_delta_query_g1: vec![], h_query_g1: vec![] }, public_inputs: p.iter().map(to_fr).collect() };
        check(p, e, &|v| verify_ciphertext::<Toy>(&ct, v))
    });
    ctx.run("encapsulated", ctx.n(600, 8000), || (circ(2), exp(), any::<u64>()).boxed(), |(c, e, s)| {
        let (ct, _) = encap::<Bn254, _, _>(Syn::of(&c.rows(), n_pub(c), &c.assignment()).public_only(), &mut rng(*s)).map_err(err)?;
        check(&c.publics(), e, &|v| verify_ciphertext::<Bn254>(&ct, v))
    });
}

// ------------------------------------------------------------------ P07
fn two_adic_root(log: u32) -> Fr { let mut r = Fr::from_dec("19103219067921713944291392827692070036145651957329286315305642004821462161904"); for _ in log..28 { r = r * r; } r }
pub fn p07(ctx: &mut Ctx) {
    ctx.rule("fully assigned constraint systems with variables allocated in any order; the exponents published by the toy engine are compared with polynomials interpolated independently; the secret point is solved from two marker constraints; non-trivial: at least two constraints besides the markers");
    let (n1, n2) = (ctx.n(4000, 60000), ctx.n(150, 2000));
    let mut go = |name: &str, n: u32, maxc: usize| ctx.run(name, n, || (circ(maxc), order(), any::<u64>(), any::<u32>(), any::<u32>()).boxed(), |(c, o, seed, m1, m2)| {
        // two extra private variables, each with coefficient 1 on the left of one constraint: s_j * 0 = 0
        let mut c = c.clone();
        let base = c.n_wires();
        let rows0 = c.rows();
        let mut at = c.assignment(); at.extend([F::from_u64(5), F::from_u64(6)]);
        c.n_int += 2;
        let mut rows = rows0.clone();
        let j1 = *m1 as usize % (rows.len() + 1); rows.insert(j1, [vec![(base, F::one())], vec![], vec![]]);
        let mut j2 = *m2 as usize % (rows.len() + 1); if j2 <= j1 { j2 = j1 + 1 } rows.insert(j2, [vec![(base + 1, F::one())], vec![], vec![]]);
        let np = n_pub(&c);
        let s = Syn::of(&rows, np, &at).ordered(o);
        let (ct, _) = no_panic("encap", || encap::<Toy, _, _>(s, &mut rng(*seed)))?.map_err(|e| format!("encap failed: {}", err(e)))?;
        let ek = &ct.encap_key;
        let m = at.len();
        ensure!(ek.r_u_query_g1.len() == m && ek.r_v_query_g2.len() == m && ek.phi_delta_query_g1.len() == m, "{}, {}, {} query elements for {} variables", ek.r_u_query_g1.len(), ek.r_v_query_g2.len(), ek.phi_delta_query_g1.len(), m);
        // interpolation over the roots of unity; constraint j at the j-th power
        let size = (rows.len() + np + 1).next_power_of_two() as u64; let log = size.trailing_zeros();
        let w = two_adic_root(log);
        let mut pw = vec![Fr::one()]; for i in 1..rows.len() { pw.push(pw[i - 1] * w); }
        // u(marker) = L_j(x) = (x^n - 1) w^j / (n (x - w^j)); the quotient of the two markers gives x
        let (q1, q2) = (ek.r_u_query_g1[base as usize].0, ek.r_u_query_g1[base as usize + 1].0);
        ensure!(!q1.is_zero() && !q2.is_zero(), "a variable that occurs in a constraint got the identity");
        let (w1, w2) = (pw[j1], pw[j2]);
        // q1/q2 = w1 (x - w2) / (w2 (x - w1))  =>  x (q1 w2 - q2 w1) = w1 w2 (q1 - q2)
        let den = q1 * w2 - q2 * w1;
        ensure!(!den.is_zero(), "the marker elements do not come from one secret point");
        let x = w1 * w2 * (q1 - q2) * den.inverse().unwrap();
        let mut xn = x; for _ in 0..log { xn = xn * xn; }
        let num = (xn - Fr::one()) * Fr::from(size).inverse().unwrap();
        let lag: Vec<Fr> = pw.iter().map(|p| num * *p * (x - *p).inverse().unwrap_or(Fr::zero())).collect();
        let r = q1 * lag[j1].inverse().ok_or("the secret point is in the domain")?;
        ensure!(!r.is_zero() && !r.is_one(), "the scaling secret r is {r}");
        ensure!(q2 == r * lag[j2], "the two marker elements are not scaled alike");
        let (mut u, mut v, mut ww) = (vec![Fr::zero(); m], vec![Fr::zero(); m], vec![Fr::zero(); m]);
        let mut used = vec![false; m];
        for (j, row) in rows.iter().enumerate() { for (k, dst) in [&mut u, &mut v, &mut ww].into_iter().enumerate() { for (i, c) in &row[k] { dst[*i as usize] += lag[j] * to_fr(c); used[*i as usize] = true; } } }
        let (al, be, de) = (ek.alpha_g1.0, ek.beta_g2.0, ek.delta_g2.0);
        let di = de.inverse().ok_or("delta is zero")?;
        for i in 0..m {
            let what = if i == 0 { "the constant".to_string() } else if i <= np { format!("public variable {i}") } else { format!("private variable {}", i - np) };
            ensure!(ek.r_u_query_g1[i].0 == r * u[i], "left element of {what} is not r*u(x)");
            ensure!(ek.r_v_query_g2[i].0 == r * v[i], "right element of {what} is not r*v(x)");
            ensure!(ek.phi_delta_query_g1[i].0 == (r * be * u[i] + r * al * v[i] + r * r * ww[i]) * di, "combined element of {what} is wrong");
            if !used[i] { ensure!(ek.r_u_query_g1[i].0.is_zero() && ek.r_v_query_g2[i].0.is_zero() && ek.phi_delta_query_g1[i].0.is_zero(), "{what} occurs in no constraint but its elements are not the identity"); }
        }
        Ok(Info::new(rows0.len() >= 2).label_if(used.iter().any(|x| !x), "unused variable").label_if(matches!(o, Order::Mixed(_)), "mixed allocation").label_if((rows.len() + np + 1).is_power_of_two(), "domain exactly full").label_if(np == 0, "no public input"))
    });
    go("toy", n1, 8);
    go("toy-large", n2, 140);
    // the same on the real curve: consistency by pairings
    ctx.run("bn254", ctx.n(60, 800), || (circ(3), any::<u64>()).boxed(), |(c, seed)| {
        let rows = c.rows(); let m = c.n_wires() as usize;
        let s = Syn::of(&rows, n_pub(c), &c.assignment());
        let (ct, _) = encap::<Bn254, _, _>(s.clone(), &mut rng(*seed)).map_err(err)?;
        // the toy engine consumes the same randomness: its exponents must be those of the curve points
        let (toy, _) = encap::<Toy, _, _>(s, &mut rng(*seed)).map_err(err)?;
        let g1 = <Bn254 as Pairing>::G1::generator(); let g2 = <Bn254 as Pairing>::G2::generator();
        let (e, t) = (&ct.encap_key, &toy.encap_key);
        ensure!(e.r_u_query_g1.len() == m && e.r_v_query_g2.len() == m && e.phi_delta_query_g1.len() == m, "wrong number of elements");
        ensure!(e.alpha_g1 == (g1 * t.alpha_g1.0).into_affine() && e.beta_g2 == (g2 * t.beta_g2.0).into_affine() && e.delta_g2 == (g2 * t.delta_g2.0).into_affine(), "alpha, beta or delta is not the generator times the secret");
        for i in 0..m { ensure!(e.r_u_query_g1[i] == (g1 * t.r_u_query_g1[i].0).into_affine() && e.r_v_query_g2[i] == (g2 * t.r_v_query_g2[i].0).into_affine() && e.phi_delta_query_g1[i] == (g1 * t.phi_delta_query_g1[i].0).into_affine(), "element {i} differs between the engines"); }
        Ok(Info::new(rows.len() >= 2))
    });
}

// ------------------------------------------------------------------ P08
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ct { seed: u64, lens: [u8; 4], zeros: u8, pubs: Vec<F>, key: Hex, compress: bool, hurt: Vec<(u32, u8)>, cut: u32 }
fn make(c: &Ct) -> Ciphertext<Bn254> {
    let mut r = rng(c.seed);
    type G1 = <Bn254 as Pairing>::G1; type G2 = <Bn254 as Pairing>::G2;
    let g1 = G1::generator(); let g2 = G2::generator();
    let mut k = 0u8;
    let z = c.zeros;
    let mut a = |r: &mut StdRng| { k = k.wrapping_add(1); if z & (1 << (k % 8)) != 0 && k > 3 { <Bn254 as Pairing>::G1Affine::zero() } else { (g1 * Fr::rand(r)).into_affine() } };
    let mut q = 0u8;
    let mut b = |r: &mut StdRng| { q = q.wrapping_add(1); if z & (1 << (q % 8)) != 0 && q > 3 { <Bn254 as Pairing>::G2Affine::zero() } else { (g2 * Fr::rand(r)).into_affine() } };
    let (alpha_g1, beta_g2, delta_g2) = (a(&mut r), b(&mut r), b(&mut r));
    let l = c.lens;
    EncapKey { alpha_g1, beta_g2, delta_g2, r_u_query_g1: (0..l[0] % 6).map(|_| a(&mut r)).collect(), r_v_query_g2: (0..l[1] % 6).map(|_| b(&mut r)).collect(), phi_delta_query_g1: (0..l[2] % 6).map(|_| a(&mut r)).collect(), h_query_g1: (0..l[3] % 3).map(|_| a(&mut r)).collect() }
        .pipe(|encap_key| Ciphertext { encap_key, public_inputs: c.pubs.iter().map(to_fr).collect() })
}
trait Pipe: Sized { fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T { f(self) } }
impl<T> Pipe for T {}
fn ct_strategy() -> BoxedStrategy<Ct> {
    (any::<u64>(), any::<[u8; 4]>(), prop_oneof![Just(0u8), any::<u8>()], proptest::collection::vec(fe(), 0..6), bytes_len(32..33), any::<bool>(), proptest::collection::vec((any::<u32>(), any::<u8>()), 1..5), any::<u32>())
        .prop_map(|(seed, lens, zeros, pubs, key, compress, hurt, cut)| Ct { seed, lens, zeros, pubs, key, compress, hurt, cut }).boxed()
}
fn enc(c: &Ciphertext<Bn254>, comp: bool) -> Result<Vec<u8>, Fail> { let mut v = vec![]; if comp { c.serialize_compressed(&mut v) } else { c.serialize_uncompressed(&mut v) }.map_err(|e| format!("encoding failed: {e:?}"))?; Ok(v) }
fn dec(b: &[u8], comp: bool) -> Result<Result<Ciphertext<Bn254>, String>, Fail> { no_panic("decoding a ciphertext", || if comp { Ciphertext::<Bn254>::deserialize_compressed(b) } else { Ciphertext::<Bn254>::deserialize_uncompressed(b) }.map_err(|e| format!("{e:?}"))) }
pub fn p08(ctx: &mut Ctx) {
    ctx.rule("ciphertexts built from random group elements (vectors of 0..5, identity elements, any field elements) and from encapsulations; encoded in both forms, cut at every position, damaged; non-trivial: at least one query element and one public input");
    ctx.risky = true;
    ctx.run("round-trip", ctx.n(1200, 20000), ct_strategy, |c| {
        let ct = make(c);
        let b = enc(&ct, c.compress)?;
        let mode = if c.compress { Compress::Yes } else { Compress::No };
        ensure!(b.len() == ct.serialized_size(mode), "{} bytes written, {} announced", b.len(), ct.serialized_size(mode));
        let back = bounded(b.len(), || dec(&b, c.compress))???;
        ensure!(back == ct, "decoding gave another ciphertext");
        let unchecked = Ciphertext::<Bn254>::deserialize_with_mode(&b[..], mode, Validate::No).map_err(|e| format!("{e:?}"))?;
        ensure!(unchecked == ct, "decoding without validation gave another ciphertext");
        ensure!(enc(&back, c.compress)? == b, "encoding is not canonical");
        let other = enc(&ct, !c.compress)?;
        ensure!(dec(&other, !c.compress)?? == ct, "the other form decodes differently");
        let mut k = [0u8; 32]; k.copy_from_slice(&c.key);
        let key = Key::new(k);
        let mut kb = vec![]; key.serialize_compressed(&mut kb).map_err(|e| format!("{e:?}"))?;
        ensure!(kb == k && key.as_bytes() == &k, "the encoded key is not its 32 bytes: {}", to_hex(&kb));
        let mut ku = vec![]; key.serialize_uncompressed(&mut ku).map_err(|e| format!("{e:?}"))?; ensure!(ku == k, "the uncompressed key is not its 32 bytes");
        ensure!(Key::deserialize_compressed(&kb[..]).map_err(|e| format!("{e:?}"))? == key, "the key decodes to another key");
        for n in 0..32 { ensure!(no_panic("decoding a key", || Key::deserialize_compressed(&kb[..n]))?.is_err(), "a key of {n} bytes was accepted"); }
        Ok(Info::new(!ct.encap_key.r_u_query_g1.is_empty() && !ct.public_inputs.is_empty()).label(if c.compress { "compressed" } else { "uncompressed" }).label_if(c.zeros != 0, "identity elements"))
    });
    ctx.run("cut", ctx.n(60, 800), ct_strategy, |c| {
        let ct = make(c); let b = enc(&ct, c.compress)?;
        // cheap cuts everywhere near the ends and between, exhaustive over a window
        let start = c.cut as usize % b.len();
        for n in (0..b.len()).step_by(29).chain(start..(start + 40).min(b.len())).chain(b.len().saturating_sub(40)..b.len()) { ensure!(dec(&b[..n], c.compress)?.is_err(), "the first {n} of {} bytes were decoded", b.len()); }
        Ok(Info::new(true))
    });
    ctx.run("damaged", ctx.n(3000, 50000), ct_strategy, |c| {
        let ct = make(c); let mut b = enc(&ct, c.compress)?; let good = b.clone();
        for (p, x) in &c.hurt { let k = *p as usize % b.len(); if p % 3 == 0 { for y in b[k..].iter_mut().take(8) { *y = if x % 2 == 0 { 0xff } else { *x } } } else { b[k] = *x } }
        let r = bounded(b.len(), || dec(&b, c.compress))??;
        if let Ok(v) = r { if b != good { let again = enc(&v, c.compress)?; ensure!(again.len() <= b.len() && dec(&again, c.compress)?? == v, "a decoded ciphertext does not survive encoding"); } }
        Ok(Info::new(b != good))
    });
    ctx.run("still-opens", ctx.n(250, 4000), || (circ(4), any::<u64>(), any::<bool>(), any::<bool>()).boxed(), |(c, s, comp, full)| {
        let syn = Syn::of(&c.rows(), n_pub(c), &c.assignment());
        let (ct, key) = encap::<Bn254, _, _>(if *full { syn.clone() } else { syn.clone().public_only() }, &mut rng(*s)).map_err(err)?;
        let b = enc(&ct, *comp)?;
        let back = dec(&b, *comp)??;
        ensure!(back == ct, "decoding gave another ciphertext");
        let (k1, k2) = (decap::<Bn254, _>(syn.clone(), &ct).map_err(err)?, decap::<Bn254, _>(syn, &back).map_err(err)?);
        ensure!(k1 == k2, "the decoded ciphertext opens to another key");
        if !*full { ensure!(k1 == key, "the ciphertext opens to another key than encap gave"); }
        Ok(Info::new(true))
    });
    thread_local! { static DIR: Scratch = Scratch::new("p08"); }
    ctx.run("cli-files", ctx.n(150, 2500), || (circ(3), style(), any::<u32>(), any::<u32>()).boxed(), |(c, st, cut, pos)| DIR.with(|d| {
        let (r, s, i, w) = (d.write("c.r1cs", &c.r1cs()), d.write("c.sym", st.sym(c).as_bytes()), d.write("in.json", st.json(c, &[]).as_bytes()), d.write("w.wtns", &c.wtns()));
        let (ct, k, k2) = (d.s("ct"), d.s("k"), d.s("k2"));
        let o = cli::run(&["encap", "-c", &r, "-s", &s, "-i", &i, "--ciphertext", &ct, "-k", &k]);
        ensure!(o.ok(), "encap failed: {}", o.text());
        let (b, key) = (std::fs::read(&ct).map_err(|e| e.to_string())?, std::fs::read(&k).map_err(|e| e.to_string())?);
        ensure!(key.len() == 32, "a key file of {} bytes", key.len());
        ensure!(recorded(&b)? == c.publics(), "the file records other public inputs");
        let back = dec(&b, true)??; ensure!(enc(&back, true)? == b, "the ciphertext file is not exactly an encoded ciphertext");
        let n = *cut as usize % b.len(); let bad = d.write("bad", &b[..n]);
        let _ = std::fs::remove_file(&k2);
        let o = cli::run(&["decap", "-c", &r, "-w", &w, "--ciphertext", &bad, "-k", &k2]);
        o.refused().map_err(|e| format!("the first {n} of {} bytes: {e}", b.len()))?;
        ensure!(!d.path("k2").exists(), "a key was written for a cut ciphertext");
        let mut x = b.clone(); let p = *pos as usize % x.len(); x[p] ^= 1 << (pos >> 16) % 8; let bad = d.write("bad", &x);
        let o = cli::run(&["decap", "-c", &r, "-w", &w, "--ciphertext", &bad, "-k", &k2]);
        o.no_crash()?;
        Ok(Info::new(true))
    }));
}
