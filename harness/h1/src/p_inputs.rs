use crate::circom::parse_inputs;
use hcommon::runner::no_panic;
use hcommon::scratch::Scratch;
use hcommon::{ensure, *};
use proptest::prelude::*;

/// A JSON value together with the exact text it is written as.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum J { S(String), I(i64), U(u64), D(i32, u8), B(bool), N, A(Vec<J>) }
fn scalar() -> BoxedStrategy<J> {
    prop_oneof![
        3 => "[0-9]{1,80}".prop_map(J::S), 2 => "\\PC{0,12}".prop_map(J::S), 1 => "-?0x[0-9a-f]{0,8}".prop_map(J::S), 1 => Just(J::S(String::new())),
        1 => "[ \\t\\n\"\\\\a-z]{0,6}".prop_map(J::S),
        3 => any::<i64>().prop_map(J::I), 2 => (-5i64..300).prop_map(J::I), 2 => any::<u64>().prop_map(J::U), 1 => (-100i32..100, 1u8..10).prop_map(|(a, b)| J::D(a, b)),
        2 => any::<bool>().prop_map(J::B), 1 => Just(J::N),
    ].boxed()
}
fn value() -> BoxedStrategy<J> { scalar().prop_recursive(6, 60, 6, |i| proptest::collection::vec(i, 0..6).prop_map(J::A)).boxed() }
fn esc(s: &str) -> String { serde_json::to_string(s).unwrap() }
fn text(j: &J, ws: &str, o: &mut String) {
    match j {
        J::S(s) => o.push_str(&esc(s)), J::I(i) => o.push_str(&i.to_string()), J::U(u) => o.push_str(&u.to_string()),
        J::D(a, b) => o.push_str(&format!("{}.{}", a, b)), J::B(b) => o.push_str(if *b { "true" } else { "false" }), J::N => o.push_str("null"),
        J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); o.push_str(ws); } text(x, ws, o); } o.push_str(ws); o.push(']'); }
    }
}
fn leaves(j: &J, o: &mut Vec<String>) {
    match j {
        J::S(s) => o.push(s.clone()), J::I(i) => o.push(i.to_string()), J::U(u) => o.push(u.to_string()), J::D(a, b) => o.push(format!("{}.{}", a, b)),
        J::B(b) => o.push(if *b { "1" } else { "0" }.into()), J::N => o.push("0".into()), J::A(v) => for x in v { leaves(x, o) },
    }
}
fn depth(j: &J) -> usize { match j { J::A(v) => 1 + v.iter().map(depth).max().unwrap_or(0), _ => 0 } }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Doc { keys: Vec<(String, J)>, ws: String }
fn doc() -> BoxedStrategy<Doc> {
    let key = prop_oneof![4 => "[a-zA-Z_][a-zA-Z0-9_]{0,6}", 1 => "\\PC{0,8}", 1 => "[a-c]\\[[0-9]\\]", 1 => "[a-c]\\.[a-c]"];
    (proptest::collection::vec((key, value()), 0..8), prop_oneof![Just(""), Just(" "), Just("\n  "), Just("\t")]).prop_map(|(mut keys, ws)| {
        let mut seen = std::collections::HashSet::new();
        keys.retain(|(k, _)| seen.insert(k.clone()));
        Doc { keys, ws: ws.to_string() }
    }).boxed()
}
fn write(d: &Doc) -> String {
    let mut o = String::from("{");
    for (i, (k, v)) in d.keys.iter().enumerate() { if i > 0 { o.push(','); } o.push_str(&d.ws); o.push_str(&esc(k)); o.push_str(&d.ws); o.push(':'); text(v, &d.ws, &mut o); }
    o.push_str(&d.ws); o.push('}'); o
}
thread_local! { static DIR: Scratch = Scratch::new("inputs"); }
pub fn p16(ctx: &mut Ctx) {
    ctx.rule("objects of up to 8 names with scalars and arrays nested to depth 6; non-trivial: at least one nested array with two leaves");
    ctx.run("flatten", ctx.n(40000, 400000), doc, |d| {
        let p = DIR.with(|s| s.write("in.json", write(d).as_bytes()));
        let got = no_panic("parse_inputs", || parse_inputs(&p))?.map_err(|e| format!("a valid object was refused: {e:#}"))?;
        ensure!(got.len() == d.keys.len(), "{} names in the file, {} in the result", d.keys.len(), got.len());
        let mut multi = false; let mut deep = 0; let mut empty = false;
        for (k, v) in &d.keys {
            let mut want = vec![]; leaves(v, &mut want);
            let g = got.get(k).ok_or_else(|| format!("name {:?} is missing", k))?;
            ensure!(*g == want, "name {:?}: got {:?}, the file says {:?}", k, g, want);
            multi |= depth(v) >= 1 && want.len() >= 2; deep = deep.max(depth(v)); empty |= want.is_empty();
        }
        Ok(Info::new(multi).label(format!("depth {}", deep)).label_if(empty, "empty array").label_if(d.keys.is_empty(), "empty object"))
    });
    ctx.run("refuse", ctx.n(20000, 200000), || (doc(), 0u8..6, 0usize..10_000, value()).boxed(), |(d, kind, pos, v)| {
        let full = write(d);
        let bad: Option<Vec<u8>> = match kind {
            0 => None, // no such file
            1 => { let n = pos % full.trim_end().len(); Some(full.as_bytes()[..n].to_vec()) } // cut short
            2 => { let mut o = String::new(); text(v, " ", &mut o); Some(o.into_bytes()) } // not an object
            3 => Some([full.as_bytes(), b"}"].concat()),
            4 => Some([full.as_bytes(), b" x"].concat()),
            _ => { let mut b = full.clone().into_bytes(); b[0] = b'('; Some(b) }
        };
        let r = DIR.with(|s| {
            let p = match bad { None => s.s(&format!("missing-{}", pos)), Some(b) => s.write("bad.json", &b) };
            no_panic("parse_inputs", || parse_inputs(&p))
        })?;
        ensure!(r.is_err(), "kind {} was accepted: {:?}", kind, r.unwrap());
        Ok(Info::new(true).label(format!("kind {}", kind)))
    });
    ctx.run("refuse-directory-or-binary", ctx.n(400, 2000), || proptest::collection::vec(any::<u8>(), 0..40).boxed(), |b| {
        let r = DIR.with(|s| no_panic("parse_inputs", || parse_inputs(s.dir())))?;
        ensure!(r.is_err(), "a directory was accepted");
        let valid = serde_json::from_slice::<serde_json::Value>(b).map(|v| v.is_object()).unwrap_or(false);
        let r = DIR.with(|s| { let p = s.write("raw", b); no_panic("parse_inputs", || parse_inputs(&p)) })?;
        ensure!(r.is_ok() == valid, "raw bytes: accepted = {}, valid object = {}", r.is_ok(), valid);
        Ok(Info::new(!b.is_empty()))
    });
}
