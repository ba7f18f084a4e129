use crate::sym_parser::{get_input_signals, parse_sym_file};
use hcommon::runner::no_panic;
use hcommon::{ensure, *};
use proptest::prelude::*;
use std::collections::HashMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Line { label: u32, wire: i32, comp: u32, name: String, blank_before: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sym { lines: Vec<Line>, stray: Vec<(u16, String)>, crlf: bool, final_newline: bool, max: Option<u32> }
pub fn name() -> BoxedStrategy<String> {
    let ident = prop_oneof![20 => "[a-zA-Z_$][a-zA-Z0-9_$]{0,8}", 1 => "[a-zA-Z_$][a-zA-Z0-9_$]{20,300}"];
    let idx = proptest::collection::vec(prop_oneof![8 => 0u32..1200, 1 => any::<u32>()], 0..4).prop_map(|v| v.iter().map(|i| format!("[{}]", i)).collect::<String>());
    let seg = (ident, idx).prop_map(|(a, b)| a + &b);
    let path = prop_oneof![12 => proptest::collection::vec(seg.clone(), 1..4), 1 => proptest::collection::vec(seg, 5..12)].prop_map(|v| v.join("."));
    (prop_oneof![12 => Just("main."), 1 => Just("mainx."), 1 => Just("other."), 1 => Just("main.main."), 1 => Just("")], path).prop_map(|(p, s)| format!("{}{}", p, s)).boxed()
}
fn sym(maxlen: usize) -> BoxedStrategy<Sym> {
    let wire = prop_oneof![2 => Just(-1i32), 6 => 0i32..40, 2 => 0i32..100_000, 1 => Just(i32::MAX), 1 => Just(0)];
    let line = (any::<u32>(), wire, prop_oneof![8 => 0u32..500, 1 => any::<u32>()], name(), prop_oneof![12 => Just(0u8), 1 => 1u8..3]).prop_map(|(label, wire, comp, name, blank_before)| Line { label, wire, comp, name, blank_before });
    // lines that do not have four fields
    let stray = (any::<u16>(), prop_oneof![(0u32..60, name()).prop_map(|(w, n)| format!("7,{w},3,{n},x")), (0u32..60, name()).prop_map(|(w, n)| format!("{w},{w},{n}")), name().prop_map(|n| format!("3,{n}")), name(),
        proptest::sample::select(vec!["# comment", ",", ",,", ",,,,", "   ", "\t", "1,2,3"]).prop_map(|s| s.to_string())]);
    let stray = prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec(stray, 1..5)];
    (proptest::collection::vec(line, 0..maxlen), stray, any::<bool>(), any::<bool>(), prop_oneof![1 => Just(None), 4 => (0u32..45).prop_map(Some), 1 => any::<u32>().prop_map(Some), 1 => Just(Some(i32::MAX as u32)), 1 => Just(Some(0))])
        .prop_map(|(mut lines, stray, crlf, final_newline, max)| {
            let mut seen = std::collections::HashSet::new();
            lines.retain(|l| seen.insert(l.name.clone()));
            Sym { lines, stray, crlf, final_newline, max }
        }).boxed()
}
pub fn write(s: &Sym) -> String {
    let nl = if s.crlf { "\r\n" } else { "\n" };
    let mut lines: Vec<String> = s.lines.iter().map(|l| format!("{}{},{},{},{}", nl.repeat(l.blank_before as usize), l.label, l.wire, l.comp, l.name)).collect();
    for (at, t) in &s.stray { let i = *at as usize % (lines.len() + 1); lines.insert(i, t.clone()); }
    lines.join(nl) + if s.final_newline { nl } else { "" }
}
fn oracle(s: &Sym) -> Res {
    let t = write(s);
    let got = no_panic("parse_sym_file", || parse_sym_file(&t))?.map_err(|e| format!("a well-formed symbol file was refused: {e}"))?;
    let want: HashMap<String, u32> = s.lines.iter().filter(|l| l.wire >= 0).map(|l| (l.name.clone(), l.wire as u32)).collect();
    for (k, v) in &want { ensure!(got.get(k) == Some(v), "signal {:?}: got wire {:?}, the file says {}", k, got.get(k), v); }
    for k in got.keys() { ensure!(want.contains_key(k), "signal {:?} is not in the file with a wire", k); }
    let sel = no_panic("get_input_signals", || get_input_signals(&got, s.max))?;
    let wsel: HashMap<String, u32> = want.iter().filter(|(k, v)| k.starts_with("main.") && s.max.map_or(true, |m| **v <= m)).map(|(k, v)| (k["main.".len()..].to_string(), *v)).collect();
    for (k, v) in &wsel { ensure!(sel.get(k) == Some(v), "selection with maximum {:?}: {:?} is {:?}, expected wire {}", s.max, k, sel.get(k), v); }
    for (k, v) in &sel { ensure!(wsel.contains_key(k), "selection with maximum {:?} contains {:?} (wire {})", s.max, k, v); }
    let hit = s.max.map_or(false, |m| want.values().any(|v| *v == m));
    Ok(Info::new(want.len() >= 2).label_if(s.lines.iter().any(|l| l.wire < 0), "optimised-away signal").label_if(s.crlf, "crlf").label_if(!s.stray.is_empty(), "lines without four fields").label_if(hit, "a wire equals the maximum")
        .label_if(s.lines.len() > 100, "more than 100 lines").label_if(want.keys().any(|k| k.matches('[').count() >= 2), "several indices").label_if(want.keys().any(|k| k.matches('.').count() >= 2), "nested component").label_if(s.lines.iter().any(|l| l.blank_before > 0), "blank lines"))
}
pub fn p13(ctx: &mut Ctx) {
    ctx.rule("symbol files of 0..2500 lines with distinct names, indices, components, wire -1, blank lines, lines without four fields, both line endings x maxima; non-trivial: at least two signals with a wire");
    ctx.run("sym-small", ctx.n(30000, 300000), || sym(14), oracle);
    ctx.run("sym-large", ctx.n(120, 1200), || sym(2500), oracle);
}
