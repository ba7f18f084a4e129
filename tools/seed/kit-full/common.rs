//! Writers for circuit and witness files, and a runner for the built command-line tool.
#![allow(dead_code)]
use std::process::Command;
pub const P: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
pub fn prime() -> Vec<u8> { P.iter().flat_map(|x| x.to_le_bytes()).collect() }
pub fn le(x: u64) -> Vec<u8> { let mut v = x.to_le_bytes().to_vec(); v.resize(32, 0); v }
pub type Lc = Vec<(u32, Vec<u8>)>;
pub fn lc(t: &[(u32, u64)]) -> Lc { t.iter().map(|(w, c)| (*w, le(*c))).collect() }
fn sections(magic: &[u8], version: u32, s: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let mut v = magic.to_vec(); v.extend(version.to_le_bytes()); v.extend((s.len() as u32).to_le_bytes());
    for (t, b) in s { v.extend(t.to_le_bytes()); v.extend((b.len() as u64).to_le_bytes()); v.extend(b); }
    v
}
pub fn r1cs(n_wires: u32, n_out: u32, n_in: u32, cons: &[[Lc; 3]]) -> Vec<u8> {
    let mut h = 32u32.to_le_bytes().to_vec(); h.extend(prime());
    for x in [n_wires, n_out, n_in, 0] { h.extend(x.to_le_bytes()); }
    h.extend((n_wires as u64).to_le_bytes()); h.extend((cons.len() as u32).to_le_bytes());
    let mut b = vec![];
    for c in cons { for l in c { b.extend((l.len() as u32).to_le_bytes()); for (w, v) in l { b.extend(w.to_le_bytes()); b.extend(v); } } }
    sections(b"r1cs", 1, &[(1, h), (2, b)])
}
pub fn wtns(values: &[Vec<u8>]) -> Vec<u8> { wtns_v(2, values) }
pub fn wtns_v(version: u32, values: &[Vec<u8>]) -> Vec<u8> {
    let mut h = 32u32.to_le_bytes().to_vec(); h.extend(prime()); h.extend((values.len() as u32).to_le_bytes());
    sections(b"wtns", version, &[(1, h), (2, values.concat())])
}
pub fn sym(names: &[&str]) -> String { names.iter().enumerate().map(|(i, n)| format!("{},{},0,main.{}\n", i + 1, i + 1, n)).collect() }
pub fn put(name: &str, b: impl AsRef<[u8]>) { std::fs::write(name, b).unwrap() }
pub fn get(name: &str) -> Vec<u8> { std::fs::read(name).unwrap_or_default() }
/// Exit status and standard error of the tool.
pub fn zkenc(args: &str) -> (Option<i32>, String) {
    let o = Command::new(std::env::current_exe().unwrap().with_file_name("zkenc")).args(args.split(' ')).output().unwrap();
    (o.status.code(), String::from_utf8_lossy(&o.stderr).into())
}
pub fn encap(tag: &str) -> (Option<i32>, String) { zkenc(&format!("encap -c c.r1cs -s c.sym -i in.json --ciphertext {tag}.ct -k {tag}.key")) }
pub fn encrypt(tag: &str) -> (Option<i32>, String) { zkenc(&format!("encrypt -c c.r1cs -s c.sym -i in.json -m msg -o {tag}.box")) }
pub fn decrypt(tag: &str) -> (Option<i32>, String) { zkenc(&format!("decrypt -c c.r1cs -w w.wtns -i {tag}.box -o {tag}.out")) }
pub fn decap(tag: &str) -> (Option<i32>, String) { zkenc(&format!("decap -c c.r1cs -w w.wtns --ciphertext {tag}.ct -k {tag}.key2")) }
/// c = a * b with public output c and public input a.
pub fn setup() {
    put("c.r1cs", r1cs(4, 1, 1, &[[lc(&[(2, 1)]), lc(&[(3, 1)]), lc(&[(1, 1)])]]));
    put("c.sym", sym(&["c", "a", "b"])); put("in.json", r#"{"c":"15","a":3}"#);
    put("w.wtns", wtns(&[le(1), le(15), le(3), le(5)])); put("msg", b"hello");
}
/// Compressed size of the group part, then the recorded public inputs of a ciphertext made for `n` of them.
pub fn publics(ct: &[u8], n: usize) -> Vec<Vec<u8>> { let t = &ct[ct.len() - 32 * n..]; assert_eq!(&ct[ct.len() - 32 * n - 8..ct.len() - 32 * n], &(n as u64).to_le_bytes()); t.chunks(32).map(|c| c.to_vec()).collect() }
pub fn fail(m: &str) -> ! { eprintln!("FAILED: {m}"); std::process::exit(1) }
pub fn check(c: bool, m: &str) { if !c { fail(m) } }
