//! Byte strings that serialise as hexadecimal text, so that replay files stay readable.
use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Hex(pub Vec<u8>);
impl std::fmt::Debug for Hex {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", to_hex(&self.0)) }
}
impl std::ops::Deref for Hex { type Target = Vec<u8>; fn deref(&self) -> &Vec<u8> { &self.0 } }
pub fn to_hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn from_hex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 { return None; }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
impl Serialize for Hex { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&to_hex(&self.0)) } }
impl<'de> Deserialize<'de> for Hex {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        from_hex(&s).map(Hex).ok_or_else(|| serde::de::Error::custom("bad hex"))
    }
}
/// Bytes of any length in the given range: random, all equal, or ascending.
pub fn bytes_len(r: std::ops::Range<usize>) -> BoxedStrategy<Hex> {
    prop_oneof![
        6 => proptest::collection::vec(any::<u8>(), r.clone()),
        1 => (r.clone(), prop_oneof![Just(0u8), Just(0xff), any::<u8>()]).prop_map(|(n, b)| vec![b; n]),
        1 => r.prop_map(|n| (0..n).map(|i| i as u8).collect::<Vec<u8>>()),
    ].prop_map(Hex).boxed()
}
/// Messages: empty, around cipher block boundaries, short text, up to a few blocks, rarely long.
pub fn message(max: usize) -> BoxedStrategy<Hex> {
    prop_oneof![
        1 => Just(Hex(vec![])),
        3 => (0usize..10, 0usize..3, any::<u8>()).prop_flat_map(|(b, d, _)| { let n = (b * 16 + d).saturating_sub(1); bytes_len(n..n + 1) }),
        2 => "\\PC{0,40}".prop_map(|s| Hex(s.into_bytes())),
        4 => bytes_len(0..200),
        1 => bytes_len(0..max.max(1)),
    ].boxed()
}
pub fn key32() -> BoxedStrategy<Hex> {
    prop_oneof![
        8 => proptest::collection::vec(any::<u8>(), 32),
        1 => any::<u8>().prop_map(|b| vec![b; 32]),
        1 => (0usize..256).prop_map(|i| { let mut v = vec![0u8; 32]; v[i / 8] = 1 << (i % 8); v }),
    ].prop_map(Hex).boxed()
}
/// Numbers that are nearly, or in some bytes, the expected one.
pub fn not_quite(x: u32) -> BoxedStrategy<u32> {
    prop_oneof![3 => 0u32..6, 2 => (0u32..32).prop_map(move |b| x ^ (1 << b)), 1 => (1u32..4).prop_map(move |b| x << (8 * b)), 1 => (1u32..0xffff).prop_map(move |h| x | h << 16), 1 => any::<u32>()].boxed()
}

pub const TRANSPORTS: u8 = 30;
/// What mail, editors, shells, padding and text encodings typically do to a file.
pub fn transport(kind: u8, b: &[u8]) -> Vec<u8> {
    let add = |x: &[u8]| [b, x].concat();
    let pre = |x: &[u8]| [x, b].concat();
    let pad = (16 - b.len() % 16) as u8;
    let trim = |f: fn(u8) -> bool| { let mut v = b.to_vec(); while v.last().map_or(false, |x| f(*x)) { v.pop(); } v };
    match kind % TRANSPORTS {
        0 => add(b"\n"), 1 => add(b"\r\n"), 2 => add(b"\r"), 3 => add(b"\0"), 4 => add(b" "), 5 => add(b"\t"), 6 => add(&[0x1a]), 7 => add(&[0xff]), 8 => add(b"\n\n"),
        9 => add(&vec![0; pad as usize]), 10 => add(&vec![pad; pad as usize]), 11 => add(&[0; 16]), 12 => add(&[0; 4]), 13 => add(&vec![0; (512 - b.len() % 512) % 512 + 1]),
        14 => pre(b"\n"), 15 => pre(b" "), 16 => pre(b"\0"), 17 => pre(&[0xef, 0xbb, 0xbf]), 18 => pre(&[0xff, 0xfe]), 19 => [b"\"" as &[u8], b, b"\""].concat(), 20 => pre(&(b.len() as u32).to_be_bytes()), 21 => pre(&(b.len() as u64).to_le_bytes()),
        22 => to_hex(b).into_bytes(), 23 => base64(b), 24 => format!("0x{}", to_hex(b)).into_bytes(),
        25 => { let mut v = vec![]; for x in b { if *x == b'\n' { v.push(b'\r') } v.push(*x) } v }
        26 => { let mut v: Vec<u8> = vec![]; for x in b { if *x == b'\n' && v.last() == Some(&b'\r') { v.pop(); } v.push(*x) } v }
        27 => trim(|x| x.is_ascii_whitespace()), 28 => trim(|x| x == 0), _ => b.iter().map(|x| x & 0x7f).collect(),
    }
}
pub fn base64(b: &[u8]) -> Vec<u8> {
    let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    b.chunks(3).flat_map(|c| { let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32; (0..4).map(|i| if i <= c.len() { t[(n >> (18 - 6 * i) & 63) as usize] } else { b'=' }).collect::<Vec<_>>() }).collect()
}
