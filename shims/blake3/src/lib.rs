//! BLAKE3, written from the specification.
const OUT: usize = 32;
const CHUNK: usize = 1024;
const CHUNK_START: u32 = 1;
const CHUNK_END: u32 = 2;
const PARENT: u32 = 4;
const ROOT: u32 = 8;
const KEYED: u32 = 16;
const DK_CONTEXT: u32 = 32;
const DK_MATERIAL: u32 = 64;
const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
const PERM: [usize; 16] = [2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8];
pub const OUT_LEN: usize = OUT;
pub const KEY_LEN: usize = 32;

fn g(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(x);
    s[d] = (s[d] ^ s[a]).rotate_right(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(12);
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(y);
    s[d] = (s[d] ^ s[a]).rotate_right(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(7);
}
fn compress(cv: &[u32; 8], block: &[u32; 16], counter: u64, len: u32, flags: u32) -> [u32; 16] {
    let mut s = [cv[0], cv[1], cv[2], cv[3], cv[4], cv[5], cv[6], cv[7], IV[0], IV[1], IV[2], IV[3], counter as u32, (counter >> 32) as u32, len, flags];
    let mut m = *block;
    for r in 0..7 {
        g(&mut s, 0, 4, 8, 12, m[0], m[1]); g(&mut s, 1, 5, 9, 13, m[2], m[3]); g(&mut s, 2, 6, 10, 14, m[4], m[5]); g(&mut s, 3, 7, 11, 15, m[6], m[7]);
        g(&mut s, 0, 5, 10, 15, m[8], m[9]); g(&mut s, 1, 6, 11, 12, m[10], m[11]); g(&mut s, 2, 7, 8, 13, m[12], m[13]); g(&mut s, 3, 4, 9, 14, m[14], m[15]);
        if r < 6 { let mut p = [0; 16]; for i in 0..16 { p[i] = m[PERM[i]]; } m = p; }
    }
    for i in 0..8 { s[i] ^= s[i + 8]; s[i + 8] ^= cv[i]; }
    s
}
fn first8(x: [u32; 16]) -> [u32; 8] { x[..8].try_into().unwrap() }
fn words(b: &[u8]) -> [u32; 16] {
    let mut buf = [0u8; 64]; buf[..b.len()].copy_from_slice(b);
    let mut w = [0u32; 16];
    for i in 0..16 { w[i] = u32::from_le_bytes(buf[4 * i..4 * i + 4].try_into().unwrap()); }
    w
}
struct Node { cv: [u32; 8], block: [u32; 16], counter: u64, len: u32, flags: u32 }
impl Node { fn chain(&self) -> [u32; 8] { first8(compress(&self.cv, &self.block, self.counter, self.len, self.flags)) } }
fn chunk(data: &[u8], key: &[u32; 8], counter: u64, flags: u32) -> Node {
    let mut cv = *key;
    let n = data.len().div_ceil(64).max(1);
    for i in 0..n {
        let b = &data[64 * i..data.len().min(64 * i + 64)];
        let f = flags | if i == 0 { CHUNK_START } else { 0 } | if i == n - 1 { CHUNK_END } else { 0 };
        let node = Node { cv, block: words(b), counter, len: b.len() as u32, flags: f };
        if i == n - 1 { return node; }
        cv = node.chain();
    }
    unreachable!()
}
fn tree(data: &[u8], key: &[u32; 8], counter: u64, flags: u32) -> Node {
    if data.len() <= CHUNK { return chunk(data, key, counter, flags); }
    let chunks = data.len().div_ceil(CHUNK);
    let left = chunks.next_power_of_two() / 2; // largest power of two below `chunks`
    let l = tree(&data[..left * CHUNK], key, counter, flags).chain();
    let r = tree(&data[left * CHUNK..], key, counter + left as u64, flags).chain();
    let mut block = [0u32; 16];
    block[..8].copy_from_slice(&l); block[8..].copy_from_slice(&r);
    Node { cv: *key, block, counter: 0, len: 64, flags: flags | PARENT }
}
fn root(n: &Node) -> Hash {
    let w = compress(&n.cv, &n.block, 0, n.len, n.flags | ROOT);
    let mut out = [0u8; 32];
    for i in 0..8 { out[4 * i..4 * i + 4].copy_from_slice(&w[i].to_le_bytes()); }
    Hash(out)
}
fn key_words(k: &[u8; 32]) -> [u32; 8] { let mut w = [0; 8]; for i in 0..8 { w[i] = u32::from_le_bytes(k[4 * i..4 * i + 4].try_into().unwrap()); } w }

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Hash([u8; 32]);
impl std::fmt::Debug for Hash { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Hash({:02x?})", self.0) } }
impl Hash {
    pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
    pub fn from_bytes(b: [u8; 32]) -> Self { Self(b) }
    pub fn to_hex(&self) -> String { self.0.iter().map(|b| format!("{:02x}", b)).collect() }
}
impl From<Hash> for [u8; 32] { fn from(h: Hash) -> Self { h.0 } }
impl From<[u8; 32]> for Hash { fn from(h: [u8; 32]) -> Self { Self(h) } }
pub fn hash(data: &[u8]) -> Hash { root(&tree(data, &IV, 0, 0)) }
pub fn keyed_hash(key: &[u8; 32], data: &[u8]) -> Hash { root(&tree(data, &key_words(key), 0, KEYED)) }
pub fn derive_key(context: &str, material: &[u8]) -> [u8; 32] {
    let k = root(&tree(context.as_bytes(), &IV, 0, DK_CONTEXT));
    root(&tree(material, &key_words(&k.0), 0, DK_MATERIAL)).0
}
#[derive(Clone)]
pub struct Hasher { key: [u32; 8], flags: u32, buf: Vec<u8> }
impl Default for Hasher { fn default() -> Self { Self::new() } }
impl Hasher {
    pub fn new() -> Self { Self { key: IV, flags: 0, buf: vec![] } }
    pub fn new_keyed(k: &[u8; 32]) -> Self { Self { key: key_words(k), flags: KEYED, buf: vec![] } }
    pub fn new_derive_key(c: &str) -> Self { let k = root(&tree(c.as_bytes(), &IV, 0, DK_CONTEXT)); Self { key: key_words(&k.0), flags: DK_MATERIAL, buf: vec![] } }
    pub fn update(&mut self, d: &[u8]) -> &mut Self { self.buf.extend_from_slice(d); self }
    pub fn finalize(&self) -> Hash { root(&tree(&self.buf, &self.key, 0, self.flags)) }
    pub fn reset(&mut self) -> &mut Self { self.buf.clear(); self }
}
