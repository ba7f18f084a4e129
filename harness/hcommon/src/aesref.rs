//! AES-256, GCM and CTR written from the standards (FIPS 197, SP 800-38D), as the reference model.
fn xt(a: u8) -> u8 { (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 } }
fn gm(a: u8, b: u8) -> u8 { let (mut r, mut a, mut b) = (0, a, b); while b != 0 { if b & 1 == 1 { r ^= a } a = xt(a); b >>= 1; } r }
fn sbox() -> &'static [u8; 256] {
    static S: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut s = [0u8; 256];
        for i in 0..256usize {
            let inv = if i == 0 { 0 } else { (1..=255u8).find(|x| gm(*x, i as u8) == 1).unwrap() };
            s[i] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        }
        s
    })
}
pub struct Aes256 { rk: [[u8; 16]; 15] }
impl Aes256 {
    pub fn new(key: &[u8]) -> Self {
        assert_eq!(key.len(), 32);
        let s = sbox();
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rcon = 1u8;
        for i in 8..60 {
            let mut t = w[i - 1];
            if i % 8 == 0 { t = [s[t[1] as usize] ^ rcon, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]]; rcon = xt(rcon); }
            else if i % 8 == 4 { for x in t.iter_mut() { *x = s[*x as usize]; } }
            let p = w[i - 8];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        let mut rk = [[0u8; 16]; 15];
        for r in 0..15 { for c in 0..4 { rk[r][4 * c..4 * c + 4].copy_from_slice(&w[4 * r + c]); } }
        Aes256 { rk }
    }
    pub fn block(&self, b: &[u8; 16]) -> [u8; 16] {
        let s = sbox();
        let mut x = *b;
        for i in 0..16 { x[i] ^= self.rk[0][i]; }
        for r in 1..15 {
            let mut y = [0u8; 16];
            for c in 0..4 { for k in 0..4 { y[4 * c + k] = s[x[4 * ((c + k) % 4) + k] as usize]; } }
            if r < 14 {
                for c in 0..4 {
                    let a = [y[4 * c], y[4 * c + 1], y[4 * c + 2], y[4 * c + 3]];
                    for k in 0..4 { y[4 * c + k] = xt(a[k]) ^ (xt(a[(k + 1) % 4]) ^ a[(k + 1) % 4]) ^ a[(k + 2) % 4] ^ a[(k + 3) % 4]; }
                }
            }
            for i in 0..16 { x[i] = y[i] ^ self.rk[r][i]; }
        }
        x
    }
}
fn gmul(x: u128, y: u128) -> u128 {
    let (mut z, mut v) = (0u128, y);
    for i in 0..128 { if (x >> (127 - i)) & 1 == 1 { z ^= v } let l = v & 1; v >>= 1; if l == 1 { v ^= 0xe1u128 << 120 } }
    z
}
/// ciphertext || tag for a 12-byte nonce and empty associated data
pub fn gcm_seal(key: &[u8], nonce: &[u8], msg: &[u8]) -> Vec<u8> {
    let aes = Aes256::new(key);
    let h = u128::from_be_bytes(aes.block(&[0; 16]));
    let ctr = |i: u32| { let mut b = [0u8; 16]; b[..12].copy_from_slice(nonce); b[12..].copy_from_slice(&i.to_be_bytes()); aes.block(&b) };
    let mut out = Vec::with_capacity(msg.len() + 16);
    for (i, c) in msg.chunks(16).enumerate() { let k = ctr(2u32.wrapping_add(i as u32)); out.extend(c.iter().zip(k).map(|(a, b)| a ^ b)); }
    let mut y = 0u128;
    for c in out.chunks(16) { let mut b = [0u8; 16]; b[..c.len()].copy_from_slice(c); y = gmul(y ^ u128::from_be_bytes(b), h); }
    y = gmul(y ^ ((msg.len() as u128) * 8), h);
    let t = (y ^ u128::from_be_bytes(ctr(1))).to_be_bytes();
    out.extend_from_slice(&t);
    out
}
/// CTR with the low 64 bits of the block as a wrapping big-endian counter
pub fn ctr64(key: &[u8], iv: &[u8], msg: &[u8]) -> Vec<u8> {
    let aes = Aes256::new(key);
    let low = u64::from_be_bytes(iv[8..16].try_into().unwrap());
    let mut out = Vec::with_capacity(msg.len());
    for (i, c) in msg.chunks(16).enumerate() {
        let mut b = [0u8; 16]; b[..8].copy_from_slice(&iv[..8]); b[8..].copy_from_slice(&low.wrapping_add(i as u64).to_be_bytes());
        out.extend(c.iter().zip(aes.block(&b)).map(|(a, b)| a ^ b));
    }
    out
}
/// Known answers (FIPS 197 C.3 and the GCM specification's test case 14) that the reference must reproduce.
pub fn self_test() {
    let k: Vec<u8> = (0..32).collect();
    let p: Vec<u8> = (0..16).map(|i| i * 0x11).collect();
    assert_eq!(crate::bytes::to_hex(&Aes256::new(&k).block(&p.try_into().unwrap())), "8ea2b7ca516745bfeafc49904b496089");
    assert_eq!(crate::bytes::to_hex(&gcm_seal(&[0; 32], &[0; 12], &[])), "530f8afbc74536b9a963b4f1c4cb738b");
    assert_eq!(crate::bytes::to_hex(&gcm_seal(&[0; 32], &[0; 12], &[0; 16])), "cea7403d4d606b6e074ec5d3baf39d18d0d1c8a799996bf0265b98b5d48ab919");
}
