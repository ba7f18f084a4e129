//! Writers for the file formats of circom and snarkjs, after their public documentation.
pub fn u32le(v: &mut Vec<u8>, x: u32) { v.extend_from_slice(&x.to_le_bytes()) }
pub fn u64le(v: &mut Vec<u8>, x: u64) { v.extend_from_slice(&x.to_le_bytes()) }
pub fn section(v: &mut Vec<u8>, ty: u32, body: &[u8]) { u32le(v, ty); u64le(v, body.len() as u64); v.extend_from_slice(body); }
pub type Lc = Vec<(u32, Vec<u8>)>;
pub struct R1csHead<'a> { pub field_size: u32, pub prime: &'a [u8], pub n_wires: u32, pub n_pub_out: u32, pub n_pub_in: u32, pub n_prv_in: u32, pub n_labels: u64, pub n_constraints: u32 }
pub fn r1cs_header(h: &R1csHead) -> Vec<u8> {
    let mut b = vec![];
    u32le(&mut b, h.field_size); b.extend_from_slice(h.prime);
    for x in [h.n_wires, h.n_pub_out, h.n_pub_in, h.n_prv_in] { u32le(&mut b, x); }
    u64le(&mut b, h.n_labels); u32le(&mut b, h.n_constraints);
    b
}
pub fn r1cs_constraints(cs: &[[Lc; 3]]) -> Vec<u8> {
    let mut b = vec![];
    for c in cs { for lc in c { u32le(&mut b, lc.len() as u32); for (w, v) in lc { u32le(&mut b, *w); b.extend_from_slice(v); } } }
    b
}
pub fn r1cs_labels(l: &[u64]) -> Vec<u8> { let mut b = vec![]; for x in l { u64le(&mut b, *x); } b }
pub fn file(magic: &[u8; 4], version: u32, sections: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let mut v = magic.to_vec();
    u32le(&mut v, version); u32le(&mut v, sections.len() as u32);
    for (t, b) in sections { section(&mut v, *t, b); }
    v
}
pub fn wtns(prime: &[u8], n8: u32, values: &[Vec<u8>]) -> Vec<u8> {
    let mut h = vec![]; u32le(&mut h, n8); h.extend_from_slice(prime); u32le(&mut h, values.len() as u32);
    file(b"wtns", 2, &[(1, h), (2, values.concat())])
}
