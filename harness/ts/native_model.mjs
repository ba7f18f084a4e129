// Stand-in for pkg/zkenc_js.js: the native layer's observable behaviour, written from its documentation.
// Ciphertext: "ZKCT" | nonce16 | count u32le | public values 32 bytes each | sha256 of the circuit.
import { createHash, createHmac } from "node:crypto";
import { readR1cs, readWtns, satisfied, le, fromLe, P } from "./ref.mjs";
export const state = (globalThis.__zkencNative ||= { inits: 0, ready: false, early: 0, encaps: [], decaps: [], count: 0, initDelay: null, record: true });
const SECRET = "native layer model";
export function init() {
  state.inits++;
  if (state.initDelay) return state.initDelay().then(() => { state.ready = true; });
  state.ready = true;
}
export default init;
function used() { if (!state.ready) state.early++; }
const sha = (b) => createHash("sha256").update(b).digest();
function keyOf(head) { return new Uint8Array(createHmac("sha256", SECRET).update(head).digest()); }
export function wasm_encap(r1csBytes, witness) {
  used();
  if (!(r1csBytes instanceof Uint8Array) || !(witness instanceof Uint8Array)) throw new Error("expected byte arrays");
  if (state.record) state.encaps.push({ r1cs: r1csBytes.slice(), witness: witness.slice() });
  const r = readR1cs(r1csBytes), w = readWtns(witness), n = r.nOut + r.nIn;
  if (w.values.length < n + 1) throw "Encapsulation failed: AssignmentMissing";
  const nonce = sha("nonce" + state.count++).subarray(0, 16);
  const cnt = Buffer.alloc(4); cnt.writeUInt32LE(n);
  const ct = Buffer.concat([Buffer.from("ZKCT"), nonce, cnt, ...w.values.slice(1, n + 1).map((v) => Buffer.from(le(v % P, 32))), sha(r1csBytes)]);
  const key = keyOf(ct);
  return { get ciphertext() { return new Uint8Array(ct); }, get key() { return key.slice(); } };
}
export function publics(ct) { const b = Buffer.from(ct.buffer, ct.byteOffset, ct.length); const n = b.length < 24 ? -1 : b.readUInt32LE(20); if (b.length !== 56 + 32 * n) return [`not a ciphertext (${b.length} bytes)`]; return Array.from({ length: n }, (_, i) => fromLe(b.subarray(24 + 32 * i, 56 + 32 * i))); }
export function wasm_decap(r1csBytes, witness, ct) {
  used();
  if (!(r1csBytes instanceof Uint8Array) || !(witness instanceof Uint8Array) || !(ct instanceof Uint8Array)) throw new Error("expected byte arrays");
  if (state.record) state.decaps.push({ r1cs: r1csBytes.slice(), witness: witness.slice(), ct: ct.slice() });
  const r = readR1cs(r1csBytes), w = readWtns(witness), n = r.nOut + r.nIn;
  if (w.values.length !== r.nWires) throw "Witness size mismatch";
  if (ct.length !== 24 + 32 * n + 32 || Buffer.from(ct.subarray(0, 4)).toString() !== "ZKCT") throw "Ciphertext deserialization failed";
  const pub = publics(ct);
  if (pub.length !== n || pub.some((v, i) => v !== w.values[i + 1] % P)) throw "Decapsulation failed: InvalidPublicInputs";
  if (Buffer.compare(Buffer.from(ct.subarray(ct.length - 32)), sha(r1csBytes))) throw "Decapsulation failed: circuit";
  if (!satisfied(r.constraints, w.values)) throw "Decapsulation failed: UnsatisfiedConstraints";
  return keyOf(Buffer.from(ct));
}
