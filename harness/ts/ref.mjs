// Independent reference code: field, file formats, AES-GCM (via Node's OpenSSL), circuit interpreter blobs.
import fs from "node:fs";
import { createCipheriv, createDecipheriv, createHash } from "node:crypto";
export const P = 21888242871839275222246405745257275088548364400416034343698204186575808495617n;
export const mod = (x, p = P) => ((x % p) + p) % p;
export function le(x, n) { const b = new Uint8Array(n); for (let i = 0; i < n; i++) { b[i] = Number(x & 255n); x >>= 8n; } return b; }
export function fromLe(b) { let x = 0n; for (let i = b.length - 1; i >= 0; i--) x = x * 256n + BigInt(b[i]); return x; }
const u32 = (x) => { const b = Buffer.alloc(4); b.writeUInt32LE(x >>> 0); return b; };
const u64 = (x) => { const b = Buffer.alloc(8); b.writeBigUInt64LE(BigInt(x)); return b; };
export function sections(magic, version, list) {
  return new Uint8Array(Buffer.concat([Buffer.from(magic, "latin1"), u32(version), u32(list.length), ...list.flatMap(([t, b]) => [u32(t), u64(b.length), Buffer.from(b)])]));
}
export function wtns(values, { n8 = 32, prime = P } = {}) {
  return sections("wtns", 2, [[1, Buffer.concat([u32(n8), Buffer.from(le(prime, n8)), u32(values.length)])], [2, Buffer.concat(values.map((v) => Buffer.from(le(v, n8))))]]);
}
/** Strict reading of a file of sections. */
export function readSections(bytes, magic, version) {
  const b = Buffer.from(bytes.buffer, bytes.byteOffset, bytes.length);
  if (b.length < 12 || b.toString("latin1", 0, 4) !== magic) throw new Error("bad magic");
  if (b.readUInt32LE(4) !== version) throw new Error("bad version");
  const n = b.readUInt32LE(8); let o = 12; const out = [];
  for (let i = 0; i < n; i++) {
    if (o + 12 > b.length) throw new Error("truncated section table");
    const t = b.readUInt32LE(o), l = b.readBigUInt64LE(o + 4); o += 12;
    if (BigInt(b.length - o) < l) throw new Error("section beyond the end");
    out.push([t, b.subarray(o, o + Number(l))]); o += Number(l);
  }
  if (o !== b.length) throw new Error(`${b.length - o} stray bytes at the end`);
  return out;
}
export function readWtns(bytes) {
  const s = readSections(bytes, "wtns", 2);
  const h = s.find((x) => x[0] === 1)?.[1], d = s.find((x) => x[0] === 2)?.[1];
  if (!h || !d) throw new Error("missing section");
  const n8 = h.readUInt32LE(0); if (h.length !== 8 + n8) throw new Error("header length");
  const prime = fromLe(h.subarray(4, 4 + n8)), n = h.readUInt32LE(4 + n8);
  if (d.length !== n * n8) throw new Error(`data length ${d.length} for ${n} values`);
  const values = []; for (let i = 0; i < n; i++) values.push(fromLe(d.subarray(i * n8, i * n8 + n8)));
  return { n8, prime, values };
}
export function r1cs({ nWires, nOut, nIn, nPrv = 0, constraints = [], prime = P }) {
  const h = Buffer.concat([u32(32), Buffer.from(le(prime, 32)), u32(nWires), u32(nOut), u32(nIn), u32(nPrv), u64(nWires), u32(constraints.length)]);
  const lc = (l) => Buffer.concat([u32(l.length), ...l.flatMap(([w, c]) => [u32(w), Buffer.from(le(mod(c), 32))])]);
  const labels = Buffer.concat(Array.from({ length: nWires }, (_, i) => u64(i)));
  return sections("r1cs", 1, [[2, Buffer.concat(constraints.flatMap((c) => c.map(lc)))], [1, h], [3, labels]]);
}
export function readR1cs(bytes) {
  const s = readSections(bytes, "r1cs", 1);
  const h = s.find((x) => x[0] === 1)[1], c = s.find((x) => x[0] === 2)[1];
  const n8 = h.readUInt32LE(0); let o = 4 + n8;
  const nWires = h.readUInt32LE(o), nOut = h.readUInt32LE(o + 4), nIn = h.readUInt32LE(o + 8), n = h.readUInt32LE(o + 24);
  o = 0; const constraints = [];
  for (let i = 0; i < n; i++) constraints.push([0, 1, 2].map(() => { const k = c.readUInt32LE(o); o += 4; const l = []; for (let j = 0; j < k; j++) { l.push([c.readUInt32LE(o), fromLe(c.subarray(o + 4, o + 4 + n8))]); o += 4 + n8; } return l; }));
  return { nWires, nOut, nIn, constraints };
}
export const satisfied = (cons, w) => cons.every(([a, b, c]) => { const e = (l) => l.reduce((s, [i, k]) => mod(s + k * (w[i] ?? 0n)), 0n); return mod(e(a) * e(b)) === e(c); });

// ---- symmetric layer
export function gcmSeal(key, nonce, msg) { const c = createCipheriv("aes-256-gcm", key, nonce); return new Uint8Array(Buffer.concat([nonce, c.update(msg), c.final(), c.getAuthTag()])); }
export function gcmOpen(key, b) { // throws when not authentic
  const d = createDecipheriv("aes-256-gcm", key, b.subarray(0, 12), { authTagLength: 16 });
  d.setAuthTag(b.subarray(b.length - 16));
  return new Uint8Array(Buffer.concat([d.update(b.subarray(12, b.length - 16)), d.final()]));
}
/** deterministic pseudo-random bytes for cases (the seed is part of the case) */
export function stream(seed, n) { const out = Buffer.alloc(n); for (let i = 0; i * 32 < n; i++) createHash("sha256").update(`${seed}/${i}`).digest().copy(out, i * 32, 0, Math.min(32, n - i * 32)); return new Uint8Array(out); }

// ---- circuit programs for the interpreter in vm/vm.wasm
export function fnv1a64(s) { let h = 0xcbf29ce484222325n; for (const b of Buffer.from(s, "utf8")) h = ((h ^ BigInt(b)) * 0x100000001b3n) & 0xffffffffffffffffn; return h; }
const VM = new Uint8Array(fs.readFileSync(new URL("./vm/vm.wasm", import.meta.url)));
const MAGIC = new Uint8Array(new Uint32Array([0x7a6b7631, 0xc0dec0de, 0x51a7e5, 0x9e3779b9]).buffer);
const AT = Buffer.from(VM).indexOf(MAGIC);
let BIG = null; // the same interpreter with more room
const bigVm = () => (BIG ||= (() => { const b = new Uint8Array(fs.readFileSync(new URL("./vm/vm_big.wasm", import.meta.url))); return { b, at: Buffer.from(b).indexOf(MAGIC) }; })());
export const words = (x, n) => Array.from({ length: n }, (_, i) => Number((x >> BigInt(32 * i)) & 0xffffffffn));
/** circuit: {version, n32, prime, inputs:[{name,size}], ops:[{op,...}], wit:[signal]} */
export function vmWasm(c) {
  const d = [...new Uint32Array(MAGIC.buffer)];
  const consts = [], ops = []; let first = 1;
  const ins = c.inputs.map((i) => { const h = fnv1a64(i.name), f = first; first += i.size; return [Number(h >> 32n), Number(h & 0xffffffffn), i.size, f]; });
  let next = first;
  const code = { const: 0, add: 1, sub: 2, mul: 3, bit: 4, eq: 5, log: 6, check: 7 };
  for (const o of c.ops) {
    if (o.op === "const") { consts.push(words(o.value, c.n32)); ops.push([0, next++, consts.length - 1, 0]); }
    else if (o.op === "eq" || o.op === "check") ops.push([code[o.op], o.under ?? 0, o.a, o.b ?? 0]);
    else if (o.op === "log") ops.push([code.log, o.c ?? 0, o.a, o.f ?? 0]);
    else ops.push([code[o.op], next++, o.a, o.b]);
  }
  d.push(c.version, c.n32, ins.length, first - 1, consts.length, next, ops.length, c.wit.length, 0);
  for (const l of [words(c.prime, c.n32), ins.flat(), consts.flat(), ops.flat(), c.wit]) for (const x of l) d.push(x);
  if (d.length > 32768 || next > 6000) {
    if (d.length > 300000 || next > 1700000) throw new Error("program too large for the interpreter");
    const { b, at } = bigVm(), w = b.slice(); w.set(new Uint8Array(new Uint32Array(d).buffer), at); return w;
  }
  const w = VM.slice(); w.set(new Uint8Array(new Uint32Array(d).buffer), AT); return w;
}
/** What a calculation prints, and with which messages it fails (null: it does not). */
export function vmTrace(c, vals, checks = false) {
  const s = [1n], lines = []; for (const v of vals) for (const x of v) s.push(mod(x, c.prime));
  for (let k = 0; k < c.ops.length; k++) {
    const o = c.ops[k];
    if (o.op === "log") { const a = s[o.a], d = s[o.c ?? 0]; lines.push([() => `value: ${a}`, () => `${a}`, () => "hello", () => `x = ${a} and ${d}`, () => "", () => `${a} ${d}`, () => `  spaced   ${a}`, () => `%d %s 100% ${a}`, () => `${a} \n\n tail`][o.f ?? 0]()); }
    else if (o.op === "eq" || o.op === "check") { if ((o.op === "eq" || checks) && s[o.a] !== s[o.b]) return { lines, code: o.under >> 2 || 4, fail: [...(o.under & 3 ? [o.under & 1 ? "Error in template Sub_1 line: 3" : "Error in template Range_22 line: 140"] : []), "Error in template Main_0 line: 7"] }; }
    else { const one = vmEval({ ...c, ops: c.ops.slice(0, k + 1).filter((q) => !["eq", "check", "log"].includes(q.op)), wit: [s.length] }, vals); s.push(one[0]); }
  }
  return { lines, fail: null };
}
/** The circuit's definition: values of all signals, or null when an assertion fails. `vals`: per input a list of BigInt. */
export function vmEval(c, vals, checks = false) {
  const s = [1n]; for (const v of vals) for (const x of v) s.push(mod(x, c.prime));
  const p = c.prime;
  for (const o of c.ops) {
    if (o.op === "const") s.push(mod(o.value, p));
    else if (o.op === "add") s.push(mod(s[o.a] + s[o.b], p));
    else if (o.op === "sub") s.push(mod(s[o.a] - s[o.b], p));
    else if (o.op === "mul") s.push(mod(s[o.a] * s[o.b], p));
    else if (o.op === "bit") s.push((s[o.a] >> BigInt(32 * (Math.floor(o.b / 32) % c.n32) + (o.b % 32))) & 1n);
    else if ((o.op === "eq" || (o.op === "check" && checks)) && s[o.a] !== s[o.b]) return null;
  }
  return c.wit.map((i) => s[i]);
}
