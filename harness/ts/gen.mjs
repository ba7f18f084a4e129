// Shared generators. Every case is plain JSON (integers as decimal strings, bytes as hex).
import { fc, hex, unhex } from "./lib.mjs";
import { P, mod, stream } from "./ref.mjs";
export const nat = (max) => fc.integer({ min: 0, max });
export const seedArb = fc.integer({ min: 0, max: 0x7fffffff });
export const ident = fc.oneof(
  { weight: 4, arbitrary: fc.constantFrom("a", "b", "c", "in", "x", "sel", "root", "n2b", "pathElements", "_t", "$s", "A", "S8") },
  { weight: 3, arbitrary: fc.tuple(fc.constantFrom(..."abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$"), fc.array(fc.constantFrom(..."abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$"), { maxLength: 12 })).map(([a, b]) => a + b.join("")) },
);
/** An integer with a representation. k: num, str, big, hexs, plus (string with leading zeros). */
export function intArb(p = P) {
  const v = fc.oneof(
    { weight: 3, arbitrary: fc.integer({ min: 0, max: 300 }).map(String) },
    { weight: 2, arbitrary: fc.integer({ min: -300, max: -1 }).map(String) },
    { weight: 2, arbitrary: fc.maxSafeInteger().map(String) },
    { weight: 3, arbitrary: fc.bigInt({ min: 0n, max: p - 1n }).map(String) },
    { weight: 2, arbitrary: fc.tuple(nat(4), nat(3)).map(([a, b]) => String([p - 1n, p, p + 1n, 2n * p, (p - 1n) / 2n, (p + 1n) / 2n, -p, 1n - p, -p - 1n, p * p][(a * 4 + b) % 10] + BigInt(b === 3 ? a : 0))) },
    { weight: 2, arbitrary: fc.tuple(nat(20), nat(4)).map(([e, d]) => String((1n << BigInt(e * 16)) + BigInt(d - 2))) },
    { weight: 1, arbitrary: fc.bigInt({ min: -(1n << 600n), max: 1n << 600n }).map(String) },
    // every width in bits and in decimal digits, around what a double can hold
    { weight: 2, arbitrary: fc.tuple(nat(80), fc.bigInt({ min: 0n, max: (1n << 80n) - 1n })).map(([e, x]) => String(x >> BigInt(e))) },
    { weight: 1, arbitrary: fc.tuple(nat(260), fc.bigInt({ min: 0n, max: (1n << 260n) - 1n })).map(([e, x]) => String(x >> BigInt(e))) },
    { weight: 1, arbitrary: fc.tuple(nat(80), fc.integer({ min: -3, max: 3 })).map(([k, d]) => String(10n ** BigInt(k) + BigInt(d))) },
    { weight: 1, arbitrary: fc.tuple(nat(6), fc.integer({ min: -3, max: 3 })).map(([k, d]) => String([1n << 53n, -(1n << 53n), 1n << 63n, -(1n << 63n), 1n << 64n, 1n << 31n, 1n << 32n][k] + BigInt(d))) },
  );
  return fc.tuple(v, nat(9)).map(([v, k]) => {
    const b = BigInt(v), safe = b >= -9007199254740991n && b <= 9007199254740991n;
    const kind = k < 4 ? (safe ? "num" : "str") : k < 7 ? "str" : k === 7 ? "big" : k === 8 ? (b >= 0n ? "hexs" : "str") : (b >= 0n ? "zeros" : "big");
    return { k: kind, v };
  });
}
export function repr({ k, v }) {
  switch (k) { case "num": return Number(v); case "big": return BigInt(v); case "hexs": return "0x" + BigInt(v).toString(16); case "zeros": return "00" + v; default: return v; }
}
/** bytes: a description {n, s} expanded by a stream, or literal hex for short ones */
export const bytesArb = (maxBig = 5000) => fc.oneof(
  { weight: 3, arbitrary: fc.uint8Array({ maxLength: 40 }).map((b) => ({ h: hex(b) })) },
  { weight: 2, arbitrary: fc.tuple(fc.constantFrom(0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096), seedArb).map(([n, s]) => ({ n, s })) },
  { weight: 1, arbitrary: fc.tuple(nat(maxBig), seedArb).map(([n, s]) => ({ n, s })) },
  { weight: 1, arbitrary: fc.string({ unit: "grapheme", maxLength: 30 }).map((s) => ({ h: hex(Buffer.from(s, "utf8")) })) },
);
export const bytes = (d) => (d.h !== undefined ? unhex(d.h) : stream(d.s, d.n));
/** the same bytes as a view into a larger buffer, as a Buffer, or plain */
export function view(b, kind) {
  if (kind === 0) return b.slice();
  if (kind === 1) { const big = new Uint8Array(b.length + 23).fill(0xa5); big.set(b, 9); return big.subarray(9, 9 + b.length); }
  if (kind === 2) return Buffer.from(b);
  const big = new Uint8Array(b.length + 4096).fill(0x5a); big.set(b, 4096); return new Uint8Array(big.buffer, 4096, b.length);
}
/** a tree of inputs */
export function treeArb(leaf, { objects = true } = {}) {
  const sc = leaf.map((v) => ({ t: "s", v }));
  const { node } = fc.letrec((tie) => ({
    node: fc.oneof({ weight: 6, arbitrary: sc }, { weight: 4, arbitrary: tie("arr") }, { weight: objects ? 2 : 0, arbitrary: tie("obj") }),
    arr: fc.oneof({ weight: 3, arbitrary: fc.array(sc, { maxLength: 5 }).map((e) => ({ t: "a", e })) }, { weight: 2, arbitrary: fc.array(tie("node"), { maxLength: 4 }).map((e) => ({ t: "a", e })) }),
    obj: fc.uniqueArray(fc.tuple(ident, tie("node")), { selector: (x) => x[0], maxLength: 3 }).map((e) => ({ t: "o", e })),
  }));
  return node;
}
export const build = (n) => (n.t === "s" ? repr(n.v) : n.t === "a" ? n.e.map(build) : Object.fromEntries(n.e.map(([k, v]) => [k, build(v)])));
export function leaves(n, name, out = []) {
  if (n.t === "s") out.push([name, mod(BigInt(n.v.v))]);
  else if (n.t === "a") n.e.forEach((e, i) => leaves(e, `${name}[${i}]`, out));
  else n.e.forEach(([k, e]) => leaves(e, `${name}.${k}`, out));
  return out;
}
/** a permutation from random keys */
export const permute = (list, keys) => list.map((x, i) => [keys[i % keys.length] ?? 0, i, x]).sort((a, b) => a[0] - b[0] || a[1] - b[1]).map((x) => x[2]);
export const keysArb = fc.array(nat(1000), { minLength: 1, maxLength: 40 });
