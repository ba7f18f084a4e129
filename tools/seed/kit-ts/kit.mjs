// Loads the TypeScript sources of the repository (current directory) from a scratch copy, with a stand-in for the native package.
import fs from "node:fs"; import os from "node:os"; import path from "node:path"; import { createRequire } from "node:module"; import { pathToFileURL } from "node:url";
const esbuild = createRequire("/opt/veriftools/node/node_modules/")("esbuild");
const SRC = path.join(process.cwd(), "packages/zkenc-js/src");
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), "demo-"));
process.on("exit", () => fs.rmSync(tmp, { recursive: true, force: true }));
fs.mkdirSync(path.join(tmp, "src")); fs.mkdirSync(path.join(tmp, "pkg"));
fs.writeFileSync(path.join(tmp, "package.json"), '{"type":"module"}');
fs.writeFileSync(path.join(tmp, "pkg/zkenc_js.js"), `const n = () => globalThis.native;
export const init = (...a) => n().init?.(...a); export default init;
export const wasm_encap = (...a) => n().wasm_encap(...a); export const wasm_decap = (...a) => n().wasm_decap(...a);`);
for (const f of fs.readdirSync(SRC)) {
  if (!f.endsWith(".ts") || f.endsWith(".test.ts") || f.endsWith(".d.ts")) continue;
  fs.writeFileSync(path.join(tmp, "src", f.replace(/ts$/, "js")), esbuild.transformSync(fs.readFileSync(path.join(SRC, f), "utf8"), { loader: "ts", format: "esm", target: "es2022" }).code);
}
fs.mkdirSync(path.join(tmp, "script")); fs.writeFileSync(path.join(tmp, "script/package.json"), '{"type":"commonjs"}');
for (const f of fs.readdirSync(SRC)) if (f.endsWith(".js")) fs.copyFileSync(path.join(SRC, f), path.join(tmp, "script", f));
export const load = (f) => import(pathToFileURL(path.join(tmp, "src", f)).href);
export const script = (f) => createRequire(path.join(tmp, "script/x.js"))("./" + f);
export function check(cond, what) { if (!cond) { console.error("FAILED: " + what); process.exit(1); } }
export const eq = (a, b) => Buffer.compare(Buffer.from(a), Buffer.from(b)) === 0;
const P = 21888242871839275222246405745257275088548364400416034343698204186575808495617n;
export const le32 = (v) => { const b = new Uint8Array(32); v = ((v % P) + P) % P; for (let i = 0; i < 32; i++) { b[i] = Number(v & 255n); v >>= 8n; } return b; };
/** Values of a witness file with 32-byte elements. */
export function wtnsValues(b) {
  const v = new DataView(b.buffer, b.byteOffset, b.length); let o = 12, n = 0, out = [];
  for (let s = 0; s < v.getUint32(8, true); s++) {
    const t = v.getUint32(o, true), len = Number(v.getBigUint64(o + 4, true)); o += 12;
    if (t === 1) n = v.getUint32(o + 36, true);
    if (t === 2) for (let i = 0; i < n; i++) { let x = 0n; for (let j = 31; j >= 0; j--) x = (x << 8n) | BigInt(b[o + 32 * i + j]); out.push(x); }
    o += len;
  }
  return out;
}
/** A native layer that derives everything from its arguments and records the witness. */
export function stubNative() {
  const seen = [];
  globalThis.native = { seen, init() {}, wasm_encap(r, w) { seen.push(wtnsValues(w)); return { ciphertext: new Uint8Array([9, 8, 7, ...w.slice(-32)]), key: new Uint8Array(32).fill(7) }; }, wasm_decap() { return new Uint8Array(32).fill(7); } };
  return globalThis.native;
}
/** A circom program as the WebAssembly runtime would present it. */
export function program({ inputs, witness, prime = P, n32 = 8, version = 2 }) {
  const fnv = (s) => { let h = 0xcbf29ce484222325n; for (const c of s) h = ((h ^ BigInt(c.charCodeAt(0))) * 0x100000001b3n) & 0xffffffffffffffffn; return h; };
  const byHash = new Map(Object.entries(inputs).map(([n, k]) => [fnv(n), [n, k]]));
  return (imports) => {
    let vals = {}, count = 0; const sh = new Uint32Array(n32);
    const put = (v) => { for (let i = 0; i < n32; i++) { sh[i] = Number(v & 0xffffffffn); v >>= 32n; } };
    const get = () => { let v = 0n; for (let i = n32 - 1; i >= 0; i--) v = (v << 32n) | BigInt(sh[i]); return v; };
    const key = (a, b) => (BigInt(a >>> 0) << 32n) | BigInt(b >>> 0);
    const total = Object.values(inputs).reduce((a, b) => a + b, 0);
    const names = (h) => byHash.get(h);
    return { exports: {
      getVersion: () => version, getFieldNumLen32: () => n32, getRawPrime: () => put(prime), readSharedRWMemory: (i) => sh[i] | 0, writeSharedRWMemory: (i, v) => { sh[i] = v; },
      getWitnessSize: () => witness(Object.fromEntries(Object.entries(inputs).map(([n, k]) => [n, Array(k).fill(0n)]))).length, getInputSize: () => total,
      init: () => { vals = {}; count = 0; for (const [n, k] of Object.entries(inputs)) vals[n] = Array(k).fill(undefined); },
      getInputSignalSize: (a, b) => (names(key(a, b)) ? names(key(a, b))[1] : -1),
      setInputSignal: (a, b, i) => { const e = names(key(a, b)); if (!e) imports.runtime.exceptionHandler(1); if (count >= total) imports.runtime.exceptionHandler(2); if (vals[e[0]][i] !== undefined) imports.runtime.exceptionHandler(3); vals[e[0]][i] = get(); count++; },
      getWitness: (i) => put(((witness(vals)[i] % prime) + prime) % prime), getMessageChar: () => 0,
    } };
  };
}
/** Lets `code` (any byte array) stand for compiled programs. */
export function installPrograms(map) {
  WebAssembly.compile = async (c) => { const k = Buffer.from(c.buffer ?? c, c.byteOffset ?? 0, c.byteLength).toString(); if (!map[k]) throw new Error("bad module"); return map[k]; };
  WebAssembly.instantiate = async (m, imports) => m(imports);
}
export { P };
