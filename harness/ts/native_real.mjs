// pkg/zkenc_js.js backed by the real native layer: zkenc-js's Rust code compiled for wasm32.
import fs from "node:fs";
import { webcrypto } from "node:crypto";
const FILE = new URL("../../target/wasm/wasm32-unknown-unknown/release/zkwasm.wasm", import.meta.url);
export const real = (globalThis.__zkencReal ||= { module: null, inst: null, random: null, drawn: 0, traps: 0, log: "", inits: 0, high: 0 });
function start() {
  real.module ||= new WebAssembly.Module(fs.readFileSync(FILE));
  const mem = () => new Uint8Array(real.inst.exports.memory.buffer);
  real.inst = new WebAssembly.Instance(real.module, { env: {
    host_random(p, n) {
      const b = mem().subarray(p, p + n); real.drawn += n;
      if (real.random) return real.random(b) ? 0 : 1;
      for (let i = 0; i < n; i += 65536) webcrypto.getRandomValues(b.subarray(i, Math.min(n, i + 65536)));
      return 0;
    },
    host_log(p, n) { real.log = Buffer.from(mem().subarray(p, p + n)).toString(); },
  } });
  real.inst.exports.zk_init();
}
export function init() { real.inits++; if (!real.inst) start(); }
export default init;
/** Bytes of linear memory of the current instance. */
export const memory = () => (real.inst ? real.inst.exports.memory.buffer.byteLength : 0);
export function fresh() { real.inst = null; start(); }
class Trap extends Error {}
function call(name, args) {
  if (!real.inst) start();
  const x = real.inst.exports;
  try {
    const flat = [], bufs = [];
    for (const a of args) { const p = x.zk_alloc(a.length); new Uint8Array(x.memory.buffer).set(a, p); flat.push(p, a.length); bufs.push([p, a.length]); }
    const rc = x[name](...flat);
    for (const [p, n] of bufs) x.zk_free(p, n);
    const slot = (i) => new Uint8Array(x.memory.buffer).slice(x.zk_slot_ptr(i), x.zk_slot_ptr(i) + x.zk_slot_len(i));
    real.high = Math.max(real.high, x.memory.buffer.byteLength);
    if (rc !== 0) throw Buffer.from(slot(0)).toString();
    return [slot(0), slot(1)];
  } catch (e) {
    if (typeof e === "string") throw e;
    real.high = Math.max(real.high, x.memory.buffer.byteLength);
    real.traps++; real.inst = null; // a trapped instance is unusable, as it is for users
    const t = new Trap(`the native layer trapped: ${e.message} ${real.log}`); t.trap = true; throw t;
  }
}
export function wasm_encap(r1cs, witness) { const [ct, key] = call("zk_encap", [r1cs, witness]); return { get ciphertext() { return ct.slice(); }, get key() { return key.slice(); } }; }
export function wasm_decap(r1cs, witness, ct) { return call("zk_decap", [r1cs, witness, ct])[0]; }
