import { randomBytes, webcrypto, createCipheriv } from "node:crypto";
import { spawnSync } from "node:child_process";
import { inspect, format as inspectFormat } from "node:util";
import { fc, load, loadScript, ensure, show, hex, sameBytes, attempt, Violation } from "./lib.mjs";
import { P, mod, wtns, readWtns, readR1cs, satisfied, fromLe, r1cs, gcmSeal, gcmOpen, stream, vmWasm, vmEval, vmTrace } from "./ref.mjs";
import { state as native, publics } from "./native_model.mjs";
import { nat, seedArb, ident, intArb, repr, bytesArb, bytes, view, treeArb, build, leaves, permute, keysArb } from "./gen.mjs";

const isBytes = (x) => x instanceof Uint8Array;
function resetNative() { native.encaps.length = 0; native.decaps.length = 0; native.early = 0; native.inits = 0; native.initDelay = null; }

// ------------------------------------------------------------------ P13 symbol files
const symPath = (minLength, maxLength) => fc.array(fc.tuple(ident, fc.constantFrom(...Array(20).fill(0), 30, 300), fc.array(fc.oneof({ weight: 8, arbitrary: nat(1200) }, { weight: 1, arbitrary: nat(4294967295) }), { maxLength: 3 })).map(([a, l, i]) => a.padEnd(l, "x") + i.map((k) => `[${k}]`).join("")), { minLength, maxLength });
const symName = fc.tuple(
  fc.oneof({ weight: 12, arbitrary: fc.constant("main.") }, { weight: 1, arbitrary: fc.constantFrom("mainx.", "other.", "main.main.", "") }),
  fc.oneof({ weight: 12, arbitrary: symPath(1, 3) }, { weight: 1, arbitrary: symPath(5, 11) }),
).map(([p, s]) => p + s.join("."));
function symArb(maxLength) {
  const wire = fc.oneof({ weight: 2, arbitrary: fc.constant(-1) }, { weight: 6, arbitrary: nat(40) }, { weight: 2, arbitrary: nat(100000) }, { weight: 1, arbitrary: fc.constantFrom(2147483647, 2147483648, 4294967295, 0) });
  const line = fc.record({ l: fc.oneof(nat(1e9), nat(4294967295)), w: wire, c: fc.oneof({ weight: 8, arbitrary: nat(500) }, { weight: 1, arbitrary: nat(4294967295) }), n: symName, b: fc.constantFrom(0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2) });
  // lines that do not have four fields
  const stray = fc.tuple(nat(1 << 16), fc.oneof(fc.tuple(nat(60), symName).map(([w, n]) => `7,${w},3,${n},x`), fc.tuple(nat(60), symName).map(([w, n]) => `${w},${w},${n}`), symName.map((n) => `3,${n}`), symName, fc.constantFrom("# comment", ",", ",,", ",,,,", "   ", "\t", "1,2,3")));
  return fc.record({ stray: fc.oneof({ weight: 3, arbitrary: fc.constant([]) }, { weight: 1, arbitrary: fc.array(stray, { minLength: 1, maxLength: 4 }) }), lines: fc.uniqueArray(line, { selector: (x) => x.n, maxLength, size: "max" }), crlf: fc.boolean(), nl: fc.boolean(),
    max: fc.oneof(fc.constant(null), nat(45), nat(45), nat(200000), fc.constant(0)) });
}
function symText(s) {
  const nl = s.crlf ? "\r\n" : "\n";
  const lines = s.lines.map((l) => nl.repeat(l.b) + `${l.l},${l.w},${l.c},${l.n}`);
  for (const [at, t] of s.stray) lines.splice(at % (lines.length + 1), 0, t);
  return lines.join(nl) + (s.nl ? nl : "");
}
const eqMap = (got, want, what) => {
  ensure(got instanceof Map, `${what}: not a map`);
  for (const [k, v] of want) ensure(got.get(k) === v, () => `${what}: ${show(k)} is ${show(got.get(k))}, expected ${v}`);
  for (const k of got.keys()) ensure(want.has(k), () => `${what}: unexpected entry ${show(k)}`);
};
export async function p13(ctx) {
  const m = await load(ctx.src, "index.js");
  ctx.rule("JS: symbol files of 0..1500 lines with distinct names, indices, components, wire -1, blank lines, lines without four fields, both line endings x maxima; non-trivial: at least two signals with a wire");
  const oracle = async (s) => {
    const got = m.parseSymFile(symText(s));
    const want = new Map(s.lines.filter((l) => l.w >= 0).map((l) => [l.n, l.w]));
    eqMap(got, want, "parseSymFile");
    const sel = s.max === null ? m.getInputSignals(got) : m.getInputSignals(got, s.max);
    const wsel = new Map([...want].filter(([k, v]) => k.startsWith("main.") && (s.max === null || v <= s.max)).map(([k, v]) => [k.slice(5), v]));
    eqMap(sel, wsel, `getInputSignals with maximum ${s.max}`);
    eqMap(got, want, "parseSymFile's map after selecting");
    return { nontrivial: want.size >= 2, labels: [s.crlf && "crlf", s.stray.length && "lines without four fields", [...want.values()].includes(s.max) && "a wire equals the maximum", s.lines.length > 100 && "more than 100 lines"] };
  };
  await ctx.run("js-sym-small", ctx.n(24000, 300000), symArb(14), oracle);
  await ctx.run("js-sym-large", ctx.n(160, 1600), symArb(1500), oracle);
}

// ------------------------------------------------------------------ P15 inputs to wires (and the JS side of P05)
const LEAF = intArb();
function inputsArb({ objects = true, maxNames = 6 } = {}) {
  return fc.record({
    ins: fc.uniqueArray(fc.tuple(ident, treeArb(LEAF, { objects })), { selector: (x) => x[0], minLength: 1, maxLength: maxNames }),
    roles: fc.array(nat(9), { minLength: 1, maxLength: 30 }), wires: keysArb, lines: keysArb, keys: keysArb,
    nOut: nat(6), extraPriv: nat(4), alias: nat(3), internal: nat(3), crlf: fc.boolean(), missing: nat(1000),
  });
}
/** Lays a case out: which leaf sits on which wire, the symbol file, and the input object. */
function layout(c) {
  const all = c.ins.flatMap(([k, n]) => leaves(n, k));
  const pub = [], priv = [], ignored = [];
  all.forEach(([name, v], i) => { const r = c.roles[i % c.roles.length]; (r < 6 ? pub : r < 8 ? priv : ignored).push([name, v]); });
  const order = [...permute(pub, c.wires), ...permute(priv, c.wires.slice().reverse())];
  const value = new Map([[0, 1n]]), lines = [];
  order.forEach(([name, v], i) => { value.set(i + 1, v); lines.push([i + 1, "main." + name]); });
  let w = order.length;
  for (let i = 0; i < c.extraPriv; i++) lines.push([++w, `main.private_${i}`]);
  for (let i = 0; i < c.alias && order.length; i++) lines.push([1 + (i * 7) % order.length, `main.comp_${i}.in[${i}]`]);
  for (let i = 0; i < c.internal; i++) lines.push([-1, `main.gone_${i}`]);
  const nl = c.crlf ? "\r\n" : "\n";
  const sym = permute(lines, c.lines).map(([wi, n], i) => `${i + 1},${wi},${i % 5},${n}`).join(nl) + nl;
  const inputs = Object.fromEntries(permute(c.ins, c.keys).map(([k, n]) => [k, build(n)]));
  const nOut = Math.min(c.nOut, pub.length);
  const file = r1cs({ nWires: w + 1 + 2, nOut, nIn: pub.length - nOut, nPrv: w - pub.length });
  return { all, pub, priv, ignored, order, value, sym, inputs, file, nPub: pub.length, nWires: w + 3, wireOf: new Map(order.map(([n], i) => [n, i + 1])) };
}
const deep = (c) => c.ins.some(([, n]) => n.t === "a" && n.e.some((e) => e.t !== "s"));
export async function p15(ctx) {
  const sym = await load(ctx.src, "index.js"), z = sym;
  ctx.rule("input objects of nested arrays and objects with integers in every representation, leaves spread over public wires, private wires and names unknown to the symbol file in random wire and line order; non-trivial: at least two public signals");
  await ctx.run("map-inputs", ctx.n(16000, 200000), inputsArb(), async (c) => {
    const L = layout(c);
    const signals = sym.getInputSignals(sym.parseSymFile(L.sym));
    const before = show(L.inputs);
    const got = sym.mapInputsToWires(L.inputs, signals);
    ensure(show(L.inputs) === before, "the input object was changed");
    for (const [name, v] of L.order) {
      const w = L.wireOf.get(name), g = got.get(w), s = Array.isArray(g) ? g[0] : g;
      ensure(s !== undefined, () => `${name} = ${v} was not assigned to wire ${w}`);
      ensure(mod(BigInt(s)) === v, () => `${name}: wire ${w} got ${show(s)} instead of ${v}`);
    }
    ensure(got.size === L.order.length, () => `${got.size} wires assigned, ${L.order.length} expected`);
    return { nontrivial: L.nPub >= 2, labels: [deep(c) && "nested deeper than one array", L.ignored.length && "unknown names"] };
  });
  await ctx.run("native-witness", ctx.n(12000, 120000), inputsArb(), async (c) => {
    const L = layout(c); resetNative();
    const before = show(L.inputs);
    const r = await attempt(() => z.encap({ r1csBuffer: L.file, symContent: L.sym }, L.inputs));
    ensure(!r.error, () => `encapsulation failed: ${r.error?.stack || r.error}`);
    ensure(show(L.inputs) === before, "the input object was changed");
    ensure(native.encaps.length === 1, "the native layer was not called exactly once");
    const w = readWtns(native.encaps[0].witness);
    ensure(w.prime === P && w.n8 === 32, "the witness names another field");
    ensure(w.values.length >= L.nPub + 1, () => `${w.values.length} wires handed over, ${L.nPub + 1} needed`);
    w.values.forEach((v, i) => { if (L.value.has(i)) ensure(mod(v) === L.value.get(i), () => `wire ${i}: ${v} instead of ${L.value.get(i)}`); else if (i <= L.order.length) throw new Violation(`wire ${i} has a value but no input`); });
    const got = publics(r.value.ciphertext);
    got.forEach((v, i) => ensure(v === L.value.get(i + 1), () => `public wire ${i + 1} recorded as ${v}`));
    return { nontrivial: L.nPub >= 2, labels: [deep(c) && "nested deeper than one array", L.order.some(([, v]) => v > P - 1000n) && "additive inverse"] };
  });
  // large inputs: the number of values must not matter
  await ctx.run("many-values", ctx.n(16, 64), fc.record({ n: fc.oneof(nat(40000).map((x) => x + 1000), nat(100000).map((x) => x + 130000)), s: seedArb }), async (c) => {
    resetNative();
    const vals = Array.from({ length: c.n }, (_, i) => (i * 7919 + c.s) % 1000003);
    const text = vals.map((_, i) => `${i + 1},${i + 1},0,main.v[${i}]`).join("\n");
    const r = await attempt(() => z.encap({ r1csBuffer: r1cs({ nWires: c.n + 2, nOut: 0, nIn: c.n }), symContent: text }, { v: vals }));
    ensure(!r.error, () => `encapsulation of ${c.n} values failed: ${r.error}`);
    const got = publics(r.value.ciphertext);
    vals.forEach((v, i) => ensure(got[i] === BigInt(v), () => `value ${i} recorded as ${got[i]}`));
    return { nontrivial: true, labels: [c.n > 125000 && "beyond the argument limit of a call"] };
  });
}
const GONE = Symbol("removed");
const HOLLOW = [["nothing (removed)", GONE], ["undefined", undefined], ["null", null], ["an empty array", []], ["an empty object", {}], ["an array with nothing in it", [[]]], ["the empty string", ""], ["a space", " "], ["a line end", "\n"], ["a tab", "\t "], ["true", true], ["false", false], ["NaN", NaN], ["a fraction", 0.5],
  ["infinity", Infinity], ["a word", "abc"], ["a decimal fraction", "1.0"], ["a negative zero fraction", "-0.0"], ["half a prefix", "0x"], ["a sign", "-"], ["two signs", "--1"], ["a number and a word", "1 a"], ["two numbers", "1,2"], ["an exponent", "1e3"], ["a big integer literal", "1n"], ["a digit separator", "1_000"], ["null as text", "null"], ["undefined as text", "undefined"], ["true as text", "true"], ["a date", new Date(5)], ["a map", new Map([[0, 1n]])], ["an array with a hole", [,]], ["a function without name", () => 1]];
/** A copy of the inputs in which the leaf of this name has another value; null if it cannot be found by its name. */
function replaceLeaf(inputs, name, x) {
  const path = []; for (const m of name.matchAll(/\[(\d+)\]|[^.[\]]+/g)) path.push(m[1] !== undefined ? Number(m[1]) : m[0]);
  const go = (v, i) => {
    if (i === path.length) return typeof v === "object" && v !== null ? null : { v: x };
    if (typeof v !== "object" || v === null || !Object.hasOwn(v, path[i])) return null;
    const sub = go(v[path[i]], i + 1); if (!sub) return null;
    const out = Array.isArray(v) ? v.slice() : { ...v };
    if (sub.v !== GONE) out[path[i]] = sub.v; else if (!Array.isArray(out)) delete out[path[i]]; else if (path[i] === out.length - 1) out.pop(); else delete out[path[i]];
    return { v: out };
  };
  return go(inputs, 0)?.v ?? null;
}
export async function p05(ctx) {
  const z = await load(ctx.src, "index.js");
  ctx.rule("JS: complete inputs record exactly the public signals in wire order; inputs with one public leaf removed or with something that is no integer in its place are refused; non-trivial: at least two public signals");
  await ctx.run("js-bound-publics", ctx.n(8000, 80000), inputsArb({ objects: true }), async (c) => {
    const L = layout(c); resetNative();
    const files = { r1csBuffer: L.file, symContent: L.sym };
    const r = await attempt(() => z.encap(files, L.inputs));
    ensure(!r.error, () => `encapsulation failed: ${r.error?.stack || r.error}`);
    const got = publics(r.value.ciphertext), want = Array.from({ length: L.nPub }, (_, i) => L.value.get(i + 1));
    ensure(show(got) === show(want), () => `recorded ${show(got)} instead of ${show(want)}`);
    if (L.nPub === 0) return { nontrivial: false };
    // a symbol file that lacks the name of one public signal leaves its wire without a value
    const gone = L.order[c.missing % L.nPub][0];
    const sym2 = L.sym.split(/\r?\n/).filter((l) => l.split(",")[3] !== "main." + gone).join("\n");
    const r2 = await attempt(() => z.encap({ r1csBuffer: L.file, symContent: sym2 }, L.inputs));
    ensure(r2.error, () => `a ciphertext was made although public signal ${gone} has no value: ${show(publics(r2.value.ciphertext))}`);
    const top = gone.split(/[.[]/)[0], less = Object.fromEntries(Object.entries(L.inputs).filter(([k]) => k !== top));
    const r3 = await attempt(() => z.encrypt(files, less, new Uint8Array(3)));
    ensure(r3.error, () => `a ciphertext was made although input ${top} is missing`);
    // a value that is none, in place of one public leaf
    const bad = HOLLOW[c.missing % HOLLOW.length], name = L.order[(c.missing >> 3) % L.nPub][0], copy = replaceLeaf(L.inputs, name, bad[1]);
    if (copy) {
      const r4 = await attempt(() => (c.missing % 2 ? z.encap(files, copy) : z.encrypt(files, copy, new Uint8Array(3))));
      ensure(r4.error, () => `a ciphertext was made although public signal ${name} has ${bad[0]} for a value`);
    }
    return { nontrivial: L.nPub >= 2, labels: [copy && "hollow value", copy && bad[0], c.missing % L.nPub === L.nPub - 1 && "the last public signal is missing", c.missing % L.nPub === 0 && "the first public signal is missing"] };
  });
  // two names of one wire (the symbol file of an optimised circuit has them), or an element of an array spelled out as well
  await ctx.run("js-two-names", ctx.n(6000, 60000), fc.record({ c: inputsArb({ objects: true }), which: nat(1000), value: LEAF, equal: fc.boolean(), spell: fc.boolean(), first: fc.boolean(), name: fc.constantFrom("twin", "zz", "A0", "in_1"), line: nat(1000), enc: fc.boolean() }), async (k) => {
    const L = layout(k.c); resetNative();
    if (!L.nPub) return { nontrivial: false };
    const i = k.which % L.nPub, [name, v] = L.order[i];
    const spelled = k.spell && name.includes("[") && !name.includes("."), key = spelled ? name : k.name;
    if (Object.hasOwn(L.inputs, key) || (!spelled && L.all.some(([n]) => n === key || n.startsWith(key + ".") || n.startsWith(key + "[")))) return { nontrivial: false };
    const x = k.equal ? [v.toString(), v, (v + P).toString(), v - P, "0x" + v.toString(16)][k.line % 5] : build({ t: "s", v: k.value });
    const other = k.equal ? v : mod(BigInt(x));
    const lines = L.sym.trimEnd().split(/\r?\n/); if (!spelled) lines.splice(k.line % (lines.length + 1), 0, `900,${i + 1},4,main.${key}`);
    const inputs = k.first ? { [key]: x, ...L.inputs } : { ...L.inputs, [key]: x };
    const files = { r1csBuffer: L.file, symContent: lines.join("\n") + "\n" };
    const r = await attempt(() => (k.enc ? z.encrypt(files, inputs, new Uint8Array(3)) : z.encap(files, inputs)));
    if (other === v) {
      ensure(!r.error, () => `refused although both names have the value ${v}: ${r.error?.stack || r.error}`);
      const got = k.enc || publics(r.value.ciphertext), want = Array.from({ length: L.nPub }, (_, j) => L.value.get(j + 1));
      if (!k.enc) ensure(show(got) === show(want), () => `recorded ${show(got)} instead of ${show(want)}`);
    } else ensure(r.error, () => `a ciphertext was made although ${name} was given the values ${v} and ${other}`);
    return { nontrivial: true, labels: [spelled ? "an element spelled out" : "two names", other === v ? "same value" : "refused", k.first ? "first" : "last"] };
  });
}

/** What mail, editors, shells, padding and text encodings typically do to a file. */
const ext = (...x) => (b) => new Uint8Array([...b, ...x]), pre = (...x) => (b) => new Uint8Array([...x, ...b]), text = (e, p = "") => (b) => new Uint8Array(Buffer.from(p + Buffer.from(b).toString(e)));
export const TRANSPORTS = [ext(10), ext(13, 10), ext(13), ext(0), ext(32), ext(9), ext(26), ext(255), ext(10, 10), ext(...new Array(16).fill(0)), ext(...new Array(16).fill(16)), ext(0, 0, 0, 0),
  (b) => { const n = 16 - b.length % 16; return ext(...new Array(n).fill(n))(b); }, (b) => ext(...new Array(16 - b.length % 16).fill(0))(b), pre(10), pre(32), pre(0), pre(0xef, 0xbb, 0xbf), pre(0xff, 0xfe),
  (b) => { const x = Buffer.alloc(4); x.writeUInt32BE(b.length); return pre(...x)(b); }, text("hex"), text("base64"), text("base64url"), text("hex", "0x"), text("utf8"), text("ascii"), (b) => ext(...b)(b),
  (b) => new Uint8Array([...b].flatMap((x) => x === 10 ? [13, 10] : [x])), (b) => new Uint8Array([...b].filter((x, i) => !(x === 13 && b[i + 1] === 10))),
  (b) => { let n = b.length; while (n && [9, 10, 13, 32].includes(b[n - 1])) n--; return b.slice(0, n); }, (b) => { let n = b.length; while (n && b[n - 1] === 0) n--; return b.slice(0, n); }];
/** Those that only touch the end. */
const ENDS = TRANSPORTS.filter((f) => { const x = new Uint8Array([65, 13, 10, 66, 0x88, 32]), y = f(x), n = Math.min(x.length, y.length); return sameBytes(x.slice(0, n), y.slice(0, n)); });
// ------------------------------------------------------------------ P21 symmetric layer
const keyArb = fc.oneof({ weight: 4, arbitrary: seedArb.map((s) => ({ s, n: 32 })) }, { weight: 1, arbitrary: fc.constantFrom("00", "ff", "80").map((b) => ({ h: b.repeat(32) })) });
export async function p21(ctx) {
  const m = await load(ctx.src, "crypto.js");
  ctx.rule("keys x messages (empty, block boundaries, up to 200 kB) x views into larger buffers, compared with OpenSSL's AES-256-GCM; one alteration per case; nonces collected over the run and over processes; non-trivial: non-empty message");
  const nonces = new Set(); const cols = Array.from({ length: 12 }, () => new Set()); let count = 0;
  await ctx.run("js-gcm", ctx.n(6000, 60000), fc.record({ key: keyArb, msg: bytesArb(200000), kv: nat(3), mv: nat(3), nonce: seedArb }), async (c) => {
    const key = bytes(c.key), msg = bytes(c.msg), k = view(key, c.kv), d = view(msg, c.mv);
    const enc = await m.aesGcmEncrypt(k, d);
    ensure(isBytes(enc), "the result is not a byte array");
    ensure(sameBytes(k, key) && sameBytes(d, msg), "an argument was changed");
    ensure(enc.length === msg.length + 28, () => `${enc.length} bytes for a message of ${msg.length}`);
    const nonce = enc.slice(0, 12);
    ensure(sameBytes(enc, gcmSeal(key, nonce, msg)), "differs from standard AES-256-GCM");
    const h = hex(nonce); ensure(!nonces.has(h), `nonce ${h} was used twice`); nonces.add(h); nonce.forEach((b, i) => cols[i].add(b)); count++;
    const back = await m.aesGcmDecrypt(k, view(enc, c.mv));
    ensure(isBytes(back) && sameBytes(back, msg), "decryption does not return the message");
    const foreign = gcmSeal(key, stream(c.nonce, 12), msg), fv = view(foreign, c.kv);
    const back2 = await m.aesGcmDecrypt(view(key, c.mv), fv);
    ensure(sameBytes(back2, msg), "decryption of a standard ciphertext does not return the message");
    ensure(sameBytes(fv, foreign), "an argument was changed");
    return { nontrivial: msg.length > 0, labels: [msg.length === 0 && "empty", c.mv % 2 === 1 && "view", msg.length % 16 && "partial block", msg.length > 4096 && "long"] };
  });
  if (!ctx.replay && count > 600) cols.forEach((s, i) => { if (s.size < 100) ctx.res.violations.push({ run: "js-gcm", message: `nonce byte ${i} took only ${s.size} values in ${count} encryptions`, case: null }); });
  const alter = fc.oneof(
    { weight: 6, arbitrary: fc.tuple(nat(1 << 20), nat(7)).map(([p, b]) => ["flip", p, b]) }, { weight: 2, arbitrary: fc.tuple(nat(27), nat(7)).map(([p, b]) => ["edge", p, b]) },
    { weight: 3, arbitrary: nat(1 << 20).map((n) => ["cut", n]) }, { weight: 1, arbitrary: fc.tuple(nat(1 << 20), nat(255)).map(([p, b]) => ["insert", p, b]) }, { weight: 1, arbitrary: nat(255).map((b) => ["append", b]) },
    { weight: 1, arbitrary: nat(1 << 20).map((n) => ["drop", n]) }, { weight: 1, arbitrary: nat(1 << 20).map((n) => ["rotate", n]) }, { weight: 3, arbitrary: fc.tuple(nat(31), nat(7)).map(([p, b]) => ["key", p, b]) }, { weight: 1, arbitrary: nat(70).map((n) => ["keysize", n]) },
    { weight: 1, arbitrary: nat(27).map((n) => ["short", n]) }, { weight: 3, arbitrary: nat(TRANSPORTS.length - 1).map((n) => ["transport", n]) });
  await ctx.run("js-gcm-altered", ctx.n(20000, 250000), fc.record({ key: keyArb, msg: bytesArb(600), a: alter, v: nat(3), nonce: seedArb }), async (c) => {
    let key = bytes(c.key); const msg = bytes(c.msg), good = gcmSeal(key, stream(c.nonce, 12), msg); let b = good.slice();
    const [k, x, y] = c.a;
    if (k === "flip") b[x % b.length] ^= 1 << y;
    else if (k === "edge") { const i = x < 12 ? x : b.length - 16 + (x - 12); b[i] ^= 1 << y; }
    else if (k === "cut") b = b.slice(0, x % b.length);
    else if (k === "short") b = b.slice(0, x);
    else if (k === "insert") { const i = x % (b.length + 1); b = new Uint8Array([...b.slice(0, i), y, ...b.slice(i)]); }
    else if (k === "append") b = new Uint8Array([...b, x]);
    else if (k === "transport") b = TRANSPORTS[x](b);
    else if (k === "drop") { const i = x % b.length; b = new Uint8Array([...b.slice(0, i), ...b.slice(i + 1)]); }
    else if (k === "rotate") { const i = x % b.length; b = new Uint8Array([...b.slice(i), ...b.slice(0, i)]); }
    else if (k === "key") { key = key.slice(); key[x] ^= 1 << y; }
    else if (k === "keysize") { key = stream(c.nonce, x === 32 ? 33 : x); const r = await attempt(() => m.aesGcmEncrypt(view(key, c.v), view(msg, c.v))); ensure(r.error, `encryption accepted a key of ${key.length} bytes`); }
    const r = await attempt(() => m.aesGcmDecrypt(view(key, c.v), view(b, c.v)));
    const same = k !== "key" && k !== "keysize" && sameBytes(b, good);
    if (same) { ensure(!r.error && sameBytes(r.value, msg), "an unchanged ciphertext was not decrypted"); return { nontrivial: false, labels: ["unchanged"] }; }
    ensure(r.error, () => `an altered input (${show(c.a)}) was accepted`);
    return { nontrivial: msg.length > 0, labels: [k] };
  });
  // what a key of another standard size sealed is refused as well
  await ctx.run("js-gcm-key-sizes", ctx.n(600, 5000), fc.record({ n: fc.constantFrom(16, 24), key: seedArb, msg: bytesArb(300), nonce: seedArb, v: nat(3) }), async (c) => {
    const key = stream(c.key, c.n), msg = bytes(c.msg), cipher = createCipheriv(`aes-${c.n * 8}-gcm`, key, stream(c.nonce, 12));
    const b = new Uint8Array(Buffer.concat([stream(c.nonce, 12), cipher.update(msg), cipher.final(), cipher.getAuthTag()]));
    const r = await attempt(() => m.aesGcmDecrypt(view(key, c.v), view(b, c.v))); ensure(r.error, () => `decryption accepted a key of ${c.n} bytes`);
    const e = await attempt(() => m.aesGcmEncrypt(view(key, c.v), view(msg, c.v))); ensure(e.error, () => `encryption accepted a key of ${c.n} bytes`);
    return { nontrivial: msg.length > 0, labels: [`${c.n} bytes`] };
  });
  // long histories: one key or changing ones, one call after the other or many at once
  await ctx.run("js-gcm-long-history", ctx.n(2, 6), fc.record({ n: fc.integer({ min: 70000, max: 90000 }), at: fc.constantFrom(1, 64, 1000), keys: fc.constantFrom(1, 3), len: fc.constantFrom(0, 5, 16) }), async (c) => {
    const keys = Array.from({ length: c.keys }, (_, i) => stream(`long ${i}`, 32)), msg = new Uint8Array(c.len), seen = new Set();
    for (let i = 0; i < c.n; i += c.at) for (const e of await Promise.all(Array.from({ length: c.at }, (_, j) => m.aesGcmEncrypt(keys[(i + j) % c.keys], msg)))) {
      const h = Buffer.from(e.buffer, e.byteOffset, 12).toString("latin1");
      ensure(!seen.has(h), () => `encryption ${seen.size} of one process uses a nonce that an earlier one used`); seen.add(h);
    }
    return { nontrivial: true, labels: ["long history", c.at > 1 && "many at once"] };
  });
  // nonces across processes
  await ctx.run("js-gcm-processes", ctx.n(8, 40), fc.record({ procs: fc.integer({ min: 2, max: 3 }), calls: fc.integer({ min: 5, max: 60 }) }), async (c) => {
    const code = `const m=await import(${JSON.stringify("file://" + ctx.src + "/crypto.js")});const k=new Uint8Array(32);for(let i=0;i<${c.calls};i++)console.log(Buffer.from(await m.aesGcmEncrypt(k,new Uint8Array(5))).toString("hex").slice(0,24));`;
    const seen = new Set(); let n = 0;
    for (let i = 0; i < c.procs; i++) { const r = spawnSync(process.execPath, ["--input-type=module", "-e", code], { encoding: "utf8" }); ensure(r.status === 0, "process failed: " + r.stderr); for (const l of r.stdout.trim().split("\n")) { seen.add(l); n++; } }
    ensure(seen.size === n, `${n - seen.size} of ${n} nonces repeated`);
    return { nontrivial: true };
  });
}

// ------------------------------------------------------------------ circuits with an interpreter program
const PRIMES = [P, P, 52435875175126190479447740508185965837690552500527637822603658699938581184513n, 18446744069414584321n, 4294967291n, 2147483647n, 101n, 7n,
  (1n << 127n) - 1n, (1n << 255n) - 19n, (1n << 384n) - 317n, (1n << 255n) + 95n, (1n << 96n) + 61n, 28948022309329048855892746252171976963363056481941560715954676764349967630337n];
const opArb = fc.tuple(fc.constantFrom("const", "add", "add", "sub", "sub", "mul", "mul", "bit", "log", "eqself"), nat(1 << 20), nat(1 << 20), fc.bigInt({ min: 0n, max: (1n << 260n) }).map(String));
/** A circuit: inputs with dimensions, a straight-line program, a witness map. */
function circuitArb(prime = fc.tuple(nat(PRIMES.length - 1), fc.boolean())) {
  return fc.record({
    prime, version: fc.constantFrom(2, 2, 2, 1, 3), extraWord: fc.boolean(),
    inputs: fc.uniqueArray(fc.tuple(ident, fc.array(fc.integer({ min: 1, max: 4 }), { maxLength: 3 })), { selector: (x) => x[0], maxLength: 5 }),
    ops: fc.array(opArb, { maxLength: 14 }), wit: fc.array(nat(1 << 20), { maxLength: 40 }), checks: fc.oneof({ weight: 3, arbitrary: fc.constant([]) }, { weight: 1, arbitrary: fc.array(fc.tuple(nat(1 << 20), nat(1 << 20), nat(20)), { minLength: 1, maxLength: 2 }) }),
  });
}
function circuitOf(d) {
  const prime = PRIMES[d.prime[0]];
  let n32 = Math.ceil(prime.toString(2).length / 32); if (d.prime[1] && n32 % 2 === 1) n32++; if (d.extraWord) n32 += n32 < 15 ? 1 : 0;
  const inputs = d.inputs.map(([name, dims]) => ({ name, dims, size: dims.reduce((a, b) => a * b, 1) }));
  let next = 1 + inputs.reduce((s, i) => s + i.size, 0); const ops = [];
  const nIn = next - 1;
  for (const [op, a, b, v] of d.ops) {
    if (op === "const") ops.push({ op, value: mod(BigInt(v), prime) }), next++;
    else if (op === "bit") ops.push({ op, a: a % next, b: b % (32 * n32) }), next++;
    else if (op === "log") ops.push({ op, a: a % next, c: b % next, f: Number(BigInt(v) % 9n) });
    else if (op === "eqself") { const s = a % next; ops.push({ op: "eq", a: s, b: s }); }
    else ops.push({ op, a: a % next, b: b % next }), next++;
  }
  // assertions that only a checked calculation performs (a third of them always hold)
  for (const [a, b, at] of d.checks || []) ops.push({ op: "check", a: a % next, b: at % 3 ? b % next : a % next, under: b % 3 });
  return { version: d.version, n32, prime, inputs, ops, nIn, nSig: next, wit: [0, ...d.wit.map((w) => w % next)] };
}
const shapeArb = fc.array(nat(5), { minLength: 1, maxLength: 12 });
/** `vals` arranged by the dimensions, flat, or bracketed arbitrarily: all give the same row-major list. */
export function arrange(vals, dims, how) {
  const k = how[0] % 4;
  if (dims.length === 0) return k === 1 ? [vals[0]] : k === 2 ? [[vals[0]]] : vals[0];
  if (k === 1) return vals.slice();
  if (k === 2) { let i = 0, j = 1; const out = []; while (i < vals.length) { const n = 1 + (how[j++ % how.length] % 3); const part = vals.slice(i, i + n); out.push(n === 1 ? part[0] : [part]); i += n; } return out; }
  const nest = (v, d) => { if (d.length === 1) return v; const step = v.length / d[0]; return Array.from({ length: d[0] }, (_, i) => nest(v.slice(i * step, (i + 1) * step), d.slice(1))); };
  return nest(vals, dims);
}
const method = fc.constantFrom("values", "bin", "wtns", "file", "array");
const callArb = (bad) => fc.record({ vals: fc.array(intArb(), { minLength: 1, maxLength: 40 }), how: shapeArb, keys: keysArb, method, sanity: fc.constantFrom(undefined, false, true).map((x) => x ?? null), bad });
const BADVALS = ["abc", "1.5", 1.5, "--1", "1e5", "0xzz", "12n", "1,2", null, { "": 1 }, "NaN", "undef", "1 2", { a: 1 }, "Infinity", "nan#", "inf#", "undef#", "frac#", "", " ", "\n"];
const UNKNOWN = [1, "1", [], [1, 2], [[]], -1, "7", [[], [5]], 0];
/** A name that is not, or nearly, a name of the circuit. */
const foreign = (name, how, near) => [name, near + "[0]", near + " ", " " + near, "main." + near, near.toUpperCase(), near.slice(0, -1), near + "0", "", near + ".x", "0", near + "\0"][how];
const badArb = fc.oneof(
  { weight: 3, arbitrary: fc.tuple(ident, nat(UNKNOWN.length - 1), nat(11), nat(50)).map((x) => ["unknown", ...x]) }, { weight: 2, arbitrary: nat(50).map((i) => ["drop", i]) }, { weight: 3, arbitrary: fc.tuple(nat(50), nat(50)).map(([i, j]) => ["few", i, j]) },
  { weight: 3, arbitrary: fc.tuple(nat(50), nat(3)).map(([i, j]) => ["many", i, j]) }, { weight: 3, arbitrary: fc.tuple(nat(50), nat(50), nat(BADVALS.length - 1)).map((x) => ["value", ...x]) },
  { weight: 3, arbitrary: fc.tuple(nat(1 << 20), nat(1 << 20)).map((x) => ["assert", ...x]) }, { weight: 1, arbitrary: fc.constant(["empty"]) });
function inputOf(circ, call) {
  let i = 0; const take = () => call.vals[i++ % call.vals.length];
  const raw = circ.inputs.map((s) => Array.from({ length: s.size }, take));
  const model = raw.map((l) => l.map((x) => BigInt(x.v)));
  const values = raw.map((l) => l.map(repr));
  return { model, values };
}
function assemble(circ, call, values) {
  const entries = circ.inputs.map((s, i) => [s.name, arrange(values[i], s.dims, call.how)]);
  return Object.fromEntries(permute(entries, call.keys));
}
/** What one call must do: an error, or these witness values. `gate` signals must be equal for success. */
function expectation(circ, call, checks = false) {
  const { model, values } = inputOf(circ, call);
  let input = assemble(circ, call, values), fail = null;
  const b = call.bad;
  if (b) {
    const n = circ.inputs.length, k = n && typeof b[1] === "number" ? b[1] % n : 0;
    if (b[0] === "unknown") { const x = foreign(b[1], n ? b[3] : 0, n ? circ.inputs[b[4] % n].name : "a"); if (!circ.inputs.some((s) => s.name === x) && x !== "__proto__") { input = Object.fromEntries(permute([...Object.entries(input), [x, UNKNOWN[b[2]]]], call.keys)); fail = "unknown signal"; } }
    else if (!n) { /* nothing to damage */ }
    else if (b[0] === "drop") { input = Object.fromEntries(Object.entries(input).filter(([x]) => x !== circ.inputs[k].name)); fail = "missing signal"; }
    else if (b[0] === "empty") { input = {}; fail = "missing signals"; }
    else if (b[0] === "few") { const v = values[k].slice(0, b[2] % circ.inputs[k].size); input[circ.inputs[k].name] = v; fail = "too few values"; }
    else if (b[0] === "many") { const v = [...values[k]]; for (let j = 0; j <= b[2]; j++) v.push("1"); input[circ.inputs[k].name] = v; fail = "too many values"; }
    else if (b[0] === "value") {
      let x = BADVALS[b[3]]; if (x === "nan#") x = NaN; else if (x === "inf#") x = Infinity; else if (x === "undef#") x = undefined; else if (x === "frac#") x = 0.5;
      const v = [...values[k]]; v[b[2] % v.length] = x; input[circ.inputs[k].name] = v; fail = "not an integer";
    }
  }
  return { input, fail, want: fail ? null : vmEval(circ, model, checks) };
}
async function invoke(kind, calc, wit, wasm, input, sanity) {
  const s = sanity === null ? [] : [sanity];
  switch (kind) {
    case "values": return calc.calculateWitness(input, ...s);
    case "bin": return calc.calculateBinWitness(input, ...s);
    case "wtns": return calc.calculateWTNSBin(input, ...s);
    case "file": return wit.calculateWitness(wasm, input);
    default: return wit.calculateWitnessArray(wasm, input);
  }
}
function judge(circ, kind, got, want) {
  const n8 = circ.n32 * 4;
  if (kind === "values" || kind === "array") {
    ensure(Array.isArray(got) && got.length === want.length, () => `${got?.length} witness values instead of ${want.length}`);
    want.forEach((v, i) => ensure(got[i] === v, () => `witness ${i} is ${show(got[i])} instead of ${v}`));
    return;
  }
  ensure(isBytes(got), "not a byte array");
  let vals;
  if (kind === "bin") { ensure(got.length === n8 * want.length, () => `${got.length} bytes for ${want.length} values of ${n8}`); vals = want.map((_, i) => fromLe(got.subarray(i * n8, (i + 1) * n8))); }
  else {
    ensure(sameBytes(got, wtns(want, { n8, prime: circ.prime })), () => { try { const r = readWtns(got); return `witness file has field size ${r.n8}, prime ${r.prime}, values ${show(r.values)}; expected ${n8}, ${circ.prime}, ${show(want)}`; } catch (e) { return `not a witness file (${e.message}), expected ${show(want)}`; } });
    return;
  }
  want.forEach((v, i) => ensure(vals[i] === v, () => `witness ${i} is ${vals[i]} instead of ${v}`));
}
const withAsserts = (c, calls) => { const g = calls.flatMap((x) => (x.bad && x.bad[0] === "assert" ? [x.bad] : [])); return g.length ? { ...c, ops: [...c.ops, { op: "eq", a: g[0][1] % c.nSig, b: g[0][2] % c.nSig, under: g[0][1] % 3 }] } : c; };
async function sequence(ctx, c, badOnly) {
  const circ = withAsserts(circuitOf(c.circuit), c.calls), wasm = vmWasm(circ);
  const wc = await load(ctx.src, "witness_calculator.js"), wit = await load(ctx.src, "witness.js");
  const src = view(wasm, c.view), calc = await wc.default(src, c.opt === null ? undefined : { sanityCheck: c.opt });
  let failed = 0, after = 0;
  for (const call of c.calls) {
    // a calculator made for checking checks every time, any other when the call asks for it
    const checks = /^(values|bin|wtns)$/.test(call.method) && (c.opt === true || call.sanity === true);
    const e = expectation(circ, call, checks), before = show(e.input);
    const r = await attempt(() => invoke(call.method, calc, wit, src, e.input, call.sanity));
    ensure(show(e.input) === before, "the input object was changed");
    if (e.want === null) { failed++; ensure(r.error, () => `${e.fail || "violated assertion"}: a witness was returned: ${show(r.value)}`); }
    else { if (failed) after++; ensure(!r.error, () => `a correct input failed: ${r.error?.stack || r.error}`); judge(circ, call.method, r.value, e.want); }
  }
  ensure(sameBytes(src, wasm), "the circuit bytes were changed");
  return { circ, calc, wit, src, failed, after };
}
const seqArb = (bad, maxLength) => fc.record({ circuit: circuitArb(), calls: fc.array(callArb(bad), { minLength: 1, maxLength }), opt: fc.constantFrom(null, true, false), view: nat(3) });
export async function p27(ctx) {
  ctx.rule("random circuit programs (field widths 1..13 words, signal names, array dimensions, straight-line arithmetic, witness maps) x sequences of complete inputs in every representation, nesting and key order x all output forms; non-trivial: an input and an operation");
  await ctx.run("witness-sequences", ctx.n(8000, 100000), seqArb(fc.constant(null), 3), async (c) => {
    const s = await sequence(ctx, c);
    const info = await s.wit.getCircuitInfo(s.src);
    const want = { version: s.circ.version, n32: s.circ.n32, prime: s.circ.prime, witnessSize: s.circ.wit.length };
    for (const k of Object.keys(want)) { ensure(info[k] === want[k], () => `getCircuitInfo().${k} is ${show(info[k])} instead of ${want[k]}`); ensure(s.calc[k] === want[k], () => `calculator.${k} is ${show(s.calc[k])} instead of ${want[k]}`); }
    ensure(s.calc.circom_version() === s.circ.version, "circom_version()");
    return { nontrivial: s.circ.nIn > 0 && s.circ.ops.length > 0, labels: [s.circ.n32 !== 8 && "other field width", s.circ.inputs.some((i) => i.dims.length > 1) && "several dimensions", s.circ.ops.some((o) => o.op === "log") && "logs"] };
  });
  await ctx.run("wide-witness", ctx.n(200, 2000), fc.record({ p: nat(3), n: nat(2500), m: nat(900), s: seedArb, method }), async (c) => {
    const prime = PRIMES[[0, 2, 3, 4][c.p]], n32 = [8, 8, 2, 1][c.p], size = c.m + 1;
    const circ = { version: 2, n32, prime, inputs: [{ name: "in", dims: [size], size }], ops: [], nIn: size, nSig: size + 1, wit: [0, ...Array.from({ length: c.n }, (_, i) => 1 + ((i * 7 + c.s) % size))] };
    const vals = Array.from({ length: size }, (_, i) => fromLe(stream(c.s + i, 34)));
    const wasm = vmWasm(circ), wc = await load(ctx.src, "witness_calculator.js"), wit = await load(ctx.src, "witness.js"), calc = await wc.default(wasm);
    judge(circ, c.method, await invoke(c.method, calc, wit, wasm, { in: vals.map(String) }, null), vmEval(circ, [vals]));
    return { nontrivial: c.n > 0, labels: [c.n > 1000 && "more than 1000 wires"] };
  });
  await realCircuits(ctx);
}
/** The two compiled circuits that ship with the repository, against the plain script's long-standing output format. */
async function realCircuits(ctx) {
  const fs = await import("node:fs");
  const file = "/repo/packages/zkenc-cli/tests/r1cs/sudoku.wasm"; if (!fs.existsSync(file)) return;
  const wasm = new Uint8Array(fs.readFileSync(file)), text = fs.readFileSync(file.replace(".wasm", ".sym"), "utf8"), circuit = readR1cs(fs.readFileSync(file.replace(".wasm", ".r1cs")));
  const wireOf = new Map(text.split("\n").filter((l) => l).map((l) => l.split(",")).map((p) => [p[3].trim(), Number(p[1])]));
  const base = [5, 3, 4, 6, 7, 8, 9, 1, 2, 6, 7, 2, 1, 9, 5, 3, 4, 8, 1, 9, 8, 3, 4, 2, 5, 6, 7, 8, 5, 9, 7, 6, 1, 4, 2, 3, 4, 2, 6, 8, 5, 3, 7, 9, 1, 7, 1, 3, 9, 2, 4, 8, 5, 6, 9, 6, 1, 5, 3, 7, 2, 8, 4, 2, 8, 7, 4, 1, 9, 6, 3, 5, 3, 4, 5, 2, 8, 6, 1, 7, 9];
  await ctx.run("compiled-sudoku", ctx.n(24, 200), fc.record({ perm: keysArb, holes: fc.array(nat(80), { maxLength: 60 }), bad: fc.option(fc.tuple(nat(80), nat(9)), { nil: null }), form: nat(3), swap: fc.boolean() }), async (c) => {
    const digits = permute([1, 2, 3, 4, 5, 6, 7, 8, 9], c.perm), sol = base.map((d) => digits[d - 1]), puz = sol.slice(); for (const h of c.holes) puz[h] = 0;
    let ok = true; if (c.bad && sol[c.bad[0]] !== c.bad[1]) { sol[c.bad[0]] = c.bad[1]; ok = false; }
    const f = (l) => (c.form === 0 ? l : c.form === 1 ? l.map(String) : c.form === 2 ? l.map(BigInt) : Array.from({ length: 9 }, (_, i) => l.slice(9 * i, 9 * i + 9)));
    const input = c.swap ? { solution: f(sol), puzzle: f(puz) } : { puzzle: f(puz), solution: f(sol) };
    const wc = await load(ctx.src, "witness_calculator.js"), calc = await wc.default(wasm);
    const r = await attempt(() => calc.calculateWitness(input));
    if (!ok) { ensure(r.error, "a wrong sudoku solution was accepted"); return { nontrivial: true, labels: ["wrong solution"] }; }
    ensure(!r.error, () => "a right solution failed: " + r.error);
    const w = r.value; ensure(w[0] === 1n, "wire 0");
    const at = (n, v) => { const i = wireOf.get(n); if (i >= 0) ensure(w[i] === BigInt(v), () => `${n} (wire ${i}) is ${w[i]}`); };
    puz.forEach((v, i) => at(`main.puzzle[${i}]`, v)); sol.forEach((v, i) => at(`main.solution[${i}]`, v));
    ensure(w.length === circuit.nWires && satisfied(circuit.constraints, w), "the witness does not satisfy the circuit file");
    const file = readWtns(await calc.calculateWTNSBin(input)); ensure(show(file.values) === show(w), "file and values differ");
    return { nontrivial: true, labels: ["right solution"] };
  });
}
export async function p28(ctx) {
  ctx.rule("sequences of correct and incorrect inputs (unknown, missing, too few, too many, non-integers, violated assertions) on one calculator; non-trivial: at least one call must fail");
  await ctx.run("refusals", ctx.n(12000, 150000), seqArb(fc.option(badArb, { nil: null, freq: 3 }), 4), async (c) => {
    const s = await sequence(ctx, c);
    const kinds = [...new Set(c.calls.filter((x) => x.bad).map((x) => x.bad[0]))];
    return { nontrivial: s.failed > 0, labels: [s.after > 0 && "success after a failure", s.circ.ops.some((o) => o.op === "check") && "assertions checked on request", ...kinds] };
  });
  await ctx.run("not-a-circuit", ctx.n(400, 4000), fc.uint8Array({ maxLength: 60 }).map(hex), async (h) => {
    const wit = await load(ctx.src, "witness.js"), b = new Uint8Array(Buffer.from(h, "hex"));
    const bad = await attempt(() => WebAssembly.compile(b)); if (!bad.error) return { nontrivial: false };
    for (const f of [() => wit.calculateWitness(b, {}), () => wit.calculateWitnessArray(b, {}), () => wit.getCircuitInfo(b)]) { const r = await attempt(f); ensure(r.error, "bytes that are no module were accepted"); }
    return { nontrivial: true };
  });
}
export async function p29(ctx) {
  ctx.rule("the plain script and the typed calculator run the same sequences of correct and incorrect inputs on the same circuit programs; non-trivial: an input and an operation");
  const script = loadScript(ctx.src, "witness_calculator.script.cjs");
  const build = script.default || script;
  await ctx.run("script-vs-typed", ctx.n(8000, 100000), seqArb(fc.option(badArb, { nil: null, freq: 1 }), 4), async (c) => {
    // (the script always checks, so checked assertions are compared with a checking calculator)
    const circ = withAsserts(circuitOf(c.opt === true ? c.circuit : { ...c.circuit, checks: [] }), c.calls), wasm = vmWasm(circ);
    const wc = await load(ctx.src, "witness_calculator.js");
    const o = c.opt === null ? [] : [{ sanityCheck: c.opt }];
    const a = await wc.default(wasm, ...o), b = await build(wasm, ...o);
    let failed = 0;
    ensure(a.circom_version() === b.circom_version() && a.prime === b.prime && a.n32 === b.n32 && a.witnessSize === b.witnessSize, "metadata differs");
    for (const call of c.calls) {
      const e = expectation(circ, call, c.opt === true);
      for (const m of ["calculateWitness", "calculateBinWitness", "calculateWTNSBin"]) {
        const x = await attempt(() => a[m](e.input)), y = await attempt(() => b[m](e.input));
        ensure(!x.error === !y.error, () => `${m}: typed ${x.error ? "fails: " + x.error : "succeeds"}, script ${y.error ? "fails: " + y.error : "succeeds"}`);
        if (x.error) { failed++; ensure(e.want === null, () => `both fail on a correct input: ${x.error}`); continue; }
        ensure(e.want !== null, () => `both accept an input that must fail (${e.fail || "assertion"})`);
        const kind = { calculateWitness: "values", calculateBinWitness: "bin", calculateWTNSBin: "wtns" }[m];
        if (kind === "values") ensure(show(x.value.map(String)) === show(y.value.map(String)), () => `values differ: typed ${show(x.value)}, script ${show(y.value)}`);
        else ensure(sameBytes(x.value, y.value), () => `${m}: bytes differ`);
        judge(circ, kind, y.value, e.want);
      }
    }
    return { nontrivial: circ.nIn > 0 && circ.ops.length > 0, labels: [failed > 0 && "failing inputs", circ.n32 !== 8 && "other field width"] };
  });
  await ctx.run("script-not-a-circuit", ctx.n(100, 1000), fc.uint8Array({ maxLength: 40 }).map(hex), async (h) => {
    const b = new Uint8Array(Buffer.from(h, "hex")), wc = await load(ctx.src, "witness_calculator.js");
    const x = await attempt(() => wc.default(b)), y = await attempt(() => build(b)); ensure(!x.error === !y.error, "one calculator accepts what the other refuses"); return { nontrivial: true };
  });
}

// ------------------------------------------------------------------ P37 messages of the circuit
// circom's runtime codes and how an error names them
const REASONS = [null, /signal not found/i, /too many/i, /already set/i, /assert/i, /memory/i, /exceed|access/i];
export async function p37(ctx) {
  ctx.rule("circuit programs with log statements (texts, values, both, empty, several lines, percent signs) and assertions that report one or two messages x sequences of succeeding and failing calls on one calculator, both calculators; the console lines and the error messages are compared with the program's; non-trivial: a line is printed or an assertion fails");
  const script = loadScript(ctx.src, "witness_calculator.script.cjs"), build = script.default || script;
  const logs = fc.array(fc.tuple(nat(1 << 20), nat(1 << 20), nat(8), nat(1 << 10)), { maxLength: 5 });
  await ctx.run("messages", ctx.n(8000, 100000), fc.record({ s: seqArb(fc.option(badArb, { nil: null, freq: 2 }), 4), logs, script: fc.boolean(), codes: fc.array(nat(9), { maxLength: 3 }) }), async (c) => {
    let circ = withAsserts(circuitOf(c.script && c.s.opt !== true ? { ...c.s.circuit, checks: [] } : c.s.circuit), c.s.calls);
    // more log statements, each where its signals exist
    const ops = circ.ops.slice(); for (const [a, b, f, at] of c.logs) ops.splice(at % (ops.length + 1), 0, { op: "log", a: 0, c: 0, f, x: a, y: b });
    let next = circ.nIn + 1; for (const o of ops) { if (o.op === "log" && "x" in o) { o.a = o.x % next; o.c = o.y % next; } else if (!["log", "eq", "check"].includes(o.op)) next++; }
    // a circuit may also end a run for another reason than an assertion
    let k = 0; circ = { ...circ, ops: ops.map((o) => (/^(eq|check)$/.test(o.op) && c.codes.length ? { ...o, under: (o.under ?? 0) | (c.codes[k++ % c.codes.length] << 2) } : o)) };
    const wasm = vmWasm(circ), wc = await load(ctx.src, "witness_calculator.js"), wit = await load(ctx.src, "witness.js");
    const calc = await (c.script ? build : wc.default)(wasm, ...(c.s.opt === null ? [] : [{ sanityCheck: c.s.opt }]));
    let printed = 0, asserted = 0, failed = 0, others = 0;
    for (const call of c.s.calls) {
      const own = /^(values|bin|wtns)$/.test(call.method);
      if (c.script && !own) continue;
      const checks = own && (c.s.opt === true || call.sanity === true);
      const e = expectation(circ, call, checks), t = vmTrace(circ, inputOf(circ, call).model, checks);
      const r = await captured(() => invoke(call.method, calc, wit, wasm, e.input, c.script ? null : call.sanity), true);
      const text = r.error ? String(r.error.message) : "", said = text.split("\n").filter((l) => l.startsWith("Error in template"));
      if (e.fail) { failed++; ensure(r.error, () => `${e.fail}: a witness was returned`); ensure(said.length === 0 || (t.fail && show(said) === show(t.fail)), () => `the error of a call without a failed assertion (${e.fail}) reports one: ${show(text)}`); continue; }
      ensure(!!r.error === !!t.fail, () => (r.error ? `a correct input failed: ${r.error}` : "a failed assertion was accepted"));
      const got = r.lines.join("\n"), want = t.lines.join("\n");
      ensure(got === want && (r.lines.length > 0) === (t.lines.length > 0), () => `the calculation prints ${show(r.lines)} instead of ${show(t.lines)}`);
      printed += t.lines.length;
      if (t.fail) { asserted++; failed++; const kinds = REASONS.flatMap((r, i) => (r && r.test(text) ? [i] : [])), want = REASONS[t.code] ? [t.code] : []; ensure(show(kinds) === show(want), () => `the circuit ended with code ${t.code}, the error says ${show(text)}`); others += t.code !== 4; ensure(show(said) === show(t.fail), () => `the error reports ${show(said)} instead of ${show(t.fail)}`); }
    }
    return { nontrivial: printed > 0 || asserted > 0, labels: [printed > 0 && "printed lines", asserted > 0 && "failed assertions", asserted > 1 && "several failed assertions on one calculator", failed > 0 && printed > 0 && "both", others > 0 && "another reason", c.script && "script"] };
  });
}

// ------------------------------------------------------------------ a small witness-encryption world: circuits, inputs, files
/** A circuit over BN254 whose program, R1CS and symbol file agree; publics are the first inputs. */
const worldModel = {
  ins: fc.uniqueArray(fc.tuple(ident, fc.array(fc.integer({ min: 1, max: 3 }), { maxLength: 2 })), { selector: (x) => x[0], minLength: 1, maxLength: 4 }),
  nPubSel: nat(20), muls: fc.array(fc.tuple(nat(1000), nat(1000)), { minLength: 1, maxLength: 5 }), lines: keysArb,
};
export const worldArb = fc.record(worldModel);
export function world(d) {
  const inputs = d.ins.map(([name, dims]) => ({ name, dims, size: dims.reduce((a, b) => a * b, 1) }));
  const total = inputs.reduce((s, i) => s + i.size, 0);
  const names = inputs.flatMap((i) => { const idx = (dims) => (dims.length ? Array.from({ length: dims[0] }, (_, k) => idx(dims.slice(1)).map((r) => `[${k}]` + r)).flat() : [""]); return idx(i.dims).map((x) => i.name + x); });
  // public inputs are a prefix of the signals
  let nPub = 0; const k = d.nPubSel % inputs.length; for (let i = 0; i <= k; i++) nPub += inputs[i].size;
  const pubInputs = inputs.slice(0, k + 1);
  const ops = [], cons = []; let next = total + 1;
  for (const [a, b] of d.muls) { const x = a % next, y = b % next; ops.push({ op: "mul", a: x, b: y }); cons.push([[[x, 1n]], [[y, 1n]], [[next, 1n]]]); next++; }
  const circ = { version: 2, n32: 8, prime: P, inputs, ops, nIn: total, nSig: next, wit: Array.from({ length: next }, (_, i) => i) };
  const sym = permute(names.map((n, i) => [i + 1, "main." + n]), d.lines).map(([w, n], i) => `${i + 1},${w},0,${n}`).join("\n");
  return { circ, inputs, pubInputs, nPub, total, sym, r1cs: r1cs({ nWires: next, nOut: 0, nIn: nPub, nPrv: total - nPub, constraints: cons }), wasm: vmWasm(circ), names };
}
const worldInput = (w, vals, how, keys) => {
  let i = 0; const raw = w.inputs.map((s) => Array.from({ length: s.size }, () => vals[i++ % vals.length]));
  const obj = (list) => Object.fromEntries(permute(list.map((s) => [s.name, arrange(raw[w.inputs.indexOf(s)].map(repr), s.dims, how)]), keys));
  return { full: obj(w.inputs), pub: obj(w.pubInputs), values: raw.flat().map((x) => mod(BigInt(x.v))) };
};
const asJson = (x) => JSON.parse(JSON.stringify(x, (_, v) => (typeof v === "bigint" ? String(v) : v))); // JSON has no big integers
const dimHow = fc.constant([3]); // arranged by the dimensions: the symbol file addresses elements by index
export function splitContainer(b) {
  const d = Buffer.from(b.buffer, b.byteOffset, b.length); let o = 0;
  ensure(d.length >= 5, "container shorter than its header");
  const flag = d[0], wl = d.readUInt32BE(1); o = 5; ensure(o + wl <= d.length, "witness ciphertext length"); const wct = d.subarray(o, o + wl); o += wl;
  let pub = null; if (flag === 1) { ensure(o + 4 <= d.length, "public length"); const l = d.readUInt32BE(o); o += 4; ensure(o + l <= d.length, "public inputs length"); pub = d.subarray(o, o + l); o += l; }
  else ensure(flag === 0, `flag byte ${flag}`);
  return { flag, wct: new Uint8Array(wct), pub, enc: new Uint8Array(d.subarray(o)), pubAt: flag === 1 ? 5 + wl : -1 };
}
const encOpts = [undefined, {}, { includePublicInput: true }, { includePublicInput: false }, { includePublicInput: undefined }];
const msgCase = fc.record({ world: worldArb, vals: fc.array(intArb(), { minLength: 1, maxLength: 12 }), how: dimHow, keys: keysArb, msg: bytesArb(20000), opt: nat(encOpts.length - 1), v: nat(3), extra: fc.option(fc.tuple(fc.string({ unit: "grapheme", maxLength: 8 }), fc.oneof(fc.string({ unit: "grapheme", maxLength: 12 }), fc.integer())), { nil: null }) });
function snapshot(w, inp, msg) { return show(inp) + hex(w.r1cs) + w.sym + hex(msg); }
export async function p25(ctx) {
  const z = await load(ctx.src, "index.js");
  ctx.rule("circuits x inputs x messages x options; the container is taken apart by an independent reader, opened again in several buffer views, then truncated or given wrong lengths; non-trivial: non-empty message");
  await ctx.run("container", ctx.n(5000, 60000), msgCase, async (c) => {
    resetNative();
    const w = world(c.world), inp = worldInput(w, c.vals, c.how, c.keys), msg = bytes(c.msg), data = view(msg, c.v);
    const pub = { ...inp.pub }; if (c.extra && !w.names.some((n) => n === c.extra[0] || n.startsWith(c.extra[0] + "[")) && c.extra[0] !== "__proto__") pub[c.extra[0]] = c.extra[1];
    const opt = encOpts[c.opt], want = opt?.includePublicInput ?? true;
    const files = { r1csBuffer: view(w.r1cs, c.v), symContent: w.sym }, before = show(pub), optBefore = show(opt ?? null);
    const r = await attempt(() => (opt === undefined ? z.encrypt(files, pub, data) : z.encrypt(files, pub, data, opt)));
    ensure(!r.error, () => `encryption failed: ${r.error?.stack || r.error}`);
    ensure(show(pub) === before && show(opt ?? null) === optBefore && sameBytes(data, msg) && sameBytes(files.r1csBuffer, w.r1cs) && files.symContent === w.sym, "an argument was changed");
    const { ciphertext, key } = r.value;
    ensure(isBytes(ciphertext) && isBytes(key) && key.length === 32, "result types");
    const p = splitContainer(ciphertext);
    ensure((p.flag === 1) === want, `flag byte ${p.flag} with includePublicInput ${want}`);
    if (want) ensure(show(JSON.parse(p.pub.toString("utf8"))) === show(asJson(pub)), "embedded inputs differ");
    ensure(p.enc.length === msg.length + 28, () => `encrypted message of ${p.enc.length} bytes for ${msg.length}`);
    ensure(sameBytes(gcmOpen(key, p.enc), msg), "the encrypted message does not open with the returned key");
    ensure(native.encaps.length === 1, "the native layer was not called exactly once");
    ensure(show(publics(p.wct)) === show(inp.values.slice(0, w.nPub)), "bound to other public inputs");
    // reading back
    const cv = view(ciphertext, (c.v + 1) % 4), cfiles = { r1csBuffer: w.r1cs, wasmBuffer: view(w.wasm, c.v) };
    const back = await attempt(() => z.decrypt(cfiles, cv, inp.full));
    ensure(!back.error, () => `decryption failed: ${back.error?.stack || back.error}`);
    ensure(isBytes(back.value) && sameBytes(back.value, msg), "decryption returned another message");
    ensure(sameBytes(cv, ciphertext), "the ciphertext was changed");
    const g = await attempt(async () => z.getPublicInput(cv));
    if (want) { ensure(!g.error, () => `getPublicInput failed: ${g.error}`); ensure(show(g.value) === show(asJson(pub)), () => `getPublicInput returned ${show(g.value)}`); }
    else ensure(g.error, "getPublicInput succeeded without embedded inputs");
    const key2 = await z.decap(cfiles, p.wct, inp.full); ensure(sameBytes(key2, key), "decap returned another key");
    return { nontrivial: msg.length > 0, labels: [want ? "embedded" : "not embedded", c.v % 2 && "view", c.vals.some((x) => x.k === "big") && "big integers", msg.length === 0 && "empty message", w.nPub < w.total && "private inputs"] };
  });
  const hurt = fc.oneof(
    { weight: 4, arbitrary: nat(1 << 20).map((n) => ["cut", n]) }, { weight: 2, arbitrary: nat(30).map((n) => ["tail", n]) }, { weight: 2, arbitrary: nat(20).map((n) => ["head", n]) }, { weight: 1, arbitrary: nat(12).map((n) => ["boundary", n]) },
    { weight: 3, arbitrary: nat(7).map((k) => ["wlen", k]) }, { weight: 3, arbitrary: nat(7).map((k) => ["plen", k]) }, { weight: 3, arbitrary: fc.tuple(nat(1 << 20), nat(7)).map(([p, b]) => ["body", p, b]) },
    { weight: 3, arbitrary: nat(ENDS.length - 1).map((n) => ["transport", n]) });
  await ctx.run("container-damaged", ctx.n(12000, 150000), fc.record({ world: worldArb, vals: fc.array(intArb(), { minLength: 1, maxLength: 6 }), msg: bytesArb(200), embed: fc.boolean(), hurt, v: nat(3), prior: fc.boolean() }), async (c) => {
    resetNative();
    const w = world(c.world), inp = worldInput(w, c.vals, [3], [0]), msg = bytes(c.msg);
    const { ciphertext: good, key } = await z.encrypt({ r1csBuffer: w.r1cs, symContent: w.sym }, inp.pub, msg, { includePublicInput: c.embed });
    const p = splitContainer(good); let b = good.slice(); const [k, x, y] = c.hurt;
    const put = (at, v) => new DataView(b.buffer).setUint32(at, v >>> 0, false);
    let readable = false; // may getPublicInput still succeed?
    if (k === "cut") b = b.slice(0, x % good.length);
    else if (k === "tail") b = b.slice(0, Math.max(0, good.length - 1 - x));
    else if (k === "head") b = b.slice(0, Math.min(x, good.length - 1));
    else if (k === "boundary") { const e = 5 + p.wct.length; const list = [0, 1, 4, 5, e - 1, e, e + 1, e + 3, e + 4, e + 4 + (p.pub?.length ?? 0), e + 3 + (p.pub?.length ?? 0), good.length - 28, good.length - 1]; b = b.slice(0, Math.min(list[x], good.length - 1)); }
    else if (k === "wlen") put(1, [0xffffffff, 0x7fffffff, 0x80000000, good.length, good.length - 5 + 1, p.wct.length + 1, p.wct.length - 1, 0][x]);
    else if (k === "plen") { if (!c.embed) return { nontrivial: false }; const l = p.pub.length, left = good.length - p.pubAt - 4; put(p.pubAt, [0xffffffff, 0x7fffffff, 0x80000000, left + 1, good.length, l + 1, l - 1, left - 27][x]); readable = x >= 5; }
    else if (k === "transport") { b = ENDS[x](good); readable = true; if (sameBytes(b, good)) return { nontrivial: false }; }
    else { const at = good.length - p.enc.length + (x % p.enc.length); b[at] ^= 1 << y; readable = true; }
    if (k === "cut" || k === "tail" || k === "head" || k === "boundary") readable = c.embed && b.length >= p.pubAt + 4 + p.pub.length;
    const bv = view(b, c.v), cfiles = { r1csBuffer: w.r1cs, wasmBuffer: w.wasm };
    const r = await attempt(() => z.decrypt(cfiles, bv, inp.full));
    ensure(r.error, () => `a damaged container (${show(c.hurt)}, ${b.length} of ${good.length} bytes) was decrypted to ${show(r.value)}`);
    const g = await attempt(async () => z.getPublicInput(bv));
    if (!readable || !c.embed) ensure(g.error, () => `getPublicInput read ${show(g.value)} from a damaged container (${show(c.hurt)})`);
    ensure(sameBytes(bv, b), "the container was changed");
    return { nontrivial: true, labels: [k, c.embed ? "embedded" : "not embedded"] };
  });
  // wrong witness: no plaintext
  await ctx.run("wrong-witness", ctx.n(2500, 30000), fc.record({ world: worldArb, vals: fc.array(intArb(), { minLength: 3, maxLength: 12 }), at: nat(1000), delta: fc.integer({ min: 1, max: 5 }) }), async (c) => {
    resetNative();
    const w = world(c.world), inp = worldInput(w, c.vals, [3], [0]);
    const { ciphertext } = await z.encrypt({ r1csBuffer: w.r1cs, symContent: w.sym }, inp.pub, new Uint8Array(9));
    const i = c.at % w.nPub, vals = inp.values.map((v, j) => (j === i ? mod(v + BigInt(c.delta)) : v)); let k = 0;
    const full = Object.fromEntries(w.inputs.map((s) => [s.name, arrange(Array.from({ length: s.size }, () => String(vals[k++])), s.dims, [3])]));
    const r = await attempt(() => z.decrypt({ r1csBuffer: w.r1cs, wasmBuffer: w.wasm }, ciphertext, full));
    ensure(r.error, "decryption with another public input succeeded");
    return { nontrivial: true };
  });
}

// ------------------------------------------------------------------ P32 concurrency
let instances = 0;
const opCase = fc.record({ kind: fc.constantFrom("encrypt", "encrypt", "decrypt", "decrypt", "encap", "decap", "read", "witness", "witness", "wtns", "badDecrypt", "badEncrypt"), w: fc.constantFrom(0, 0, 0, 1, 2), phase: fc.constantFrom(0, 0, 1, 2), vals: fc.array(intArb(), { minLength: 1, maxLength: 8 }), msg: bytesArb(300), at: fc.oneof({ weight: 3, arbitrary: fc.constant(0) }, { weight: 2, arbitrary: nat(12) }), embed: fc.boolean() });
export async function p32(ctx) {
  const wref = await load(ctx.src, "index.js");
  ctx.rule("1..3 phases of together 2..12 operations, those of one phase started at generated points and those of the next when the phase has finished, most on the same program object with different inputs, while initialisation, key import, encryption, module compilation and instantiation complete after generated delays in any order, on a fresh copy of the library; non-trivial: at least two operations overlap");
  await ctx.run("interleavings", ctx.n(4000, 50000), fc.record({ worlds: fc.array(worldArb, { minLength: 3, maxLength: 3 }), ops: fc.array(opCase, { minLength: 2, maxLength: 12 }), init: nat(12), delays: fc.array(nat(6), { minLength: 1, maxLength: 30 }), syncInit: fc.boolean() }), async (c) => {
    resetNative(); native.ready = true;
    const W = c.worlds.map(world);
    // prepare ciphertexts alone, with the shared copy
    const ops = [];
    for (const o of c.ops) {
      const w = W[o.w], inp = worldInput(w, o.vals, [3], [0]), msg = bytes(o.msg);
      const alone = /rypt|read|decap/.test(o.kind) ? await wref.encrypt({ r1csBuffer: w.r1cs, symContent: w.sym }, inp.pub, msg, { includePublicInput: o.kind === "read" || o.embed }) : null;
      ops.push({ o, w, inp, msg, alone });
    }
    resetNative(); native.ready = false;
    const z = await load(ctx.src, "index.js", ++instances), wit = await load(ctx.src, "witness.js", instances);
    // a deterministic clock of event-loop turns, and synchronous work behind every asynchronous primitive
    let k = 0; const turns = async (n) => { for (let i = 0; i < n; i++) await new Promise((r) => setImmediate(r)); };
    const delay = () => turns(c.delays[k++ % c.delays.length]);
    const subtle = globalThis.crypto.subtle, saved = { importKey: subtle.importKey, encrypt: subtle.encrypt, decrypt: subtle.decrypt, compile: WebAssembly.compile, instantiate: WebAssembly.instantiate };
    const keys = new WeakMap();
    subtle.importKey = async (f, raw, a, e, u) => { const t = { algorithm: a, usages: u }; keys.set(t, Buffer.from(raw)); await delay(); return t; };
    subtle.encrypt = async (a, t, d) => { const data = Buffer.from(d), iv = Buffer.from(a.iv); const out = gcmSeal(keys.get(t), iv, data).slice(12); await delay(); return out.buffer.slice(out.byteOffset, out.byteOffset + out.length); };
    subtle.decrypt = async (a, t, d) => { const b = Buffer.concat([Buffer.from(a.iv), Buffer.from(d)]); await delay(); const out = gcmOpen(keys.get(t), new Uint8Array(b)); return out.buffer.slice(out.byteOffset, out.byteOffset + out.length); };
    WebAssembly.compile = async (b) => { const m = new WebAssembly.Module(b); await delay(); return m; };
    WebAssembly.instantiate = async (m, i) => { if (!(m instanceof WebAssembly.Module)) { const mm = new WebAssembly.Module(m); await delay(); return { module: mm, instance: new WebAssembly.Instance(mm, i) }; } const x = new WebAssembly.Instance(m, i); await delay(); return x; };
    if (!c.syncInit || c.init > 0) native.initDelay = () => turns(c.init);
    let results;
    try {
      let over; const phases = [0, 1, 2].map(() => { let open; const p = new Promise((r) => { open = r; }); return { p, open, left: 0 }; });
      for (const { o } of ops) phases[o.phase].left++;
      over = (k) => { while (k < 3 && phases[k].left === 0) phases[k++].open(); };
      over(0);
      results = await Promise.all(ops.map(async (op) => {
        const { o, w, inp, msg, alone } = op;
        if (o.phase) await phases[o.phase - 1].p;
        await turns(o.at);
        const ef = { r1csBuffer: w.r1cs, symContent: w.sym }, df = { r1csBuffer: w.r1cs, wasmBuffer: w.wasm };
        return attempt(async () => {
          switch (o.kind) {
            case "encrypt": return z.encrypt(ef, inp.pub, msg, { includePublicInput: o.embed });
            case "encap": return z.encap(ef, inp.pub);
            case "decrypt": return z.decrypt(df, alone.ciphertext, inp.full);
            case "decap": return z.decap(df, splitContainer(alone.ciphertext).wct, inp.full);
            case "read": return z.getPublicInput(alone.ciphertext);
            case "witness": return wit.calculateWitnessArray(w.wasm, inp.full);
            case "wtns": return wit.calculateWitness(w.wasm, inp.full);
            case "badDecrypt": return z.decrypt(df, alone.ciphertext.slice(0, alone.ciphertext.length - 1), inp.full);
            default: return z.encrypt(ef, {}, msg);
          }
        }).finally(() => { if (--phases[o.phase].left === 0) over(o.phase); });
      }));
    } finally { delete subtle.importKey; delete subtle.encrypt; delete subtle.decrypt; WebAssembly.compile = saved.compile; WebAssembly.instantiate = saved.instantiate; native.initDelay = null; }
    const used = new Set();
    results.forEach((r, i) => {
      const { o, w, inp, msg, alone } = ops[i], what = `operation ${i} (${o.kind})`;
      if (o.kind === "badDecrypt" || o.kind === "badEncrypt") { ensure(r.error, `${what} succeeded`); return; }
      ensure(!r.error, () => `${what} failed: ${r.error?.stack || r.error}`);
      const v = r.value;
      if (o.kind === "encrypt") { const p = splitContainer(v.ciphertext); ensure((p.flag === 1) === o.embed, `${what}: flag`); ensure(sameBytes(gcmOpen(v.key, p.enc), msg), `${what}: does not open to its message`); ensure(show(publics(p.wct)) === show(inp.values.slice(0, w.nPub)), `${what}: bound to other inputs`); if (o.embed) ensure(show(JSON.parse(p.pub.toString())) === show(asJson(inp.pub)), `${what}: embedded inputs`); ensure(!used.has(hex(v.key)), `${what}: key shared`); used.add(hex(v.key)); }
      else if (o.kind === "encap") { ensure(show(publics(v.ciphertext)) === show(inp.values.slice(0, w.nPub)), `${what}: bound to other inputs`); ensure(!used.has(hex(v.key)), `${what}: key shared`); used.add(hex(v.key)); }
      else if (o.kind === "decrypt") ensure(sameBytes(v, msg), `${what}: another message`);
      else if (o.kind === "decap") ensure(sameBytes(v, alone.key), `${what}: another key`);
      else if (o.kind === "wtns") ensure(show(readWtns(v).values) === show(vmEval(w.circ, splitBySize(inp.values, w.inputs))), `${what}: another witness`);
      else if (o.kind === "read") ensure(show(v) === show(asJson(inp.pub)), `${what}: ${show(v)}`);
      else ensure(show(v) === show(vmEval(w.circ, splitBySize(inp.values, w.inputs))), `${what}: another witness`);
    });
    const uses = ops.some(({ o }) => /^(encrypt|decrypt|encap|decap|bad)/.test(o.kind));
    ensure(native.early === 0, `the native module was used ${native.early} times before its initialisation finished`);
    ensure(native.inits <= 1, `the native module was initialised ${native.inits} times`);
    if (ops.some(({ o }) => /^(encrypt|decrypt|encap|decap)$/.test(o.kind))) ensure(native.inits === 1, "the native module was never initialised");
    return { nontrivial: [0, 1, 2].some((p) => ops.filter(({ o }) => o.phase === p).length >= 2), labels: [new Set(ops.map(({ o }) => o.phase)).size > 1 && "several phases", c.init > 3 && "slow initialisation", ops.filter(({ o }) => o.at === 0).length > 1 && "several very first calls", uses && "native calls"] };
  });
  await sharedCalculator(ctx);
  await reusedBuffers(ctx);
}
/** Makes `to` equal `from`, keeping its objects and arrays. */
function morph(to, from) {
  if (Array.isArray(from)) { if (!Array.isArray(to)) to = []; to.length = from.length; from.forEach((x, i) => { to[i] = morph(to[i], x); }); return to; }
  if (from !== null && typeof from === "object") { if (to === null || typeof to !== "object" || Array.isArray(to)) to = {}; for (const k of Object.keys(to)) delete to[k]; const old = { ...to }; for (const [k, v] of Object.entries(from)) to[k] = morph(old[k], v); return to; }
  return from;
}
/** Calls one after another, each given the same objects with other contents. */
async function reusedBuffers(ctx) {
  const z = await load(ctx.src, "index.js"), wit = await load(ctx.src, "witness.js"), gcm = await load(ctx.src, "crypto.js");
  const step = fc.record({ kind: fc.constantFrom("encrypt", "encap", "decrypt", "decap", "read", "witness", "wtns", "seal", "open", "broken"), w: nat(2), vals: fc.array(intArb(), { minLength: 1, maxLength: 8 }), s: seedArb, embed: fc.boolean(), fresh: nat(9) });
  ctx.rule("2..8 calls one after another given the same byte arrays, input, option and file objects, whose contents are replaced in between; some results are overwritten by the caller, the others must stay as they were; non-trivial: two calls share an object");
  await ctx.run("reused-objects", ctx.n(5000, 60000), fc.record({ world: worldArb, muls: fc.array(fc.tuple(nat(1000), nat(1000)), { minLength: 4, maxLength: 4 }), len: nat(60), steps: fc.array(step, { minLength: 2, maxLength: 8 }) }), async (c) => {
    resetNative(); native.ready = true;
    const W = [0, 1, 2].map((k) => world(k === 0 ? c.world : { ...c.world, muls: c.world.muls.map((m, i) => c.muls[(i + k) % 4]) }));
    const slots = {}; let shared = 0;
    const slot = (name, b) => {
      const s = slots[name]?.back.byteLength >= b.length + 64 ? slots[name] : (slots[name] = { back: new ArrayBuffer(2 * b.length + 256) });
      if (s.view?.length === b.length) { shared++; s.view.set(b); } else { if (s.view) shared++; s.view = new Uint8Array(s.back, 64, b.length); s.view.set(b); }
      return s.view;
    };
    const objs = {}; const obj = (name, x) => { if (objs[name]) shared++; return (objs[name] = morph(objs[name], x)); };
    const given = []; const keep = (v, o) => { for (const x of v instanceof Uint8Array ? [v] : [v.ciphertext, v.key]) if (o.fresh < 3) x.fill(0xee); else given.push([x, x.slice()]); return v; };
    const files = {}; const file = (name, x) => Object.assign((files[name] ||= {}), x);
    for (const [at, o] of c.steps.entries()) {
      const w = W[o.w], inp = worldInput(w, o.vals, [3], [0]), msg = stream(o.s, c.len), what = `call ${at} (${o.kind})`;
      const alone = /decrypt|read|decap/.test(o.kind) ? await z.encrypt({ r1csBuffer: w.r1cs.slice(), symContent: w.sym }, inp.pub, msg.slice(), { includePublicInput: o.kind === "read" || o.embed }) : null;
      const ef = () => file("e", { r1csBuffer: slot("r1cs", w.r1cs), symContent: w.sym }), df = () => file("d", { r1csBuffer: slot("r1cs", w.r1cs), wasmBuffer: slot("wasm", w.wasm) });
      const want = vmEval(w.circ, splitBySize(inp.values, w.inputs)), key = stream(o.s + 1, 32);
      switch (o.kind) {
        case "encrypt": { const v = await z.encrypt(ef(), obj("in", inp.pub), slot("msg", msg), obj("opt", { includePublicInput: o.embed })); const p = splitContainer(v.ciphertext); ensure((p.flag === 1) === o.embed, `${what}: flag`); ensure(sameBytes(gcmOpen(v.key, p.enc), msg), `${what}: does not open to its message`); ensure(show(publics(p.wct)) === show(inp.values.slice(0, w.nPub)), `${what}: bound to other inputs`); if (o.embed) ensure(show(JSON.parse(p.pub.toString())) === show(asJson(inp.pub)), `${what}: embedded inputs`); ensure(sameBytes(native.encaps.at(-1).r1cs, w.r1cs), `${what}: made for another circuit`); keep(v, o); break; }
        case "encap": { const v = await z.encap(ef(), obj("in", inp.pub)); ensure(show(publics(v.ciphertext)) === show(inp.values.slice(0, w.nPub)), `${what}: bound to other inputs`); ensure(sameBytes(native.encaps.at(-1).r1cs, w.r1cs), `${what}: made for another circuit`); keep(v, o); break; }
        case "decrypt": { const v = await z.decrypt(df(), slot("box", alone.ciphertext), obj("in", inp.full)); ensure(sameBytes(v, msg), `${what}: another message`); keep(v, o); break; }
        case "decap": { const v = await z.decap(df(), slot("box", splitContainer(alone.ciphertext).wct), obj("in", inp.full)); ensure(sameBytes(v, alone.key), `${what}: another key`); keep(v, o); break; }
        case "read": { const v = z.getPublicInput(slot("box", alone.ciphertext)); ensure(show(v) === show(asJson(inp.pub)), () => `${what}: ${show(v)}`); break; }
        case "witness": ensure(show(await wit.calculateWitnessArray(slot("wasm", w.wasm), obj("in", inp.full))) === show(want), `${what}: another witness`); break;
        case "wtns": ensure(show(readWtns(await wit.calculateWitness(slot("wasm", w.wasm), obj("in", inp.full))).values) === show(want), `${what}: another witness`); break;
        case "seal": { const v = await gcm.aesGcmEncrypt(slot("key", key), slot("msg", msg)); ensure(sameBytes(gcmOpen(key, v), msg), `${what}: does not open to its message`); keep(v, o); break; }
        case "open": { const v = await gcm.aesGcmDecrypt(slot("key", key), slot("box", gcmSeal(key, stream(o.s + 2, 12), msg))); ensure(sameBytes(v, msg), `${what}: another message`); keep(v, o); break; }
        default: { const b = gcmSeal(key, stream(o.s + 2, 12), msg); b[o.fresh % b.length] ^= 1 + (o.s & 126); ensure((await attempt(() => gcm.aesGcmDecrypt(slot("key", key), slot("box", b)))).error, `${what}: altered data was opened`); }
      }
    }
    given.forEach(([x, y], i) => ensure(sameBytes(x, y), `result ${i} was changed by a later call`));
    return { nontrivial: shared > 0, labels: c.steps.map((o) => o.kind) };
  });
}
/** Calculations started on one calculator before the earlier ones have been awaited. */
async function sharedCalculator(ctx) {
  const build = loadScript(ctx.src, "witness_calculator.script.cjs");
  await ctx.run("one-calculator", ctx.n(4000, 50000), fc.record({ s: seqArb(fc.option(badArb, { nil: null, freq: 3 }), 6), at: fc.array(nat(3), { minLength: 1, maxLength: 6 }), script: fc.boolean() }), async (c) => {
    const calls = c.s.calls.filter((x) => /^(values|bin|wtns)$/.test(x.method)), circ = withAsserts(circuitOf(c.script && c.s.opt !== true ? { ...c.s.circuit, checks: [] } : c.s.circuit), calls), wasm = vmWasm(circ);
    const wc = await load(ctx.src, "witness_calculator.js"), calc = await (c.script ? build.default || build : wc.default)(wasm, ...(c.s.opt === null ? [] : [{ sanityCheck: c.s.opt }]));
    const want = calls.map((call) => expectation(circ, call, c.s.opt === true || call.sanity === true));
    const r = await Promise.all(calls.map(async (call, i) => {
      for (let k = c.at[i % c.at.length]; k > 0; k--) await (k % 2 ? null : new Promise((q) => setImmediate(q)));
      return attempt(() => invoke(call.method, calc, null, wasm, want[i].input, c.script ? null : call.sanity));
    }));
    r.forEach((x, i) => { const e = want[i]; if (e.want === null) ensure(x.error, () => `${e.fail || "violated assertion"}: a witness was returned while other calculations were under way`); else { ensure(!x.error, () => `a correct input failed while other calculations were under way: ${x.error?.stack || x.error}`); judge(circ, calls[i].method, x.value, e.want); } });
    return { nontrivial: calls.length > 1, labels: [r.some((x) => x.error) && r.some((x) => !x.error) && "some fail", c.script && "script"] };
  });
}
const splitBySize = (vals, inputs) => { let i = 0; return inputs.map((s) => vals.slice(i, (i += s.size))); };

// ------------------------------------------------------------------ P34 secrets stay off the console
const squash = (s) => s.replace(/"\d+":/g, "").replace(/\s+/g, "");
function needles(secret) {
  const out = [], b = Buffer.from(secret); if (b.length < 12) return out;
  for (const at of [0, (b.length >> 1) - 4, b.length - 8]) { const w = b.subarray(at, at + 8); out.push(["hexadecimal", w.toString("hex")], ["a list of numbers", [...w].join(",")], ["a list of numbers", [...w].map((x) => "0x" + x.toString(16).padStart(2, "0")).join(",")], ["raw", squash(w.toString("latin1"))], ["raw", squash(w.toString("utf8"))]); }
  for (const off of [0, 1, 2]) for (const f of ["base64", "base64url"]) { const t = b.subarray(off, off + 3 * Math.floor((b.length - off) / 3)).toString(f); out.push(["base64", t.slice(0, 12)], ["base64", t.slice(-12)]); }
  return out.filter(([, n]) => n.length >= 6 && !n.includes("\ufffd"));
}
async function captured(f) {
  const lines = [], text = [], saved = {}, so = process.stdout.write, se = process.stderr.write;
  const arg = (x) => (typeof x === "string" ? x : x instanceof Error ? `${x.stack} ${x.message}` : inspect(x, { depth: 8, maxArrayLength: null, maxStringLength: null }) + " " + (typeof x === "object" ? show0(x) : ""));
  for (const k of Object.keys(console)) if (typeof console[k] === "function") { saved[k] = console[k]; console[k] = (...a) => { text.push(a.map(arg).join(" ")); lines.push(inspectFormat(...a)); }; }
  const w = (x) => { lines.push(String(x).replace(/\n$/, "")); text.push(typeof x === "string" ? x : Buffer.from(x).toString("latin1")); return true; };
  process.stdout.write = w; process.stderr.write = w;
  let r; try { r = await attempt(f); } finally { Object.assign(console, saved); process.stdout.write = so; process.stderr.write = se; }
  for (let e = r.error, n = 0; e && n < 4; e = e.cause, n++) text.push(e instanceof Error ? `${e.message} ${show0({ ...e })}` : String(e));
  return { ...r, lines, text: text.join("\n") };
}
const show0 = (x) => { try { return JSON.stringify(x, (k, v) => (typeof v === "bigint" ? String(v) : v)) ?? ""; } catch { return ""; } };
export async function p34(ctx) {
  const z = await load(ctx.src, "index.js");
  ctx.rule("JS: encryption, encapsulation, their opposites and reading the public inputs, succeeding and failing (other public input, altered or cut container, other circuit), with random keys, messages and private inputs; the console and the error messages are searched for each of them in raw, hexadecimal, decimal, list and base64 form; non-trivial: at least one private input and a message of 12 bytes or more");
  const fault = fc.oneof(nat(1 << 20).map((n) => ["flip", n]), nat(1 << 20).map((n) => ["cut", n]), nat(1000).map((n) => ["public", n]), nat(1000).map((n) => ["private", n]), fc.constant(["circuit"]), fc.constant(["none"]));
  await ctx.run("js-console", ctx.n(3000, 40000), fc.record({ world: worldArb, seed: seedArb, msg: bytesArb(4000), form: nat(2), embed: fc.boolean(), fault }), async (c) => {
    resetNative();
    const w = world({ ...c.world, nPubSel: 0 }), rnd = stream(c.seed, 32 * (w.total + 1)), vals = Array.from({ length: w.total }, (_, i) => mod(fromLe(rnd.subarray(32 * i, 32 * i + 32))));
    const form = (v) => (c.form === 0 ? String(v) : c.form === 1 ? "0x" + v.toString(16) : String(v));
    const obj = (list, v) => { let i = 0; return Object.fromEntries(w.inputs.map((s) => [s.name, arrange(Array.from({ length: s.size }, () => form(v[i++])), s.dims, [3])]).filter(([n]) => list.some((s) => s.name === n))); };
    const full = obj(w.inputs, vals), pub = obj(w.pubInputs, vals), mask = stream(c.seed ^ 0x5a5a, bytes(c.msg).length), msg = bytes(c.msg).map((x, i) => x ^ mask[i]);
    const files = { r1csBuffer: w.r1cs, symContent: w.sym }, both = { r1csBuffer: w.r1cs, wasmBuffer: w.wasm };
    const runs = []; const go = async (name, f) => { const r = await captured(f); runs.push([name, r]); return r; };
    const e = await go("encrypt", () => z.encrypt(files, pub, msg, { includePublicInput: c.embed })); ensure(!e.error, () => `encryption failed: ${e.error}`);
    const k = await go("encap", () => z.encap(files, pub)); ensure(!k.error, () => `encapsulation failed: ${k.error}`);
    const d = await go("decrypt", () => z.decrypt(both, e.value.ciphertext, full)); ensure(!d.error && sameBytes(d.value, msg), () => `decryption failed: ${d.error}`);
    const q = await go("decap", () => z.decap(both, k.value.ciphertext, full)); ensure(!q.error && sameBytes(q.value, k.value.key), () => `decapsulation failed: ${q.error}`);
    if (c.embed) await go("getPublicInput", async () => z.getPublicInput(e.value.ciphertext));
    const [f, x] = c.fault; let b = e.value.ciphertext.slice(), v = vals.slice(), cf = both;
    if (f === "flip") b[b.length - 1 - (x % (msg.length + 28))] ^= 1; else if (f === "cut") b = b.slice(0, x % b.length); else if (f === "public") v[x % w.nPub] = mod(v[x % w.nPub] + 1n);
    else if (f === "private" && w.total > w.nPub) { const i = w.nPub + (x % (w.total - w.nPub)); v[i] = mod(v[i] + 1n); } else if (f === "circuit") { const r = w.r1cs.slice(); r[r.length - 1] ^= 1; cf = { ...both, r1csBuffer: r }; }
    await go(`decrypt (${f})`, () => z.decrypt(cf, b, obj(w.inputs, v)));
    if (f === "public" || f === "private" || f === "circuit") await go(`decap (${f})`, () => z.decap(cf, k.value.ciphertext, obj(w.inputs, v)));
    const secrets = [["a key", e.value.key], ["a key", k.value.key], ["the message", msg]];
    const priv = [...vals.slice(w.nPub), ...v.slice(w.nPub)];
    for (const [name, r] of runs) {
      if (!r.text) continue;
      const t = squash(r.text), low = t.toLowerCase();
      for (const [what, s] of secrets) for (const [how, n] of needles(s)) ensure(!(how === "base64" || how === "raw" ? t : low).includes(n), () => `${name}: ${what} appears on the console or in the error (${how}): ${r.text.slice(0, 300)}`);
      for (const s of priv) for (const n of [String(s), s.toString(16), [...stream0(s)].join(",")]) ensure(n.length < 16 || !low.includes(n), () => `${name}: a private input appears on the console or in the error: ${r.text.slice(0, 300)}`);
    }
    return { nontrivial: w.total > w.nPub && msg.length >= 12, labels: [f, runs.some(([, r]) => r.error) && "a call failed", runs.some(([, r]) => r.text) && "printed something"] };
  });
  // other private inputs or another message of the same length must not change what is printed or reported
  ctx.rule("JS: pairs of runs with other private inputs and another message of the same length and the same fault print and report the same; non-trivial: at least one private input");
  await ctx.run("js-console-difference", ctx.n(1500, 20000), fc.record({ world: worldArb, seed: seedArb, len: fc.integer({ min: 1, max: 60 }), text: fc.boolean(), small: fc.boolean(), embed: fc.boolean(), fault }), async (c) => {
    const w = world({ ...c.world, nPubSel: 0 }), both = { r1csBuffer: w.r1cs, wasmBuffer: w.wasm }, files = { r1csBuffer: w.r1cs, symContent: w.sym }, [f, x] = c.fault;
    const shown = async (k) => {
      resetNative();
      const rnd = (i) => fromLe(stream(`${c.seed} ${i < w.nPub ? 0 : k} ${i}`, c.small ? 2 : 31)), vals = Array.from({ length: w.total }, (_, i) => rnd(i)), v = vals.slice();
      const msg = stream(`${c.seed} ${k}`, c.len).map((b) => (c.text ? 97 + (b % 26) : b));
      const obj = (list, v) => { let i = 0; return Object.fromEntries(w.inputs.map((s) => [s.name, arrange(Array.from({ length: s.size }, () => String(v[i++])), s.dims, [3])]).filter(([n]) => list.some((s) => s.name === n))); };
      const out = [], go = async (name, g) => { const r = await captured(g); out.push([name, `${r.text}\n${r.lines.join("\n")}\n${r.error ? "failed" : "fine"}`]); return r; };
      const e = await go("encrypt", () => z.encrypt(files, obj(w.pubInputs, vals), msg, { includePublicInput: c.embed })); ensure(!e.error, () => `encryption failed: ${e.error}`);
      const d = await go("decrypt", () => z.decrypt(both, e.value.ciphertext, obj(w.inputs, vals))); ensure(!d.error && sameBytes(d.value, msg), () => `decryption failed: ${d.error}`);
      const b = e.value.ciphertext.slice(); let cf = both, cut = b;
      if (f === "flip") b[b.length - 1 - (x % (msg.length + 28))] ^= 1; else if (f === "cut") cut = b.slice(0, x % b.length); else if (f === "public") v[x % w.nPub] += 1n;
      else if (f === "private" && w.total > w.nPub) v[w.nPub + (x % (w.total - w.nPub))] += 1n; else if (f === "circuit") { const r = w.r1cs.slice(); r[r.length - 1] ^= 1; cf = { ...both, r1csBuffer: r }; }
      await go(`decrypt (${f})`, () => z.decrypt(cf, cut, obj(w.inputs, v)));
      const p = splitContainer(e.value.ciphertext); await go(`decap (${f})`, () => z.decap(cf, p.wct, obj(w.inputs, v)));
      if (c.embed) await go("getPublicInput", async () => z.getPublicInput(cut));
      return out;
    };
    const a = await shown(1), b = await shown(2);
    if (show(a) !== show(b)) { const a2 = await shown(1), b2 = await shown(2); a.forEach((r, i) => ensure(r[1] === b[i][1] || r[1] !== a2[i][1] || b[i][1] !== b2[i][1], () => `${r[0]}: what is printed or reported depends on the message or the private inputs: ${r[1].slice(0, 200)} / ${b[i][1].slice(0, 200)}`)); }
    return { nontrivial: w.total > w.nPub, labels: [f] };
  });
  // the calculators themselves: right inputs, every kind of wrong ones, failed assertions
  const script = loadScript(ctx.src, "witness_calculator.script.cjs"), mk = script.default || script;
  const wrong = fc.tuple(fc.constantFrom("none", "assertion", "assertion", "missing", "long", "short", "unknown", "empty"), nat(1 << 20));
  ctx.rule("JS calculators: private inputs of 30 bytes and more (written as numbers, hexadecimal, negative or unreduced) x right calls, failed assertions, missing, surplus and unknown inputs, through both calculators and decapsulation; same search; non-trivial: a call fails");
  await ctx.run("js-witness-console", ctx.n(3000, 40000), fc.record({ ins: worldModel.ins, seed: seedArb, bad: wrong, asserts: fc.array(fc.tuple(nat(1000), nat(1000), nat(2)), { minLength: 1, maxLength: 3 }), form: nat(4), how: nat(6), sanity: fc.boolean() }), async (c) => {
    const inputs = c.ins.map(([name, dims]) => ({ name, dims, size: dims.reduce((a, b) => a * b, 1) })), total = inputs.reduce((s, i) => s + i.size, 0);
    const texts = [], [kind, x] = c.bad; let r;
    for (const other of [0, 0, 1, 1]) {
    const rnd = stream(other ? `${c.seed} other` : c.seed, 33 * total), vals = Array.from({ length: total }, (_, i) => fromLe(rnd.subarray(33 * i, 33 * i + (c.form === 4 ? 33 : 31))) + (1n << 240n));
    const ops = [];
    // assertions that hold (a signal equals itself) or, when asked for, fail (two signals that differ)
    for (const [a, b, under] of c.asserts) ops.push({ op: "eq", a: a % (total + 1), b: a % (total + 1), under });
    if (kind === "assertion") ops[x % ops.length] = { ...ops[x % ops.length], a: 0, b: 1 + (x % total) };
    const circ = { version: 2, n32: 8, prime: P, inputs, ops, nIn: total, nSig: total + 1, wit: Array.from({ length: total + 1 }, (_, i) => i) }, wasm = vmWasm(circ);
    const form = (v) => [String(v), "0x" + v.toString(16), v, String(-v), v + P][c.form];
    let i = 0; const obj = Object.fromEntries(inputs.map((s) => [s.name, arrange(Array.from({ length: s.size }, () => form(vals[i++])), s.dims, [3])]));
    const n = inputs[x % inputs.length].name, extra = fromLe(stream(other ? `${c.seed} extra` : c.seed ^ 77, 31)) + (1n << 240n), flat = [obj[n]].flat(Infinity);
    if (kind === "missing") delete obj[n]; else if (kind === "long") obj[n] = [...flat, form(extra)]; else if (kind === "short") obj[n] = flat.slice(1); else if (kind === "empty") obj[n] = []; else if (kind === "unknown") obj["zz_" + n] = form(extra);
    const wc = await load(ctx.src, "witness_calculator.js"), wit = await load(ctx.src, "witness.js");
    const o = c.sanity ? [{ sanityCheck: true }] : [], m = ["calculateWitness", "calculateBinWitness", "calculateWTNSBin"][c.how % 3];
    r = await captured(async () => (c.how < 3 ? (await wc.default(wasm, ...o))[m](obj) : c.how < 5 ? (await mk(wasm, ...o))[m](obj) : (resetNative(), z.decap({ r1csBuffer: new Uint8Array(40), wasmBuffer: wasm }, new Uint8Array(40), obj))));
    if (c.how < 5) ensure(!r.error === (kind === "none"), () => `${kind}: ${r.error ? "failed: " + r.error : "a witness was returned"}`);
    const low = squash(r.text).toLowerCase();
    for (const v of [...vals, extra]) for (const u of [v, mod(v), mod(-v), v + P]) for (const q of [String(u), u.toString(16), [...stream0(u)].join(",")]) ensure(!low.includes(q), () => `${kind}: a private input appears on the console or in the error: ${r.text.slice(0, 300)}`);
    texts.push(r.text);
    }
    ensure(texts[0] !== texts[1] || texts[2] !== texts[3] || texts[0] === texts[2], () => `${kind}: what is printed or reported depends on the private inputs: ${texts[0].slice(0, 200)} / ${texts[2].slice(0, 200)}`);
    return { nontrivial: !!r.error, labels: [kind, c.how < 3 ? "typed" : c.how < 5 ? "script" : "decap"] };
  });
}
const stream0 = (v) => { const b = new Uint8Array(32); for (let i = 0; i < 32; i++) { b[i] = Number(v & 255n); v >>= 8n; } return b; };

// ------------------------------------------------------------------ P38 size is no obstacle
const sizeArb = (max) => { const top = Math.floor(Math.log2(max)) + 1; return fc.oneof({ weight: 3, arbitrary: fc.tuple(fc.integer({ min: Math.max(top - 5, 3), max: top }), nat(4)).map(([b, d]) => Math.min(max, 2 ** b + d - 2)) }, { weight: 1, arbitrary: fc.tuple(fc.integer({ min: 3, max: 7 }), nat(2)).map(([b, d]) => Math.min(max, 10 ** b + d - 1)) }, { weight: 3, arbitrary: fc.integer({ min: max >> 4, max }) }); };
export async function p38(ctx) {
  const z = await load(ctx.src, "index.js"), aes = await load(ctx.src, "crypto.js"), big = ctx.tier === "thorough" ? 4 : 1;
  ctx.rule("JS: messages, input objects, symbol files and circuits thousands of times larger than usual, sizes around powers of two and ten; non-trivial: always");
  const w0 = world({ ins: [["a", []], ["b", [2]]], nPubSel: 0, muls: [[1, 2]], lines: [0] }), files0 = { r1csBuffer: w0.r1cs, symContent: w0.sym }, both0 = { r1csBuffer: w0.r1cs, wasmBuffer: w0.wasm };
  const fill = (s, n) => { const c = createCipheriv("aes-128-ctr", Buffer.from(stream(s, 16)), Buffer.alloc(16)); return new Uint8Array(c.update(Buffer.alloc(n))); };
  const message = async (c) => {
    resetNative();
    const msg = fill(c.s, c.n), pub = { a: "7" }, e = await attempt(() => z.encrypt(files0, pub, view(msg, c.v), { includePublicInput: c.embed })); ensure(!e.error, () => `encryption of ${c.n} bytes failed: ${e.error}`);
    const p = splitContainer(e.value.ciphertext); ensure(sameBytes(gcmOpen(e.value.key, p.enc), msg), `${c.n} bytes were not encrypted exactly`);
    const b = await attempt(() => z.decrypt(both0, view(e.value.ciphertext, c.v), { a: 7, b: [1, 2] })); ensure(!b.error && sameBytes(b.value, msg), () => `a message of ${c.n} bytes does not come back: ${b.error || "changed"}`);
    const bad = e.value.ciphertext.slice(), at = bad.length - 1 - (c.s % p.enc.length); bad[at] ^= 4; ensure((await attempt(() => z.decrypt(both0, bad, { a: 7, b: [1, 2] }))).error, `a change at byte ${at} of ${bad.length} went unnoticed`);
    return { nontrivial: true, labels: [c.embed ? "embedded" : "not embedded"] };
  };
  await ctx.run("big-message", ctx.n(48, 300), fc.record({ n: sizeArb(8000000 * big), s: seedArb, embed: fc.boolean(), v: nat(3) }), message);
  // beyond 2^24 bytes
  const huge = fc.oneof({ weight: 3, arbitrary: fc.tuple(fc.integer({ min: 24, max: 25 + (big > 1) }), nat(4)).map(([b, d]) => 2 ** b + d - 2) }, { weight: 1, arbitrary: fc.integer({ min: 1 << 24, max: 1 << (25 + (big > 1)) }) });
  await ctx.run("huge-message", ctx.n(8, 32), fc.record({ n: huge, s: seedArb, embed: fc.boolean(), v: nat(3) }), message);
  await ctx.run("big-inputs", ctx.n(40, 250), fc.record({ n: sizeArb(150000 * big), s: seedArb, shape: nat(4) }), async (c) => {
    resetNative();
    const r = stream(c.s, 4096), val = (i) => BigInt(r[i % 4096]) * 1000003n + BigInt(i), sh = c.shape, n = sh === 4 ? 1 : c.n;
    const list = Array.from({ length: n }, (_, i) => String(val(i))), wide = 1 + (c.s % 700);
    // flat, rows, single names, deep objects; the last: one number of n digits
    const inp = sh === 0 ? { x: list } : sh === 1 ? { x: Array.from({ length: Math.ceil(n / wide) }, (_, k) => list.slice(k * wide, (k + 1) * wide)) } : sh === 2 ? Object.fromEntries(list.map((v, i) => ["k" + i, v])) : sh === 3 ? { o: { p: { q: list } } } : { x: "1" + "0".repeat(c.n >> 3) };
    const name = (i) => (sh === 0 ? `x[${i}]` : sh === 1 ? `x[${Math.floor(i / wide)}][${i % wide}]` : sh === 2 ? "k" + i : sh === 3 ? `o.p.q[${i}]` : "x");
    const want = sh === 4 ? [mod(10n ** BigInt(c.n >> 3), P)] : list.map((_, i) => val(i));
    const sym = want.map((_, i) => `${i + 1},${i + 1},0,main.${name(i)}`).join("\n");
    const files = { r1csBuffer: r1cs({ nWires: n + 2, nOut: 0, nIn: n, nPrv: 1, constraints: [] }), symContent: sym };
    const e = await attempt(() => z.encrypt(files, inp, new Uint8Array(5))); ensure(!e.error, () => `${n} public inputs: encryption failed: ${e.error}`);
    const got = publics(splitContainer(e.value.ciphertext).wct); ensure(got.length === n, () => `${got.length} of ${n} public inputs were bound`);
    for (let i = 0; i < n; i++) if (got[i] !== want[i]) ensure(false, `public input ${i} of ${n} is bound as ${got[i]} instead of ${want[i]}`);
    const g = await attempt(async () => z.getPublicInput(e.value.ciphertext)); ensure(!g.error && JSON.stringify(g.value) === JSON.stringify(inp), () => `${n} public inputs: reading them back ${g.error ? "failed: " + g.error : "gave others"}`);
    return { nontrivial: true, labels: [["flat", "rows", "many names", "nested objects", "a very long number"][sh]] };
  });
  await ctx.run("big-sym", ctx.n(40, 250), fc.record({ n: sizeArb(150000 * big), s: seedArb, long: nat(3), crlf: fc.boolean(), max: fc.option(nat(1 << 30), { nil: null }) }), async (c) => {
    const n = c.long === 3 ? Math.ceil(c.n / 100) : c.n, r = stream(c.s, 4096);
    const name = (i) => (c.long === 0 ? `main.a[${Math.floor(i / 1000)}][${i % 1000}]` : c.long === 1 ? `main.c${i % 777}.d[${i}]` : c.long === 2 ? "main.x" + i : `main.${"sub.".repeat(60 + (i % 9))}${i}`), wire = (i) => (r[i % 4093] % 5 === 0 ? -1 : (i * 7 + r[(i * 3) % 4096]) % (2 * n));
    let o = ""; const want = new Map(); for (let i = 0; i < n; i++) { o += `${i},${wire(i)},${i % 99},${name(i)}${c.crlf ? "\r\n" : "\n"}`; if (wire(i) >= 0) want.set(name(i), wire(i)); }
    eqMap(z.parseSymFile(o), want, "parseSymFile");
    const max = c.max === null ? undefined : c.max % (2 * n), sel = new Map([...want].filter(([, w]) => max === undefined || w <= max).map(([k, w]) => [k.slice(5), w]));
    eqMap(z.getInputSignals(want, max), sel, "getInputSignals");
    return { nontrivial: true };
  });
  // programs as large as the interpreter takes, arguments nested and written as large as they come
  await ctx.run("big-witness", ctx.n(48, 300), fc.record({ n: sizeArb(400000 * big), wits: sizeArb(250000), s: seedArb, nest: nat(2), digits: fc.boolean(), prime: nat(3), method }), async (c) => {
    const prime = PRIMES[[0, 2, 3, 4][c.prime]], n32 = [8, 8, 2, 1][c.prime], n = c.n;
    const circ = { version: 2, n32, prime, inputs: [{ name: "in", dims: [n], size: n }], ops: [], nIn: n, nSig: n + 1, wit: Array.from({ length: c.wits }, (_, i) => (i % 64 === 5 ? n - (i >> 6) % (n + 1) : (i * 13 + c.s) % (n + 1))) };
    const r = stream(c.s, 4096), vals = Array.from({ length: n }, (_, i) => (c.digits && i % 97 === 0 ? 10n ** BigInt(200 + r[i % 4096]) + BigInt(i) : BigInt(i) * 65537n - BigInt(r[i % 4096]) * 99999989n));
    let a = vals.map(String); if (c.nest === 1) { const w = 1 + (c.s % 50), b = []; for (let i = 0; i < n; i += w) b.push(a.slice(i, i + w)); a = b; } else if (c.nest === 2) for (let k = 0; k < 500; k++) a = [a];
    const wasm = vmWasm(circ), wc = await load(ctx.src, "witness_calculator.js"), wit = await load(ctx.src, "witness.js"), calc = await wc.default(wasm);
    const x = await attempt(() => invoke(c.method, calc, wit, wasm, { in: a }, null)); ensure(!x.error, () => `${n} inputs, ${c.wits} wires: ${x.error}`);
    judge(circ, c.method, x.value, vmEval(circ, [vals]));
    const many = await attempt(() => calc.calculateWitness({ in: [...vals.map(String), "1"] })); ensure(many.error, `${n + 1} values were accepted for ${n}`);
    return { nontrivial: true, labels: [["flat", "rows", "500 brackets"][c.nest]] };
  });
}
