// Checks over the real native layer (zkenc-js compiled for wasm32) and the real command-line tool.
import fs from "node:fs";
import path from "node:path";
import { spawn } from "node:child_process";
import { fileURLToPath } from "node:url";
import { fc, load, ensure, show, hex, unhex, sameBytes, attempt, Violation } from "./lib.mjs";
import { P, mod, le, fromLe, wtns, readWtns, readR1cs, satisfied, r1cs, gcmSeal, gcmOpen, stream, vmWasm, vmEval } from "./ref.mjs";
import { nat, seedArb, ident, intArb, repr, bytesArb, bytes, view, permute, keysArb } from "./gen.mjs";
import { worldArb, world, arrange, splitContainer } from "./props.mjs";
import { real, memory, fresh } from "./native_real.mjs";
import * as nat_real from "./native_real.mjs";

const ZKENC = fileURLToPath(new URL("../../target/release/zkenc", import.meta.url));
function zkenc(args) {
  return new Promise((done) => {
    const p = spawn(ZKENC, args, { stdio: ["ignore", "ignore", "pipe"], env: {}, timeout: 120000, killSignal: "SIGKILL" });
    let err = ""; p.stderr.on("data", (d) => { err = (err + d).slice(-600); });
    p.on("error", (e) => { throw e; }); // the tool must exist
    p.on("close", (code, signal) => done({ code, signal, err, text: `status ${code ?? signal}: ${err}` }));
  });
}
// ---------------------------------------------------------------- worlds both tools accept
const plainInt = intArb().map((x) => ({ k: ["hexs", "zeros", "big"].includes(x.k) ? "str" : x.k, v: x.v }));
const valsArb = fc.array(plainInt, { minLength: 1, maxLength: 12 });
const rworldArb = fc.record({ w: worldArb, nOut: nat(12), scale: fc.array(fc.tuple(nat(3), fc.bigInt({ min: 1n, max: P - 1n }).map(String)), { minLength: 1, maxLength: 6 }), crlf: fc.boolean(), comp: nat(2) });
/** Adds outputs, coefficients, component aliases and removed signals to a world; the program and the circuit still agree. */
function rworld(d) {
  const w = world(d.w), f = readR1cs(w.r1cs), total = w.total, nl = d.crlf ? "\r\n" : "\n";
  const cons = f.constraints.map((c, i) => {
    const [how, k0] = d.scale[i % d.scale.length], k = how ? BigInt(k0) : 1n, sc = (l, q) => l.map(([x, v]) => [x, mod(v * q)]);
    // a*b = c with a scaled by k and c scaled alike; sometimes a term split into two
    const a = sc(c[0], k), a2 = how === 2 ? [[a[0][0], mod(a[0][1] - 7n)], [a[0][0], 7n]] : how === 3 ? [[0, 5n], ...a, [0, mod(-5n)]] : a;
    return [a2, c[1], sc(c[2], k)];
  });
  const nOut = d.nOut % (w.nPub + 1);
  let sym = w.sym.split("\n");
  for (let i = 0; i < d.comp; i++) sym.push(`${100 + i},${1 + i % total},1,main.sub_${i}.in`, `${200 + i},-1,1,main.gone_${i}`);
  sym = sym.join(nl) + nl;
  return { ...w, nOut, cons, sym, r1cs: r1cs({ nWires: f.nWires, nOut, nIn: w.nPub - nOut, nPrv: total - w.nPub, constraints: cons }), nWires: f.nWires };
}
function inputsOf(w, vals, keys, how = [3]) {
  let i = 0; const raw = w.inputs.map((s) => Array.from({ length: s.size }, () => vals[i++ % vals.length]));
  const obj = (list) => Object.fromEntries(permute(list.map((s) => [s.name, arrange(raw[w.inputs.indexOf(s)].map(repr), s.dims, how)]), keys));
  const groups = raw.map((l) => l.map((x) => BigInt(x.v)));
  return { full: obj(w.inputs), pub: obj(w.pubInputs), values: groups.flat().map((x) => mod(x)), witness: vmEval(w.circ, groups) };
}
const recordedIn = (ct, values) => { const n = Buffer.alloc(8); n.writeBigUInt64LE(BigInt(values.length)); return Buffer.from(ct).includes(Buffer.concat([n, ...values.map((v) => Buffer.from(le(v, 32)))])); };
const isBytes = (x) => x instanceof Uint8Array;

// ---------------------------------------------------------------- P26 interchange
export async function p26(ctx) {
  const z = await load(ctx.src, "index.js");
  ctx.rule("circuits (outputs, coefficients, array inputs, aliases) x inputs in every representation both tools document x messages, sealed by one tool and opened by the other in both directions, over the real native layer and the real binary; non-trivial: at least two public signals and a private one");
  const dir = fs.mkdtempSync(path.join(ctx.scratch, "p26-")), at = (n) => path.join(dir, n);
  const put = (n, b) => { fs.writeFileSync(at(n), b); return at(n); };
  const get = (n) => new Uint8Array(fs.readFileSync(at(n)));
  const cross = async (c) => {
    for (const f of fs.readdirSync(dir)) fs.unlinkSync(at(f));
    const w = rworld(c.w), inp = inputsOf(w, c.vals, c.keys), msg = bytes(c.msg), want = inp.values.slice(0, w.nPub);
    const given = c.full ? inp.full : inp.pub;
    const R = put("c.r1cs", w.r1cs), S = put("c.sym", w.sym), I = put("in.json", c.pretty ? JSON.stringify(given, null, 2) : JSON.stringify(given)), M = put("msg", msg), W = put("w.wtns", wtns(inp.witness));
    const ef = { r1csBuffer: w.r1cs, symContent: w.sym }, df = { r1csBuffer: w.r1cs, wasmBuffer: w.wasm };
    // tool -> library
    const e = await zkenc(["encrypt", "-c", R, "-s", S, "-i", I, "-m", M, "-o", at("ct1"), ...(c.embed ? [] : ["--no-public-input"])]);
    ensure(e.code === 0, () => `zkenc encrypt failed: ${e.text}`);
    const ct1 = get("ct1"), d1 = await attempt(() => z.decrypt(df, ct1, inp.full));
    ensure(!d1.error, () => `the library cannot decrypt the tool's message: ${d1.error}`);
    ensure(sameBytes(d1.value, msg), "the library decrypts the tool's message to something else");
    const g1 = await attempt(async () => z.getPublicInput(ct1));
    if (c.embed) { ensure(!g1.error, () => `embedded inputs of the tool cannot be read: ${g1.error}`); ensure(show(g1.value) === show(given), () => `embedded inputs ${show(given)} of the tool read as ${show(g1.value)}`); }
    else ensure(g1.error, "public inputs read although none are embedded");
    ensure(recordedIn(splitContainer(ct1).wct, want), () => `the tool recorded other public inputs than ${show(want)}`);
    // library -> tool
    const opt = { includePublicInput: c.embed }, e2 = await attempt(() => z.encrypt(ef, given, msg, opt));
    ensure(!e2.error, () => `the library's encrypt failed: ${e2.error?.stack || e2.error}`);
    put("ct2", e2.value.ciphertext);
    const d2 = await zkenc(["decrypt", "-c", R, "-w", W, "-i", at("ct2"), "-o", at("m2")]);
    ensure(d2.code === 0, () => `zkenc cannot decrypt the library's message: ${d2.text}`);
    ensure(sameBytes(get("m2"), msg), "zkenc decrypts the library's message to something else");
    ensure(recordedIn(splitContainer(e2.value.ciphertext).wct, want), () => `the library recorded other public inputs than ${show(want)}`);
    // the key alone, both ways
    const k = await zkenc(["encap", "-c", R, "-s", S, "-i", I, "--ciphertext", at("kct1"), "-k", at("key1")]);
    ensure(k.code === 0, () => `zkenc encap failed: ${k.text}`);
    const kd = await attempt(() => z.decap(df, get("kct1"), inp.full));
    ensure(!kd.error && sameBytes(kd.value, get("key1")), () => `the library's decap of the tool's ciphertext: ${kd.error ?? "another key"}`);
    const k2 = await z.encap(ef, given); put("kct2", k2.ciphertext);
    const kd2 = await zkenc(["decap", "-c", R, "-w", W, "--ciphertext", at("kct2"), "-k", at("key2")]);
    ensure(kd2.code === 0 && sameBytes(get("key2"), k2.key), () => `zkenc decap of the library's ciphertext: ${kd2.code ? kd2.text : "another key"}`);
    // keys open the encrypted message
    ensure(sameBytes(gcmOpen(e2.value.key, splitContainer(e2.value.ciphertext).enc), msg), "the returned key does not open the message");
    // the witness file of the library is a witness for the tool
    const wit = await load(ctx.src, "witness.js"), file = await wit.calculateWitness(w.wasm, inp.full); put("w3.wtns", file);
    const d3 = await zkenc(["decap", "-c", R, "-w", at("w3.wtns"), "--ciphertext", at("kct1"), "-k", at("key3")]);
    ensure(d3.code === 0 && sameBytes(get("key3"), get("key1")), () => `zkenc with the library's witness file: ${d3.code ? d3.text : "another key"}`);
    return { nontrivial: w.nPub >= 2 && w.nPub < w.total, labels: [w.nOut && "outputs", c.embed ? "embedded" : "not embedded", c.full && "full inputs given", inp.values.some((v) => v > P - 1000n) && "additive inverse", w.inputs.some((s) => s.dims.length > 1) && "two dimensions", msg.length === 0 && "empty message"] };
  };
  const caseArb = fc.record({ w: rworldArb, vals: valsArb, keys: keysArb, msg: bytesArb(3000), embed: fc.boolean(), full: fc.boolean(), pretty: fc.boolean() });
  await ctx.run("cross-tool", ctx.n(600, 8000), caseArb, cross);
  // both must refuse, or both accept and record the same
  const odd = fc.oneof(
    { weight: 3, arbitrary: nat(100).map((i) => ["gone", i]) }, { weight: 3, arbitrary: nat(100).map((i) => ["short", i]) }, { weight: 2, arbitrary: nat(100).map((i) => ["long", i]) }, { weight: 2, arbitrary: nat(100).map((i) => ["unknown", i]) },
    { weight: 2, arbitrary: nat(100).map((i) => ["symless", i]) }, { weight: 2, arbitrary: fc.tuple(nat(100), fc.constantFrom("", " ", "x1", "1.5", "--3", "0b2", "1 1")).map(([i, s]) => ["text", i, s]) });
  await ctx.run("same-judgement", ctx.n(500, 6000), fc.record({ w: rworldArb, vals: valsArb, keys: keysArb, odd }), async (c) => {
    for (const f of fs.readdirSync(dir)) fs.unlinkSync(at(f));
    const w = rworld(c.w), inp = inputsOf(w, c.vals, c.keys), given = structuredClone(inp.pub); let sym = w.sym, must = true;
    const [k, x, y] = c.odd, name = w.pubInputs[x % w.pubInputs.length].name, s = w.pubInputs[x % w.pubInputs.length];
    const flatName = w.names[x % w.nPub];
    if (k === "gone") delete given[name];
    else if (k === "short") { if (!s.dims.length) return { nontrivial: false }; given[name] = given[name].slice(0, -1); }
    else if (k === "long") { if (!s.dims.length) return { nontrivial: false }; given[name] = [...given[name], given[name][0]]; must = false; }
    else if (k === "unknown") { if (w.inputs.some((q) => q.name === "zz_unknown")) return {}; given.zz_unknown = [1, 2]; must = false; }
    else if (k === "symless") sym = sym.split(/\r?\n/).filter((l) => l.split(",")[3] !== "main." + flatName).join("\n");
    else if (k === "text") { if (s.dims.length) return { nontrivial: false }; given[name] = y; }
    const R = put("c.r1cs", w.r1cs), S = put("c.sym", sym), I = put("in.json", JSON.stringify(given));
    const a = await zkenc(["encap", "-c", R, "-s", S, "-i", I, "--ciphertext", at("ct"), "-k", at("key")]);
    const b = await attempt(() => z.encap({ r1csBuffer: w.r1cs, symContent: sym }, given));
    if (k === "symless" && w.cons && fs.readFileSync(S, "utf8").split("\n").some((l) => l.split(",")[1] === String(1 + (x % w.nPub)) && l.split(",")[3]?.startsWith("main.sub_"))) must = true;
    if (must === true) { ensure(a.code !== 0, "the tool made a ciphertext although a public signal has no usable value"); ensure(b.error, "the library made a ciphertext although a public signal has no usable value"); }
    if (must === false) {
      ensure(a.code === 0, () => `the tool failed: ${a.text}`); ensure(!b.error, () => `the library failed: ${b.error}`);
      const want = inp.values.slice(0, w.nPub); ensure(recordedIn(get("ct"), want) && recordedIn(b.value.ciphertext, want), () => `recorded public inputs differ from ${show(want)}`);
    }
    return { nontrivial: true, labels: [k] };
  });
  fs.rmSync(dir, { recursive: true, force: true });
}

// ---------------------------------------------------------------- P01 round trip through the library and its real native layer
export async function p01(ctx) {
  const z = await load(ctx.src, "index.js");
  ctx.rule("JS: circuits with private signals x inputs in every representation and key order x messages through encrypt/decrypt and encap/decap over the real native layer; non-trivial: non-empty message");
  await ctx.run("js-real-roundtrip", ctx.n(700, 9000), fc.record({ w: rworldArb, vals: fc.array(intArb(), { minLength: 1, maxLength: 12 }), keys: keysArb, keys2: keysArb, msg: bytesArb(60000), embed: fc.boolean(), v: nat(3) }), async (c) => {
    const w = rworld(c.w), msg = bytes(c.msg);
    const vals = c.vals.map((x) => (c.embed && x.k === "big" ? { k: "str", v: x.v } : x)); // embedded inputs are JSON
    const a = inputsOf(w, vals, c.keys), b = inputsOf(w, vals, c.keys2);
    const e = await attempt(() => z.encrypt({ r1csBuffer: view(w.r1cs, c.v), symContent: w.sym }, a.pub, view(msg, c.v), { includePublicInput: c.embed }));
    ensure(!e.error, () => `encryption failed: ${e.error?.stack || e.error}`);
    const files = { r1csBuffer: view(w.r1cs, (c.v + 2) % 4), wasmBuffer: w.wasm };
    const d = await attempt(() => z.decrypt(files, view(e.value.ciphertext, c.v), b.full));
    ensure(!d.error, () => `decryption failed: ${d.error?.stack || d.error}`);
    ensure(sameBytes(d.value, msg), "decryption returned another message");
    const k = await attempt(() => z.encap({ r1csBuffer: w.r1cs, symContent: w.sym }, b.pub)); ensure(!k.error, () => `encap failed: ${k.error}`);
    const k2 = await attempt(() => z.decap(files, view(k.value.ciphertext, (c.v + 1) % 4), a.full)); ensure(!k2.error, () => `decap failed: ${k2.error}`);
    ensure(k.value.key.length === 32 && sameBytes(k.value.key, k2.value), "decap returned another key");
    return { nontrivial: msg.length > 0, labels: [w.nOut && "outputs", msg.length === 0 && "empty message", w.nPub === w.total && "private signals are intermediate only", c.v % 2 && "view"] };
  });
}
// ---------------------------------------------------------------- P02 wrong witnesses against the real native layer
export async function p02(ctx) {
  const z = await load(ctx.src, "index.js");
  ctx.rule("JS: a ciphertext opened with one wire changed, two wires exchanged, another public input, or a circuit demanding something else of the same wires; non-trivial: every case");
  const wrong = fc.oneof({ weight: 4, arbitrary: fc.tuple(nat(1000), fc.constantFrom("1", String(P - 1n), "2", String((P - 1n) / 2n), String(1n << 64n), String(1n << 128n), String(1n << 192n), String(1n << 248n)), fc.boolean()).map((x) => ["wire", ...x]) }, { weight: 2, arbitrary: fc.tuple(nat(1000), nat(1000)).map((x) => ["swap", ...x]) },
    { weight: 3, arbitrary: fc.tuple(nat(1000), fc.integer({ min: 1, max: 9 })).map((x) => ["public", ...x]) }, { weight: 3, arbitrary: fc.tuple(nat(1000), nat(2), nat(1000), fc.bigInt({ min: 1n, max: P - 1n }).map(String)).map((x) => ["circuit", ...x]) }, { weight: 1, arbitrary: nat(1000).map((x) => ["zero", x]) });
  await ctx.run("js-real-wrong", ctx.n(2400, 30000), fc.record({ w: rworldArb, vals: valsArb, keys: keysArb, wrong }), async (c) => {
    const w = rworld(c.w), a = inputsOf(w, c.vals, c.keys), msg = stream(1, 20);
    const { ciphertext, key } = await z.encrypt({ r1csBuffer: w.r1cs, symContent: w.sym }, a.pub, msg);
    const wct = splitContainer(ciphertext).wct; let wit = a.witness.slice(), file = w.r1cs, cons = w.cons; const [k, x, y, q, v] = c.wrong;
    const n = wit.length - 1, i = 1 + (x % n);
    if (k === "wire") wit[i] = mod(wit[i] + BigInt(y)); else if (k === "zero") wit[i] = 0n;
    else if (k === "swap") { const j = 1 + (y % n); [wit[i], wit[j]] = [wit[j], wit[i]]; }
    else if (k === "public") { wit[1 + (x % w.nPub)] = mod(wit[1 + (x % w.nPub)] + BigInt(y)); }
    else { // another term in one constraint
      cons = w.cons.map((l) => l.map((t) => t.slice())); cons[x % cons.length][y].push([q % (n + 1), BigInt(v)]);
      file = r1cs({ nWires: w.nWires, nOut: w.nOut, nIn: w.nPub - w.nOut, nPrv: w.total - w.nPub, constraints: cons });
    }
    const ok = satisfied(cons, wit) && wit.slice(1, w.nPub + 1).every((s, j) => s === a.values[j]);
    const r = await attempt(() => nat_real.wasm_decap(file, wtns(wit), wct));
    if (ok) { ensure(!r.error && sameBytes(r.value, key), () => `a satisfying assignment was refused: ${r.error}`); return { nontrivial: false, labels: ["still satisfying"] }; }
    ensure(r.error, () => `decapsulation with a wrong assignment succeeded (${show(c.wrong)})${r.value && sameBytes(r.value, key) ? " and gave the key" : ""}`);
    ensure(!r.error.trap, () => String(r.error));
    if (k === "circuit") { const d = await attempt(() => z.decrypt({ r1csBuffer: file, wasmBuffer: w.wasm }, ciphertext, a.full)); ensure(d.error, "decryption succeeded with a violated constraint"); }
    if (k === "public") { let t = 0; const vals = w.inputs.map((s) => Array.from({ length: s.size }, () => String(wit[1 + t++]))); const full = Object.fromEntries(w.inputs.map((s, j) => [s.name, arrange(vals[j], s.dims, [3])])); const d = await attempt(() => z.decrypt({ r1csBuffer: w.r1cs, wasmBuffer: w.wasm }, ciphertext, full)); ensure(d.error, "decryption succeeded with another public input"); }
    return { nontrivial: true, labels: [k] };
  });
}
// ---------------------------------------------------------------- P03 / P04
export async function p03(ctx) {
  const z = await load(ctx.src, "index.js");
  ctx.rule("JS: containers and ciphertexts searched for the key, its reverse, its complement, its hex and base64 text and hashes; non-trivial: every case");
  const { createHash } = await import("node:crypto");
  await ctx.run("js-key-not-in-ciphertext", ctx.n(1500, 20000), fc.record({ w: rworldArb, vals: valsArb, keys: keysArb, msg: bytesArb(300), embed: fc.boolean() }), async (c) => {
    const w = rworld(c.w), a = inputsOf(w, c.vals, c.keys), msg = bytes(c.msg);
    const { ciphertext, key } = await z.encrypt({ r1csBuffer: w.r1cs, symContent: w.sym }, a.pub, msg, { includePublicInput: c.embed });
    const b = Buffer.from(ciphertext), k = Buffer.from(key), parts = splitContainer(ciphertext);
    for (let i = 0; i + 8 <= 32; i++) ensure(!b.includes(k.subarray(i, i + 8)), `8 bytes of the key appear in the container`);
    ensure(!b.includes(Buffer.from(k).reverse().subarray(0, 8)) && !b.includes(Buffer.from(k.map((x) => x ^ 255)).subarray(0, 8)), "the reversed or complemented key appears in the container");
    ensure(!b.includes(k.toString("hex").slice(0, 16)) && !b.includes(k.toString("base64").slice(0, 12)), "the key appears as text in the container");
    // simple functions of the public bytes
    const pubPart = parts.wct; const cands = [];
    for (const h of ["sha256", "sha512", "sha3-256"]) for (const s of [pubPart, b.subarray(0, b.length - parts.enc.length), w.r1cs, Buffer.from(JSON.stringify(a.pub)), parts.enc.subarray(0, 12)]) cands.push(createHash(h).update(s).digest().subarray(0, 32));
    cands.push(Buffer.alloc(32), Buffer.alloc(32, 1), Buffer.from(pubPart.subarray(0, 32)), Buffer.from(pubPart.subarray(pubPart.length - 32)));
    for (let o = 0; o + 32 <= pubPart.length; o += 8) cands.push(Buffer.from(pubPart.subarray(o, o + 32)));
    for (const x of cands) { ensure(!x.equals(k), "the key is a simple function of the ciphertext"); const r = await attempt(async () => gcmOpen(x, parts.enc)); ensure(r.error, "the message opens with a key anyone can compute"); }
    if (msg.length >= 8) ensure(!Buffer.from(parts.enc).subarray(12).includes(Buffer.from(msg.subarray(0, 8))), "message bytes appear in clear");
    return { nontrivial: true, labels: [c.embed ? "embedded" : "not embedded"] };
  });
}
export async function p04(ctx) {
  const z = await load(ctx.src, "index.js");
  ctx.rule("JS: the host's random source replaced by a generated byte stream: same stream same result, almost every bit of it matters, no random bytes no ciphertext; sequences of calls on one and several instances share nothing; non-trivial: every case");
  const w0 = (c) => { const w = rworld(c.w), a = inputsOf(w, c.vals, c.keys); return { w, a, wb: wtns([1n, ...a.values.slice(0, w.nPub)]) }; };
  const feed = (seed, flip) => { let off = 0; return (b) => { const s = stream(seed, off + b.length).subarray(off); b.set(s); if (flip !== undefined) { const p = flip >> 3; if (p >= off && p < off + b.length) b[p - off] ^= 1 << (flip & 7); } off += b.length; return true; }; };
  const sealWith = (r, wb, src) => { real.random = src; real.drawn = 0; try { const x = nat_real.wasm_encap(r, wb); return { ct: x.ciphertext, key: x.key, drawn: real.drawn }; } finally { real.random = null; } };
  const base = { w: rworldArb, vals: valsArb, keys: keysArb };
  await ctx.run("js-seed-entropy", ctx.n(160, 2000), fc.record({ ...base, seed: seedArb, flips: fc.array(nat(1 << 28), { minLength: 24, maxLength: 24 }) }), async (c) => {
    const { w, wb } = w0(c), a = sealWith(w.r1cs, wb, feed(c.seed)), b = sealWith(w.r1cs, wb, feed(c.seed));
    ensure(a.drawn > 0, "no randomness was requested");
    ensure(sameBytes(a.ct, b.ct) && sameBytes(a.key, b.key), "the same random source gives different results");
    let hit = 0; for (const f of c.flips) { const x = sealWith(w.r1cs, wb, feed(c.seed, f % (a.drawn * 8))); const d = !sameBytes(x.ct, a.ct); if (d) { hit++; ensure(!sameBytes(x.key, a.key), "two ciphertexts share a key"); } }
    const bits = (a.drawn * 8 * hit) / c.flips.length;
    ensure(bits >= 140, () => `only about ${bits} bits of the requested randomness influence the ciphertext (${a.drawn} bytes requested)`);
    const r = await attempt(async () => sealWith(w.r1cs, wb, () => false));
    ensure(r.error && !(r.error.trap && false), "a ciphertext was made without randomness");
    fresh();
    return { nontrivial: true };
  });
  await ctx.run("js-history", ctx.n(160, 2000), fc.record({ ...base, n: fc.integer({ min: 2, max: 8 }), again: fc.array(fc.boolean(), { minLength: 8, maxLength: 8 }) }), async (c) => {
    const { w, a } = w0(c); const keys = new Set(), points = new Map(), n = w.nPub;
    for (let i = 0; i < c.n; i++) {
      if (c.again[i]) fresh();
      const { ciphertext, key } = await z.encap({ r1csBuffer: w.r1cs, symContent: w.sym }, a.pub);
      ensure(!keys.has(hex(key)), "two encapsulations share a key"); keys.add(hex(key));
      // no 24 bytes of randomised data (neither identity points nor public inputs) occur twice
      const pub = Buffer.concat(a.values.slice(0, n).map((v) => Buffer.from(le(v, 32)))), b = Buffer.from(ciphertext);
      for (let o = 0; o + 32 <= b.length; o += 32) {
        const piece = b.subarray(o, o + 32), h = piece.toString("hex");
        if (new Set(piece).size < 14 || pub.includes(piece.subarray(0, 24)) || pub.includes(piece.subarray(8))) continue;
        ensure(!points.has(h) || points.get(h) === i, () => `32 bytes at offset ${o} of a ciphertext occur in another one`); points.set(h, i);
      }
    }
    return { nontrivial: true, labels: [c.again.slice(0, c.n).some(Boolean) && "new instance"] };
  });
}
// ---------------------------------------------------------------- P05 real native layer
export async function p05(ctx) {
  const z = await load(ctx.src, "index.js");
  ctx.rule("JS over the real native layer: every public signal recorded in wire order; witness prefixes that end early are refused; non-trivial: at least two public signals");
  await ctx.run("js-real-bound", ctx.n(2400, 30000), fc.record({ w: rworldArb, vals: fc.array(intArb(), { minLength: 1, maxLength: 12 }), keys: keysArb, cut: nat(100), more: nat(3) }), async (c) => {
    const w = rworld(c.w), a = inputsOf(w, c.vals, c.keys), want = a.values.slice(0, w.nPub);
    const r = await attempt(() => z.encap({ r1csBuffer: w.r1cs, symContent: w.sym }, c.more ? a.full : a.pub));
    ensure(!r.error, () => `encap failed: ${r.error?.stack || r.error}`);
    ensure(recordedIn(r.value.ciphertext, want), () => `the ciphertext does not record ${show(want)}`);
    const n = c.cut % (w.nPub + 1); // wires handed over: 1 + n
    const s = await attempt(async () => nat_real.wasm_encap(w.r1cs, wtns([1n, ...a.witness.slice(1, n + 1)])));
    if (n < w.nPub) { ensure(s.error, () => `a ciphertext was made with ${n} of ${w.nPub} public values`); ensure(!s.error.trap, () => String(s.error)); }
    else ensure(!s.error && recordedIn(s.value.ciphertext, want), () => `the prefix with all public values was not used as is: ${s.error ?? "other values recorded"}`);
    return { nontrivial: w.nPub >= 2, labels: [w.nOut && "outputs", n < w.nPub && "incomplete", w.nOut === w.nPub && "outputs only"] };
  });
}
// ---------------------------------------------------------------- P30 damaged bytes on wasm32
export async function p30(ctx) {
  fresh();
  ctx.rule("wasm32: circuit, witness and ciphertext bytes truncated, with corrupted 32- and 64-bit fields (values around 2^32, 2^31 and the file size), flipped bits and spliced parts; error or result, no trap, bounded memory; non-trivial: the bytes differ from the original");
  const hurt = fc.array(fc.oneof(
    { weight: 4, arbitrary: nat(1 << 20).map((n) => ["cut", n]) }, { weight: 3, arbitrary: fc.tuple(nat(1 << 20), nat(7)).map(([p, b]) => ["bit", p, b]) },
    { weight: 6, arbitrary: fc.tuple(nat(400), nat(19)).map(([p, v]) => ["u32", p, v]) }, { weight: 4, arbitrary: fc.tuple(nat(400), nat(11)).map(([p, v]) => ["u64", p, v]) }, { weight: 1, arbitrary: fc.tuple(nat(1 << 20), nat(400)).map(([p, n]) => ["dup", p, n]) }, { weight: 1, arbitrary: nat(300).map((n) => ["append", n]) }), { minLength: 1, maxLength: 3 });
  const spoil = (b, list) => {
    for (const [k, x, y] of list) {
      if (k === "cut") b = b.slice(0, x % (b.length + 1));
      else if (!b.length) continue;
      else if (k === "bit") { b = b.slice(); b[x % b.length] ^= 1 << y; }
      else if (k === "append") b = new Uint8Array([...b, ...stream(x, x)]);
      else if (k === "dup") { const o = x % b.length; b = new Uint8Array([...b.slice(0, o), ...b.slice(o, o + y), ...b.slice(o)]); }
      else if (k === "u32") { if (b.length < 4) continue; b = b.slice(); const o = (x * 4) % (b.length - 3), v = [0, 1, 2, 3, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 0x10000000, 0x08000000, 0x00ffffff, b.length, b.length - o, b.length - o - 4, 0xfffffffc, 0xffffffdf, 0x06666667, 0x02000000, 0x00100000, 64][y]; new DataView(b.buffer).setUint32(o, v >>> 0, true); }
      else { if (b.length < 8) continue; b = b.slice(); const o = (x * 4) % (b.length - 7), v = [0n, 0xffffffffffffffffn, 0x100000000n, 0xffffffffn, 0x8000000000000000n, 0x100000004n, 0xfffffff4n, BigInt(b.length), 0x1000000000n, 0xffffffff00000000n, 0x7fffffffffffffffn, 0x0fffffffffffffffn][y]; new DataView(b.buffer).setBigUint64(o, v, true); }
    }
    return b;
  };
  await ctx.run("wasm32-damaged", ctx.n(5000, 100000), fc.record({ w: rworldArb, vals: valsArb, which: nat(3), hurt, hurt2: hurt, seed: nat(30) }), async (c) => {
    const w = rworld(c.w), a = inputsOf(w, c.vals, [0]); let R = w.r1cs, W = wtns(a.witness), C = null;
    C = new Uint8Array(nat_real.wasm_encap(R, W).ciphertext);
    const [r0, w0, c0] = [R, W, C];
    if (c.which === 0 || c.which === 3) R = spoil(R, c.hurt); if (c.which === 1) W = spoil(W, c.hurt); if (c.which === 3) W = spoil(W, c.hurt2); if (c.which === 2) C = spoil(C, c.hurt);
    const same = sameBytes(R, r0) && sameBytes(W, w0) && sameBytes(C, c0);
    const size = R.length + W.length + C.length;
    for (const [name, f] of [["encapsulation", () => nat_real.wasm_encap(R, W)], ["decapsulation", () => nat_real.wasm_decap(R, W, C)]]) {
      const before = memory();
      const x = await attempt(async () => f());
      ensure(!x.error?.trap, () => `${name}: ${x.error.message}`);
      ensure(memory() - before <= 4 * 1048576 + 600 * size, () => `${name} of ${size} bytes grew the memory by ${memory() - before} bytes`);
      if (same) ensure(!x.error, () => `${name} of undamaged bytes failed: ${x.error}`);
      else if (x.error) ensure(typeof x.error === "string" && x.error.length > 0, () => `${name}: the error has no message: ${show(x.error)}`);
    }
    return { nontrivial: !same, labels: [["circuit", "witness", "ciphertext", "circuit and witness"][c.which]] };
  });
}
// ---------------------------------------------------------------- P09 the gate, as the library runs it
export async function p09(ctx) {
  fresh();
  ctx.rule("wasm32: random constraint systems x assignments; decapsulation succeeds exactly when the assignment satisfies every constraint; non-trivial: at least one constraint");
  const coef = fc.oneof(fc.constantFrom("1", "2", "0", String(P - 1n), String((P + 1n) / 2n)), fc.bigInt({ min: 0n, max: P - 1n }).map(String));
  const lc = fc.array(fc.tuple(nat(1000), coef), { maxLength: 4 });
  await ctx.run("wasm32-gate", ctx.n(2400, 30000), fc.record({ nPub: nat(3), nPriv: fc.integer({ min: 1, max: 5 }), vals: fc.array(coef, { minLength: 8, maxLength: 8 }), cons: fc.array(fc.tuple(lc, lc, lc, fc.boolean()), { maxLength: 5 }), off: nat(1000) }), async (c) => {
    const n = c.nPub + c.nPriv + 1, wit = [1n, ...c.vals.slice(0, n - 1).map(BigInt)];
    while (wit.length < n) wit.push(3n);
    const ev = (l) => l.reduce((s, [i, k]) => mod(s + k * wit[i]), 0n);
    const cons = c.cons.map(([a, b, d, fix]) => { const [A, B, D] = [a, b, d].map((l) => l.map(([i, k]) => [i % n, BigInt(k)])); if (fix) D.push([0, mod(ev(A) * ev(B) - ev(D))]); return [A, B, D]; });
    const file = r1cs({ nWires: n, nOut: c.off % (c.nPub + 1), nIn: c.nPub - (c.off % (c.nPub + 1)), nPrv: c.nPriv, constraints: cons });
    const e = nat_real.wasm_encap(file, wtns(wit.slice(0, c.nPub + 1)));
    const r = await attempt(async () => nat_real.wasm_decap(file, wtns(wit), e.ciphertext)), ok = satisfied(cons, wit);
    ensure(!r.error?.trap, () => String(r.error));
    if (ok) ensure(!r.error && sameBytes(r.value, e.key), () => `a satisfying assignment was refused: ${r.error ?? "another key"}`); else ensure(r.error, "an assignment that violates a constraint was accepted");
    return { nontrivial: cons.length > 0, labels: [ok ? "satisfied" : "violated"] };
  });
}
// ---------------------------------------------------------------- P40 files over another field
const FIELDS = [[8, 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001n], [2, 0xffffffff00000001n], [8, 0x30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47n], [8, 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001n], [8, 0x12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001n], [8, P + 2n], [8, P - 2n], [10, P + (1n << 300n)], [8, P ^ (1n << 254n)], [4, (1n << 127n) - 1n], [8, 3n * P]];
const own = fc.record({ n: fc.constantFrom(8, 8, 10, 16), q: fc.constant(String(P)) }), foreign = fc.oneof(fc.constantFrom(...FIELDS).map(([n, q]) => ({ n, q: String(q) })), fc.tuple(nat(255), fc.constantFrom(8, 10)).map(([b, n]) => ({ n, q: String(P ^ (1n << BigInt(b))) })));
/** The file with its header naming another prime, and elements of its width. */
function over(file, magic, { n, q }) {
  const n8 = 4 * n, b = Buffer.from(file), u32 = (x) => { const o = Buffer.alloc(4); o.writeUInt32LE(x); return o; };
  const sec = []; let o = 12; for (let i = b.readUInt32LE(8); i > 0; i--) { const len = Number(b.readBigUInt64LE(o + 4)); sec.push([b.readUInt32LE(o), b.subarray(o + 12, o + 12 + len)]); o += 12 + len; }
  const w = (x) => Buffer.concat([x.subarray(0, Math.min(32, n8)), Buffer.alloc(Math.max(0, n8 - 32))]);
  const body = sec.map(([t, s]) => {
    if (t === 1) return [t, Buffer.concat([u32(n8), Buffer.from(le(BigInt(q), n8)), s.subarray(36)])];
    if (t !== 2) return [t, s];
    const out = []; if (magic === "wtns") for (let i = 0; i < s.length; i += 32) out.push(w(s.subarray(i, i + 32)));
    else for (let i = 0; i < s.length;) { const k = s.readUInt32LE(i); out.push(s.subarray(i, i + 4)); i += 4; for (let j = 0; j < k; j++, i += 36) out.push(s.subarray(i, i + 4), w(s.subarray(i + 4, i + 36))); }
    return [t, Buffer.concat(out)];
  });
  return new Uint8Array(Buffer.concat([b.subarray(0, 12), ...body.flatMap(([t, s]) => { const h = Buffer.alloc(12); h.writeUInt32LE(t); h.writeBigUInt64LE(BigInt(s.length), 4); return [h, s]; })]));
}
export async function p40(ctx) {
  const z = await load(ctx.src, "index.js");
  ctx.rule("JS over the real native layer: circuit files and circuit programs over our field (in several widths) and over others, in the four calls of the library; non-trivial: a file of another field");
  await ctx.run("js-other-field", ctx.n(900, 15000), fc.record({ w: rworldArb, vals: fc.array(fc.integer({ min: 0, max: 9 }).map((v) => ({ k: "num", v: String(v) })), { minLength: 1, maxLength: 8 }), keys: keysArb, msg: bytesArb(100), circuit: fc.oneof(own, foreign), program: fc.oneof({ weight: 2, arbitrary: own }, { weight: 1, arbitrary: foreign }), ends: nat(3) }), async (c) => {
    const w = rworld(c.w), a = inputsOf(w, c.vals, c.keys), msg = bytes(c.msg), okC = BigInt(c.circuit.q) === P, okW = BigInt(c.program.q) === P;
    const r1 = over(w.r1cs, "r1cs", c.circuit), prog = { ...w.circ, n32: c.program.n, prime: BigInt(c.program.q) }, wasm = vmWasm(prog);
    const ef = { r1csBuffer: r1, symContent: w.sym }, good = { r1csBuffer: w.r1cs, symContent: w.sym }, df = { r1csBuffer: r1, wasmBuffer: wasm };
    for (const [what, f] of [["encap", () => z.encap(ef, a.pub)], ["encrypt", () => z.encrypt(ef, a.pub, msg)]]) {
      const r = await attempt(f);
      if (okC) ensure(!r.error, () => `${what} refused a circuit of our field: ${r.error?.stack || r.error}`); else { ensure(r.error, `${what} accepted a circuit over ${c.circuit.q}`); ensure(!r.error.trap, () => String(r.error)); }
    }
    const { ciphertext: ct, key } = await z.encap(good, a.pub), box = (await z.encrypt(good, a.pub, msg)).ciphertext;
    for (const [what, f, want] of [["decap", () => z.decap(df, ct, a.full), key], ["decrypt", () => z.decrypt(df, box, a.full), msg]]) {
      const r = await attempt(f);
      if (okC && okW) { ensure(!r.error, () => `${what} refused files of our field: ${r.error?.stack || r.error}`); ensure(sameBytes(r.value, want), `${what} gave something else`); } else { ensure(r.error, `${what} accepted a circuit over ${c.circuit.q} and a program over ${c.program.q}`); ensure(!r.error.trap, () => String(r.error)); }
    }
    // witness files handed to the native layer
    const wf = over(wtns(a.witness), "wtns", c.program), e = await attempt(async () => nat_real.wasm_encap(r1, wf)), d = await attempt(async () => nat_real.wasm_decap(r1, wf, ct));
    for (const [what, r] of [["encapsulation", e], ["decapsulation", d]]) { ensure(!r.error?.trap, () => String(r.error)); ensure(!r.error === (okC && okW), () => `${what}: ${r.error ?? `accepted a circuit over ${c.circuit.q} with a witness over ${c.program.q}`}`); }
    return { nontrivial: !okC || !okW, labels: [!okC && "circuit", !okW && "witness", okC && okW && "our field"] };
  });
}
