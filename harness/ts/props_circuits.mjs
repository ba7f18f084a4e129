// P42: the circuits the repository ships, compiled by the real Circom compiler, through both tools.
import fs from "node:fs";
import path from "node:path";
import { spawn } from "node:child_process";
import { fileURLToPath } from "node:url";
import { fc, load, loadScript, ensure, show, sameBytes, attempt } from "./lib.mjs";
import { P, mod, le, wtns, readWtns, readR1cs, satisfied, gcmOpen } from "./ref.mjs";
import { nat, bytesArb, bytes, permute, keysArb } from "./gen.mjs";
import { splitContainer } from "./props.mjs";

const ZKENC = fileURLToPath(new URL("../../target/release/zkenc", import.meta.url));
function zkenc(args) {
  return new Promise((done) => {
    const p = spawn(ZKENC, args, { stdio: ["ignore", "ignore", "pipe"], env: {}, timeout: 300000, killSignal: "SIGKILL" });
    let err = ""; p.stderr.on("data", (d) => { err = (err + d).slice(-600); });
    p.on("error", (e) => { throw e; });
    p.on("close", (code, signal) => done({ code, text: `status ${code ?? signal}: ${err}` }));
  });
}
const T = "/repo/packages/zkenc-cli/tests/", J = "/repo/packages/zkenc-js/tests/fixtures/";
const file = (n) => new Uint8Array(fs.readFileSync(n));
/** A compiled circuit: its files and, from an independent reader, its constraints and the wire of every signal. */
function circuit(base) {
  const c = { base, r1csBuffer: file(base + ".r1cs"), symContent: fs.readFileSync(base + ".sym", "utf8") };
  if (fs.existsSync(base + ".wasm")) c.wasmBuffer = file(base + ".wasm");
  c.sys = readR1cs(c.r1csBuffer); c.nPub = c.sys.nOut + c.sys.nIn;
  c.wires = c.symContent.split("\n").filter((l) => l).map((l) => l.trim().split(",")).map((p) => [p[3], Number(p[1])]);
  return c;
}
const recordedIn = (ct, values) => { const n = Buffer.alloc(8); n.writeBigUInt64LE(BigInt(values.length)); return Buffer.from(ct).includes(Buffer.concat([n, ...values.map((v) => Buffer.from(le(v, 32)))])); };
/** A value in one of the notations both tools take; objects given to the tool go through JSON. */
const form = (k, json) => (v) => (k === 2 && !json ? v : v > 9007199254740991n || k === 1 ? String(v) : Number(v));

// ---------------------------------------------------------------- sudoku
const GRID = Array.from({ length: 81 }, (_, i) => { const r = Math.floor(i / 9), c = i % 9; return 1 + (3 * (r % 3) + Math.floor(r / 3) + c) % 9; });
const gridArb = fc.record({ digits: keysArb, rows: fc.array(nat(1000), { minLength: 12, maxLength: 12 }), cols: fc.array(nat(1000), { minLength: 12, maxLength: 12 }), flip: fc.boolean() });
/** Any grid reached by renaming digits, exchanging rows and columns within and between bands, and transposing. */
function grid(g) {
  const digits = permute([1, 2, 3, 4, 5, 6, 7, 8, 9], g.digits);
  const line = (k) => permute([0, 1, 2], k.slice(9)).flatMap((b) => permute([0, 1, 2], k.slice(3 * b, 3 * b + 3)).map((x) => 3 * b + x));
  const R = line(g.rows), C = line(g.cols);
  return Array.from({ length: 81 }, (_, i) => { const r = Math.floor(i / 9), c = i % 9; return digits[GRID[g.flip ? 9 * C[c] + R[r] : 9 * R[r] + C[c]] - 1]; });
}
/** The rules the circuit states, over the field. */
function fits(puz, sol) {
  const groups = [];
  for (let i = 0; i < 9; i++) {
    groups.push([...Array(9)].map((_, j) => 9 * i + j), [...Array(9)].map((_, j) => 9 * j + i), [...Array(9)].map((_, j) => 9 * (3 * Math.floor(i / 3) + Math.floor(j / 3)) + 3 * (i % 3) + j % 3));
  }
  return puz.every((p, i) => mod(p * (p - sol[i])) === 0n) && groups.every((g) => mod(g.reduce((s, i) => s + sol[i], 0n)) === 45n && mod(g.reduce((s, i) => s + sol[i] * sol[i], 0n)) === 285n);
}
function sudokuWitness(c, puz, sol) {
  const w = Array(c.sys.nWires).fill(0n); w[0] = 1n;
  for (const [n, i] of c.wires) if (i > 0) { const m = /^main\.(puzzle|solution|solutionSquared)\[(\d+)\]$/.exec(n), v = m && (m[1] === "puzzle" ? puz : sol)[m[2]]; w[i] = m[1] === "solutionSquared" ? mod(v * v) : mod(v); }
  return w;
}
const nest = (l, how) => (how === 1 ? Array.from({ length: 9 }, (_, i) => l.slice(9 * i, 9 * i + 9)) : how === 2 ? Array.from({ length: 3 }, (_, b) => Array.from({ length: 3 }, (_, i) => l.slice(27 * b + 9 * i, 27 * b + 9 * i + 9))) : l);
const tweakArb = fc.oneof({ weight: 4, arbitrary: fc.constant(["none"]) }, { weight: 2, arbitrary: fc.tuple(nat(80), fc.constantFrom("0", "1", "5", "9", "10", String(P - 1n))).map((x) => ["cell", ...x]) }, { weight: 2, arbitrary: fc.tuple(nat(8), nat(8), nat(8), fc.boolean()).map((x) => ["swap", ...x]) },
  { weight: 2, arbitrary: gridArb.map((x) => ["other", x]) }, { weight: 1, arbitrary: fc.tuple(nat(8), nat(8)).map((x) => ["rename", ...x]) }, { weight: 1, arbitrary: nat(8).map((x) => ["negative", x]) });
function changed(sol, t) {
  const s = sol.slice();
  if (t[0] === "cell") s[t[1]] = BigInt(t[2]);
  else if (t[0] === "swap") { const at = (j) => (t[4] ? 9 * j + t[1] : 9 * t[1] + j), a = at(t[2]), b = at(t[3]); [s[a], s[b]] = [s[b], s[a]]; }
  else if (t[0] === "other") return grid(t[1]).map(BigInt);
  else if (t[0] === "rename") { const [a, b] = [BigInt(t[1] + 1), BigInt(t[2] + 1)]; return s.map((v) => (v === a ? b : v === b ? a : v)); }
  else if (t[0] === "negative") s[9 * t[1]] += P; // the same element, written differently
  return s;
}

// ---------------------------------------------------------------- two of three signatures
const ORDER = 2736030358979909402780800718157159386076813972158567259200215660948447373041n; // of the subgroup the signatures live in
const SIGNED = ["basic", "boundary", "general"];
const wrongSig = fc.oneof({ weight: 4, arbitrary: fc.constant(["none"]) }, { weight: 6, arbitrary: fc.tuple(fc.constantFrom("message", "S", "R8x", "R8y", "key", "order", "same", "index", "cross", "indexswap"), nat(1), fc.constantFrom("1", "2", String(P - 1n), String(1n << 128n))) });
const sigArb = fc.record({ from: nat(2), keys: keysArb, swap: fc.boolean(), spare: fc.option(fc.tuple(fc.bigInt({ min: 0n, max: P - 1n }).map(String), fc.constantFrom("0", "1", String(P - 1n))), { nil: null, freq: 2 }), wrong: wrongSig });
function signature(c) {
  const j = JSON.parse(fs.readFileSync(`${T}inputs/signature_${SIGNED[c.from]}.json`, "utf8"));
  const num = (x) => (Array.isArray(x) ? x.map(num) : BigInt(x)), v = Object.fromEntries(Object.entries(j).map(([k, x]) => [k, num(x)]));
  const where = permute([0, 1, 2], c.keys), inv = [0, 1, 2].map((k) => where.indexOf(k));
  v.publicKeys = where.map((k) => v.publicKeys[k]); v.signerIndices = v.signerIndices.map((i) => BigInt(inv[Number(i)]));
  if (c.swap) for (const k of ["R8", "S", "signerIndices"]) v[k] = [v[k][1], v[k][0]];
  const used = v.signerIndices.map(Number), spare = [0, 1, 2].find((k) => !used.includes(k));
  if (c.spare) v.publicKeys[spare] = c.spare.map(BigInt);
  const [k, s, d] = c.wrong, add = (x) => mod(x + BigInt(d)); let ok = false;
  switch (k) {
    case "message": v.message = add(v.message); break;
    case "S": v.S[s] = mod(v.S[s] + BigInt(d)); break;
    case "R8x": v.R8[s][0] = add(v.R8[s][0]); break;
    case "R8y": v.R8[s][1] = add(v.R8[s][1]); break;
    case "key": v.publicKeys[used[s]][s] = add(v.publicKeys[used[s]][s]); break;
    case "order": v.S[s] += ORDER; break;
    case "same": for (const q of ["R8", "S", "signerIndices"]) v[q][1 - s] = v[q][s]; break;
    case "index": v.signerIndices[s] = 3n; break;
    case "cross": v.S = [v.S[1], v.S[0]]; break;
    case "indexswap": v.signerIndices = [v.signerIndices[1], v.signerIndices[0]]; break;
    default: ok = true;
  }
  return { v, ok, shipped: ok && !c.swap && !c.spare && where.every((x, i) => x === i) };
}
const flat = (x) => (Array.isArray(x) ? x.flatMap(flat) : [mod(BigInt(x))]);
const deep = (x, f) => (Array.isArray(x) ? x.map((y) => deep(y, f)) : f(x));

export async function p42(ctx) {
  ctx.rule("puzzles and grids (renamed, exchanged, transposed, with holes, wrong ones) for the compiled sudoku circuit, key sets, signer orders and wrong signatures for the compiled multi-signature circuit, roots and messages for the compiled membership circuit, through both witness calculators, the library and the tool; the rules of each circuit decide; non-trivial: every case");
  const z = await load(ctx.src, "index.js"), typed = await load(ctx.src, "witness_calculator.js"), script = loadScript(ctx.src, "witness_calculator.script.cjs"), wit = await load(ctx.src, "witness.js");
  const dir = fs.mkdtempSync(path.join(ctx.scratch, "p42-")), at = (n) => path.join(dir, n), put = (n, b) => { fs.writeFileSync(at(n), b); return at(n); }, get = (n) => file(at(n));
  const clean = () => { for (const f of fs.readdirSync(dir)) fs.unlinkSync(at(f)); };
  /** Both calculators; null when the circuit's rules say there is no witness. */
  const calculate = async (c, input, ok) => {
    const out = [];
    for (const build of [typed.default, script.default || script]) {
      const calc = await build(c.wasmBuffer), r = await attempt(() => calc.calculateWitness(input, 0));
      ensure(!!r.error === !ok, () => (ok ? `a calculation that must succeed failed: ${r.error?.stack || r.error}` : "the circuit's rules are broken, and yet there is a witness"));
      if (ok) { out.push(r.value.map(BigInt)); const f = readWtns(await calc.calculateWTNSBin(input, 0)); ensure(show(f.values) === show(out[0]) && f.values.every((x, i) => x === out[0][i]), "witness file and witness differ"); }
    }
    if (!ok) return null;
    ensure(out[0].every((x, i) => x === out[1][i]) && out[0].length === c.sys.nWires, "the two calculators disagree");
    return out[0];
  };
  /** Sealed by one, opened by the other; `bad` must open nothing. */
  const exchange = async (c, pub, full, witness, publics, msg, bad, badWitness, toolFirst) => {
    clean();
    const R = c.base + ".r1cs", S = c.base + ".sym", I = put("in.json", JSON.stringify(pub, (k, v) => (typeof v === "bigint" ? String(v) : v))), df = { r1csBuffer: c.r1csBuffer, wasmBuffer: c.wasmBuffer };
    let ct;
    if (toolFirst) { const e = await zkenc(["encrypt", "-c", R, "-s", S, "-i", I, "-m", put("m", msg), "-o", at("ct")]); ensure(e.code === 0, () => `zkenc encrypt failed: ${e.text}`); ct = get("ct"); }
    else { const e = await attempt(() => z.encrypt(c, pub, msg)); ensure(!e.error, () => `encryption failed: ${e.error?.stack || e.error}`); ct = e.value.ciphertext; put("ct", ct); ensure(sameBytes(gcmOpen(e.value.key, splitContainer(ct).enc), msg), "the returned key does not open the message"); }
    ensure(recordedIn(splitContainer(ct).wct, publics), "the recorded public inputs are not those of the circuit, in order");
    const d = await attempt(() => z.decrypt(df, ct, full)); ensure(!d.error && sameBytes(d.value, msg), () => `the library does not open the message: ${d.error ?? "other bytes"}`);
    const t = await zkenc(["decrypt", "-c", R, "-w", put("w.wtns", wtns(witness)), "-i", at("ct"), "-o", at("m2")]); ensure(t.code === 0 && sameBytes(get("m2"), msg), () => `zkenc does not open the message: ${t.code ? t.text : "other bytes"}`);
    if (bad) { const b = await attempt(() => z.decrypt(df, ct, bad)); ensure(b.error, () => `the library opens the message with ${show(bad)}`); }
    for (const w of badWitness) { const b = await zkenc(["decrypt", "-c", R, "-w", put("b.wtns", wtns(w)), "-i", at("ct"), "-o", at("m3")]); ensure(b.code !== 0 && !fs.existsSync(at("m3")), "zkenc opens the message with a wrong witness"); }
  };

  const su = circuit(T + "r1cs/sudoku");
  const sudoku = (how) => async (c) => {
    const own = grid(c.grid).map(BigInt), holes = new Set(c.holes.map((h) => h % 81)), puz = own.map((v, i) => (c.blank || holes.has(i) ? 0n : v)), sol = changed(own, c.tweak), ok = fits(puz, sol);
    const f = form(c.form, c.tool), obj = (p, s) => { const e = [["puzzle", nest(p.map(f), c.how)], ["solution", nest(s.map(f), c.how2)]]; return Object.fromEntries(c.swap ? e.reverse() : e); };
    const full = obj(puz, sol), expect = sudokuWitness(su, puz, sol);
    const holds = satisfied(su.sys.constraints, expect); // a wrong cell that the compiler removed leaves no trace in the witness
    ensure(holds || !ok, "the harness's rules are not those of the circuit file"); // would be a fault of the harness
    const w = await calculate(su, full, ok);
    if (w) ensure(w.every((x, i) => x === expect[i]), () => { const i = w.findIndex((x, k) => x !== expect[k]); return `wire ${i} is ${w[i]} instead of ${expect[i]}`; });
    if (how === "calc") return { nontrivial: true, labels: [ok ? "right" : "wrong", c.tweak[0]] };
    // sealed for the puzzle; the grid it was made from opens it, and the changed one only if it fits
    const right = sudokuWitness(su, puz, own), bw = holds ? [] : [expect];
    const op = puz.slice(); op[c.holes[0] % 81] = mod(op[c.holes[0] % 81] + 1n); bw.push(sudokuWitness(su, op, own)); // never fits: a changed public input
    await exchange(su, { puzzle: puz.map(f) }, ok ? full : obj(puz, own), ok ? w : right, puz.map((x) => mod(x)), bytes(c.msg), ok ? null : full, bw, c.tool);
    return { nontrivial: true, labels: [ok ? (c.tweak[0] === "none" ? "the grid itself" : "another fitting grid") : "wrong: " + c.tweak[0], c.tool ? "sealed by the tool" : "sealed by the library"] };
  };
  const suArb = fc.record({ grid: gridArb, holes: fc.array(nat(80), { minLength: 1, maxLength: 80 }), blank: fc.boolean(), tweak: tweakArb, form: nat(2), how: nat(2), how2: nat(2), swap: fc.boolean(), tool: fc.boolean(), msg: bytesArb(2000) });
  await ctx.run("sudoku-witness", ctx.n(1600, 16000), suArb, sudoku("calc"));
  await ctx.run("sudoku-message", ctx.n(640, 6000), suArb, sudoku("full"));

  const si = circuit(T + "r1cs/signature");
  await ctx.run("signatures", ctx.n(48, 500), fc.record({ sig: sigArb, form: nat(2), tool: fc.boolean(), swap: fc.boolean(), msg: bytesArb(2000), seal: nat(3) }), async (c) => {
    const { v, ok, shipped } = signature(c.sig), f = form(c.form, c.tool), names = Object.keys(v); if (c.swap) names.reverse();
    const full = Object.fromEntries(names.map((k) => [k, deep(v[k], f)])), publics = [...flat(v.message), ...flat(v.publicKeys)];
    const w = await calculate(si, full, ok);
    if (!ok) return { nontrivial: true, labels: ["wrong: " + c.sig.wrong[0]] };
    [...publics, ...flat(v.R8), ...flat(v.S), ...flat(v.signerIndices)].forEach((x, i) => ensure(w[i + 1] === x, () => `wire ${i + 1} is ${w[i + 1]} instead of ${x}`));
    ensure(satisfied(si.sys.constraints, w), "the witness does not satisfy the circuit file");
    if (shipped) { const s = readWtns(file(`${T}inputs/signature_signature_${SIGNED[c.sig.from]}.wtns`)).values; ensure(s.length === w.length && s.every((x, i) => x === w[i]), "the witness is not the one snarkjs computed"); }
    if (c.seal) return { nontrivial: true, labels: ["right", shipped && "as shipped"] };
    const bad = structuredClone(v); bad.S[0] += 1n; const bw = w.slice(); bw[w.length - 1] = mod(bw[w.length - 1] + 1n);
    await exchange(si, { message: full.message, publicKeys: full.publicKeys }, full, w, publics, bytes(c.msg), Object.fromEntries(names.map((k) => [k, deep(bad[k], f)])), [bw], c.tool);
    return { nontrivial: true, labels: ["right", "sealed and opened", shipped && "as shipped"] };
  });

  const me = circuit(J + "merkle_membership");
  await ctx.run("membership", ctx.n(16, 200), fc.record({ root: fc.bigInt({ min: 0n, max: P - 1n }).map(String), message: fc.oneof(nat(1000000).map(String), fc.bigInt({ min: 0n, max: P - 1n }).map(String)), tool: fc.boolean(), extra: fc.boolean() }), async (c) => {
    clean();
    const pub = { message: c.message, root: c.root, ...(c.extra ? { pathIndices: Array(20).fill(0) } : {}) }, publics = [BigInt(c.root), BigInt(c.message)];
    if (c.tool) { const e = await zkenc(["encap", "-c", me.base + ".r1cs", "-s", me.base + ".sym", "-i", put("in.json", JSON.stringify(pub)), "--ciphertext", at("ct"), "-k", at("k")]); ensure(e.code === 0, () => `zkenc encap failed: ${e.text}`); }
    else { const e = await attempt(() => z.encap(me, pub)); ensure(!e.error, () => `encapsulation failed: ${e.error?.stack || e.error}`); put("ct", e.value.ciphertext); }
    ensure(recordedIn(get("ct"), publics), "the recorded public inputs are not root and message, in order");
    const w = Array(me.sys.nWires).fill(0n); w[0] = 1n; w[1] = publics[0]; w[2] = publics[1];
    const d = await zkenc(["decap", "-c", me.base + ".r1cs", "-w", put("w.wtns", wtns(w)), "--ciphertext", at("ct"), "-k", at("k2")]); ensure(d.code !== 0 && !fs.existsSync(at("k2")), "a witness that is not one opens the ciphertext");
    return { nontrivial: true, labels: [c.tool ? "tool" : "library"] };
  });
  fs.rmSync(dir, { recursive: true, force: true });
}
