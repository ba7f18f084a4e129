// Campaign runner over fast-check, case files, and loading of the TypeScript sources under test.
import { createRequire } from "node:module";
import * as nodeModule from "node:module";
import fs from "node:fs";
import path from "node:path";
import { createHash } from "node:crypto";
import { pathToFileURL } from "node:url";
const require = createRequire("/opt/veriftools/node/node_modules/");
export const fc = require("fast-check");
const esbuild = require("esbuild");

const SRC = process.env.ZKENC_JS_SRC || "/repo/packages/zkenc-js/src";

export class Violation extends Error {}
export function ensure(c, msg) { if (!c) throw new Violation(typeof msg === "function" ? msg() : msg); }
export const hex = (b) => Buffer.from(b.buffer ?? b, b.byteOffset ?? 0, b.byteLength ?? b.length).toString("hex");
export const unhex = (s) => new Uint8Array(Buffer.from(s, "hex"));
export function sameBytes(a, b) { return a.length === b.length && Buffer.compare(Buffer.from(a.buffer, a.byteOffset, a.length), Buffer.from(b.buffer, b.byteOffset, b.length)) === 0; }
export function show(x) { const s = typeof x === "string" ? x : JSON.stringify(x, (k, v) => (typeof v === "bigint" ? v + "n" : v instanceof Uint8Array ? "0x" + hex(v) : v)); return s && s.length > 400 ? s.slice(0, 400) + "…" : s; }

// ---------------------------------------------------------------- sources under test
/** Compile the sources once (what `tsc` would put in dist/), beside a stand-in for the native package. */
export function prepare(dir, nativeUrl) {
  const out = path.join(dir, "src");
  fs.mkdirSync(out, { recursive: true });
  fs.mkdirSync(path.join(dir, "pkg"), { recursive: true });
  fs.writeFileSync(path.join(dir, "package.json"), '{"type":"module"}');
  fs.writeFileSync(path.join(dir, "pkg", "zkenc_js.js"), `export * from ${JSON.stringify(nativeUrl)};\nexport { default } from ${JSON.stringify(nativeUrl)};\n`);
  const walk = (rel) => {
    for (const e of fs.readdirSync(path.join(SRC, rel), { withFileTypes: true })) {
      const r = path.join(rel, e.name);
      if (e.isDirectory()) { fs.mkdirSync(path.join(out, r), { recursive: true }); walk(r); continue; }
      if (/\.(test|spec)\./.test(e.name) || e.name.endsWith(".d.ts")) continue;
      const code = () => fs.readFileSync(path.join(SRC, r), "utf8");
      if (e.name.endsWith(".ts")) {
        const t = esbuild.transformSync(code(), { loader: "ts", format: "esm", target: "es2022" });
        fs.writeFileSync(path.join(out, r.replace(/\.ts$/, ".js")), t.code);
      } else if (e.name.endsWith(".js")) {
        // the plain script: beside the compiled typed one, under its own name
        fs.writeFileSync(path.join(out, r.replace(/\.js$/, ".script.cjs")), code());
        if (!fs.existsSync(path.join(SRC, r.replace(/\.js$/, ".ts")))) fs.writeFileSync(path.join(out, r), code());
      }
    }
  };
  walk("");
  return out;
}
// `?inst=N` gives a fresh copy of a module and of everything it imports.
nodeModule.registerHooks({
  resolve(spec, ctx, next) {
    const r = next(spec, ctx);
    const m = ctx.parentURL && /\?inst=(\d+)/.exec(ctx.parentURL);
    if (m && /^\.\.?\//.test(spec) && r.url.startsWith("file:") && !r.url.includes("?")) return { ...r, url: r.url + "?inst=" + m[1] };
    return r;
  },
});
export async function load(srcDir, file, inst) {
  return await import(pathToFileURL(path.join(srcDir, file)).href + (inst === undefined ? "" : "?inst=" + inst));
}
export function loadScript(srcDir, file) { return createRequire(path.join(srcDir, "x.cjs"))(path.join(srcDir, file)); }

// ---------------------------------------------------------------- campaigns
export class Ctx {
  constructor(o) {
    Object.assign(this, o); // check, tier, seed, shard, shards, replay, cur
    this.thorough = this.tier === "thorough";
    this.res = { evaluations: 0, hashes: [], rules: [], samples: [], labels: {}, runs: [], notes: [], violations: [], known: [] };
    this.replayHit = false;
    this.seq = 0;
  }
  /** Cases of a campaign. The quick tier has room for three times the basic number, except where the cases are big. */
  n(quick, thorough) { return this.thorough ? thorough : ["P38", "P42"].includes(this.check) ? quick : Math.min(3 * quick, Math.max(quick, thorough)); }
  rule(s) { if (!this.res.rules.includes(s)) this.res.rules.push(s); }
  /** `oracle(case)` throws when the property fails; returns {nontrivial, labels}. */
  async run(name, cases, arb, oracle) {
    if (this.replay) {
      if (this.replay.run !== name) return;
      this.replayHit = true;
      try { await this.guard(oracle, this.replay.case); console.log(`replay of ${name}: the property holds`); }
      catch (e) { console.log(`replay of ${name}: ${e.stack || e}`); this.res.violations.push({ run: name, message: String(e.message || e), case: this.replay.case }); }
      return;
    }
    const quota = Math.floor(cases / this.shards) + (this.shard < cases % this.shards ? 1 : 0);
    if (quota === 0) return;
    const t0 = process.hrtime.bigint();
    const seed = createHash("sha256").update(`${this.seed}/${name}/${this.shard}`).digest().readInt32LE(0);
    const st = { evals: 0, nontrivial: 0, labels: {}, samples: [], hashes: new Set(), failed: false, extra: 0 };
    const prop = fc.asyncProperty(arb, async (c) => {
      if (st.failed && ++st.extra > 1200) return; // bounded shrinking
      this.enter(name, c);
      let info;
      try { info = await this.guard(oracle, c); } catch (e) { st.failed = true; throw e; }
      if (st.failed) return;
      st.evals++;
      info = info || {};
      for (const l of info.labels || []) if (l) st.labels[l] = (st.labels[l] || 0) + 1;
      if (info.nontrivial) {
        st.nontrivial++;
        const j = JSON.stringify(c);
        st.hashes.add(createHash("md5").update(name).update(j).digest("hex").slice(0, 12));
        if (st.samples.length < 2 && j.length < 2500) st.samples.push({ run: name, case: c });
      }
    });
    const r = await fc.check(prop, { seed, numRuns: quota, endOnFailure: false, ignoreEqualValues: false, maxSkipsPerRun: 1000 });
    this.res.evaluations += st.evals;
    this.res.hashes.push(...st.hashes);
    this.res.samples.push(...st.samples);
    const L = (this.res.labels[name] ||= {});
    for (const [k, v] of Object.entries(st.labels)) L[k] = (L[k] || 0) + v;
    this.res.runs.push({ run: name, evaluations: st.evals, nontrivial: st.nontrivial, seconds: Number(process.hrtime.bigint() - t0) / 1e9 });
    if (r.failed) {
      if (!r.counterexample) throw new Error(`campaign ${name} did not run: ${JSON.stringify(r)}`);
      const e = r.errorInstance;
      this.res.violations.push({ run: name, message: String((e && (e instanceof Violation ? e.message : e.stack)) || r.error), case: r.counterexample[0] });
      this.found(this.res.violations.at(-1));
    }
  }
  /** A case must settle: an oracle that is still pending after a minute with an idle event loop never will. */
  async guard(oracle, c) {
    let t;
    const late = new Promise((_, rej) => { t = setTimeout(() => rej(new Violation("the call never settles")), 60000); });
    try { return await Promise.race([oracle(c), late]); } finally { clearTimeout(t); }
  }
  enter(name, c) {}
  found(v) {}
  async probe(key, f) {
    if (this.replay) { if (this.replay.run !== key) return; this.replayHit = true; }
    else if (this.shard !== 0) return;
    this.res.evaluations++;
    let m; try { m = await f(); } catch (e) { m = "exception: " + (e.stack || e); }
    if (m) this.res.known.push({ key, message: m });
  }
}
/** Runs `f`, giving {value} or {error}. */
export async function attempt(f) { try { return { value: await f() }; } catch (error) { return { error: error ?? new Error("rejected with " + error) }; } }
