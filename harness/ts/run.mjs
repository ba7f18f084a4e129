// node run.mjs --check P.. --tier .. --seed .. --out FILE | --replay FILE
import { fork } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
import os from "node:os";
import { fileURLToPath } from "node:url";
const args = {};
for (let i = 2; i < process.argv.length; i++) if (process.argv[i].startsWith("--")) args[process.argv[i].slice(2)] = process.argv[++i];
const HERE = path.dirname(fileURLToPath(import.meta.url));
const base = process.env.VERIF_SCRATCH || os.tmpdir();
const dir = fs.mkdtempSync(path.join(base, "ts-"));
const native = args.native || path.join(HERE, "native_model.mjs");
const { prepare } = await import("./lib.mjs");
let code = 0;
try {
  prepare(dir, "file://" + native);
  const shards = args.replay ? 8 : Math.min(8, os.availableParallelism());
  const merged = { evaluations: 0, rules: [], samples: [], labels: {}, runs: [], notes: [], violations: [], known: [] };
  const hashes = new Set();
  let hang = null, broken = null; const replays = [];
  await Promise.all(Array.from({ length: shards }, (_, shard) => new Promise((done) => {
    const cfg = { ...args, dir: path.join(dir, "src"), shard, shards, native };
    const child = fork(path.join(HERE, "worker.mjs"), [JSON.stringify(cfg)], { stdio: ["ignore", "pipe", "pipe", "ipc"], execArgv: ["--no-warnings", "--max-old-space-size=2500"] });
    let err = "", got = null, found = [], lastSeq = -1, cpu0 = 0;
    const fileCur = path.join(dir, "cur." + shard);
    child.stdout.on("data", (d) => { if (args.replay) process.stdout.write(d); });
    child.stderr.on("data", (d) => { err = (err + d).slice(-4000); });
    child.on("message", (m) => { if (m.violation) found.push(m.violation); });
    // a case that burns 90 s of CPU on a small input does not terminate
    const timer = setInterval(() => {
      let cur, ticks;
      try { cur = fs.statSync(fileCur).mtimeMs; const f = fs.readFileSync(`/proc/${child.pid}/stat`, "utf8").split(") ")[1].split(" "); ticks = (Number(f[11]) + Number(f[12])) / 100; } catch { return; }
      if (cur !== lastSeq) { lastSeq = cur; cpu0 = ticks; }
      else if (ticks - cpu0 > 90 && !hang) { try { const j = JSON.parse(fs.readFileSync(fileCur, "utf8")); hang = { run: j.run, case: j.case, message: "the call does not terminate (90 s of CPU time used)" }; } catch { return; } child.kill("SIGKILL"); }
    }, 1000);
    child.on("close", (c, s) => {
      clearInterval(timer);
      try { got = JSON.parse(fs.readFileSync(path.join(dir, "result." + shard), "utf8")); } catch {}
      if (got) {
        const r = got;
        merged.evaluations += r.evaluations; r.hashes.forEach((h) => hashes.add(h));
        for (const x of r.rules) if (!merged.rules.includes(x)) merged.rules.push(x);
        for (const x of r.notes) if (!merged.notes.includes(x)) merged.notes.push(x);
        if (shard < 2) merged.samples.push(...r.samples);
        for (const [n, l] of Object.entries(r.labels)) { const L = (merged.labels[n] ||= {}); for (const [k, v] of Object.entries(l)) L[k] = (L[k] || 0) + v; }
        for (const x of r.runs) { const y = merged.runs.find((z) => z.run === x.run); if (!y) merged.runs.push({ ...x }); else { y.evaluations += x.evaluations; y.nontrivial += x.nontrivial; y.seconds = Math.max(y.seconds, x.seconds); } }
        merged.violations.push(...r.violations); merged.known.push(...r.known);
        if (args.replay) replays.push(r.replayHit ? (r.violations.length || r.known.length ? 1 : 0) : 3);
      } else if (found.length) {
        merged.violations.push(...found); // ended early, but what it found stands
      } else if (!hang && /^SIG(ABRT|SEGV|ILL|TRAP|BUS)$/.test(s || "")) {
        // the engine gave up on one case (heap exhausted)
        try { const j = JSON.parse(fs.readFileSync(fileCur, "utf8")); hang = { run: j.run, case: j.case, message: `the process died with ${s}: ${(/FATAL ERROR: .*/.exec(err) || [""])[0]}` }; } catch { broken = broken || `shard ${shard} ended with ${s}: ${err}`; }
      } else if (!hang) broken = broken || `shard ${shard} ended with ${c ?? s}: ${err}`;
      done();
    });
  })));
  if (args.replay) code = replays.includes(1) ? 1 : hang ? 7 : broken ? 2 : replays.includes(0) ? 0 : 3;
  else {
    if (merged.violations.length === 0 && hang) { fs.writeFileSync(args.out + ".hang", JSON.stringify({ violations: [hang] })); code = 7; }
    else if (merged.violations.length === 0 && broken) { console.error(broken); code = 2; }
    else {
      // one violation per campaign, the smallest
      const best = {};
      for (const v of merged.violations) { const l = JSON.stringify(v.case ?? null).length; if (!best[v.run] || l < best[v.run].l) best[v.run] = { l, v }; }
      merged.violations = Object.values(best).map((x) => x.v);
      for (const v of merged.violations) console.log(`FAILED ${v.run}: ${String(v.message).slice(0, 1500)}`);
      merged.distinct_nontrivial = hashes.size;
      fs.writeFileSync(args.out, JSON.stringify(merged, null, 1));
    }
  }
} finally { fs.rmSync(dir, { recursive: true, force: true }); }
process.exit(code);
