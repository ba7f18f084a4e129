import fs from "node:fs";
import path from "node:path";
import { Ctx } from "./lib.mjs";
const cfg = JSON.parse(process.argv[2]);
const replay = cfg.replay ? JSON.parse(fs.readFileSync(cfg.replay, "utf8")) : null;
const ctx = new Ctx({ check: cfg.check, tier: cfg.tier || "quick", seed: cfg.seed || "1", shard: cfg.shard, shards: cfg.shards, replay, src: cfg.dir, native: cfg.native, scratch: path.dirname(cfg.dir) });
process.on("unhandledRejection", () => {});
// the running case, for the watchdog
const cur = path.join(ctx.scratch, "cur." + cfg.shard);
ctx.enter = (name, c) => fs.writeFileSync(cur, JSON.stringify({ run: name, case: c }));
ctx.found = (violation) => process.send({ violation });
const real = cfg.native.endsWith("native_real.mjs");
const table = real ? { P01: "p01", P02: "p02", P03: "p03", P04: "p04", P05: "p05", P09: "p09", P26: "p26", P30: "p30", P40: "p40", P42: "p42" } : { P05: "p05", P13: "p13", P15: "p15", P21: "p21", P25: "p25", P27: "p27", P28: "p28", P29: "p29", P32: "p32", P34: "p34", P37: "p37", P38: "p38" };
if (!table[cfg.check]) { console.error("no such check here"); process.exit(2); }
// what the environment says must not matter: in most workers every variable that is asked for and not set has a value
const said = [null, "1", "true", "debug", "*", "development", "yes", "trace"][cfg.shard % 8];
if (said !== null) {
  const ours = /^(NODE_(?!ENV$)|UV_|LC_|LANG|TZ$|HOME$|PATH$|TMP|TEMP|FORCE_COLOR|NO_COLOR|COLORTERM|TERM|NO_DEPRECATION|VERIF_|ZKENC_JS_SRC|CARGO|RUST)/;
  const made = (t, k) => !(k in t) && typeof k === "string" && /^[A-Z][A-Z0-9_]*$/.test(k) && !ours.test(k);
  process.env = new Proxy(process.env, { get: (t, k) => (made(t, k) ? said : t[k]), has: (t, k) => k in t || made(t, k) });
}
const realLog = console.log;
if (!replay) { console.log = () => {}; console.error = () => {}; }
const mod = await import(cfg.check === "P42" ? "./props_circuits.mjs" : real ? "./props_real.mjs" : "./props.mjs");
await mod[table[cfg.check]](ctx);
console.log = realLog;
// through a file: a message sent just before the exit can get lost
fs.writeFileSync(path.join(ctx.scratch, "result." + cfg.shard), JSON.stringify({ ...ctx.res, replayHit: ctx.replayHit }));
process.exit(0);
