import fs from "node:fs";
import { check, replay } from "./common.mjs";
const t0 = Date.now();
const [cmd, a, b] = process.argv.slice(2);
const prop = cmd === "replay" ? JSON.parse(fs.readFileSync(a, "utf8")).property : a;
const sim = await import(prop === "C17" ? "./wrapper.mjs" : "./launcher.mjs");
try {
  await sim.prepare();
} catch (e) {
  console.error(e && e.message ? e.message : e);
  process.exit(3);
}
const code = cmd === "replay" ? await replay(sim, a) : await check(sim, prop, b || "quick", t0);
process.exit(code);
