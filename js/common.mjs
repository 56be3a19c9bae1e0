// Shared by the two JavaScript simulators: seeded choices, bundling, minimisation, evidence.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";

export const HERE = path.dirname(fileURLToPath(import.meta.url));
export const ROOT = process.env.HSIM_ROOT || path.dirname(HERE);
export const REPO = process.env.HSIM_REPO || "/repo";
const require = createRequire("/opt/veriftools/node/node_modules/");
export const esbuild = require("esbuild");

export class Rng {
  constructor(seed) {
    this.s = BigInt.asUintN(64, BigInt(seed) * 0x9e3779b97f4a7c15n + 0x1234567n);
    // the stream proper is a 32-bit generator (fast); the seed goes through splitmix64
    let z = this.s;
    z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n);
    z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94d049bb133111ebn);
    z ^= z >> 31n;
    this.a = Number(z & 0xffffffffn) >>> 0;
    this.b = Number(z >> 32n) >>> 0 || 1;
  }
  u32() {
    // mulberry32 over a, mixed with a weyl counter b
    this.a = (this.a + 0x6d2b79f5) >>> 0;
    this.b = (this.b + 0x9e3779b9) >>> 0;
    let t = this.a ^ Math.imul(this.b, 0x85ebca6b);
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return (t ^ (t >>> 14)) >>> 0;
  }
  below(n) { return n <= 1 ? 0 : this.u32() % n; }
  chance(num, den) { return this.below(den) < num; }
  pick(a) { return a[this.below(a.length)]; }
}

export function hash(str) {
  let h = 0x811c9dc5, g = 0x1234567;
  for (let i = 0; i < str.length; i++) {
    h = Math.imul(h ^ str.charCodeAt(i), 0x01000193);
    g = Math.imul(g ^ str.charCodeAt(i), 0x85ebca6b) + 0x1b873593;
  }
  return (h >>> 0).toString(16).padStart(8, "0") + (g >>> 0).toString(16).padStart(8, "0");
}

export function repoVersion() {
  try {
    const m = fs.readFileSync(path.join(REPO, "Cargo.toml"), "utf8").match(/^version\s*=\s*"(.*)"/m);
    return m ? m[1] : "?";
  } catch { return "?"; }
}

// The driver shared by both simulators.
//   sim.gen(rng, index)      -> plan (plain JSON, everything a run depends on)
//   sim.run(plan)            -> {violations: [string], trace: [string], stats}
//   sim.shrink(plan)         -> array of smaller plans, best first
export async function check(sim, prop, tier, t0 = Date.now()) {
  const seed = Number(process.env.VERIF_SEED || 1);
  const secs = Number(process.env.HSIM_SECS || (tier === "thorough" ? 300 : 15));
  const seen = new Set(), states = new Set();
  const agg = {};
  let n = 0, found = null, samples = [], simMs = 0, steps = 0;
  const start = Date.now();
  const fixed = sim.enumerated ? sim.enumerated() : [];
  const deadline = start + secs * 1000;
  for (let i = 0; ; i++) {
    if (i >= fixed.length && (i & 63) === 0 && Date.now() > deadline) break;
    const plan = i < fixed.length ? fixed[i] : sim.gen(new Rng(BigInt(seed) * 1000003n + BigInt(i)), i);
    const r = await sim.run(plan);
    n++;
    steps += r.trace.length;
    simMs += r.stats.sim_ms || 0;
    for (const [k, v] of Object.entries(r.stats.counts || {})) agg[k] = (agg[k] || 0) + v;
    if (r.stats.nontrivial) {
      if (seen.size < 3_000_000) seen.add(hash(r.trace.join("\n")));
      if (samples.length < 3 && (i % 97 === 5 || samples.length === 0)) samples.push({ index: i, plan, trace: r.trace.slice(0, 40) });
    }
    states.add(r.stats.state || "");
    if (r.violations.length) { found = { index: i, plan, r }; break; }
  }
  const explore = (Date.now() - start) / 1000;
  const violations = [];
  let code = 0;
  if (found) {
    console.log(`violation at index ${found.index}: ${found.r.violations[0]}`);
    const again = await sim.run(found.plan);
    if (JSON.stringify(again.violations) !== JSON.stringify(found.r.violations)) {
      console.log("the execution did not repeat: no verdict");
      code = 2;
    } else {
      let small = found.plan, rounds = 0, accepted = 0;
      const limit = Date.now() + 20000;
      for (let progress = true; progress && Date.now() < limit; ) {
        progress = false;
        for (const cand of sim.shrink(small)) {
          if (++rounds > 3000 || Date.now() > limit) break;
          const r = await sim.run(cand);
          if (r.violations.length) { small = cand; accepted++; progress = true; break; }
        }
      }
      const r = await sim.run(small);
      const dir = path.join(ROOT, "replays");
      fs.mkdirSync(dir, { recursive: true });
      const file = path.join(dir, `${prop}.json`);
      fs.writeFileSync(file, JSON.stringify({ property: prop, js: true, violation: r.violations, base_seed: seed, index: found.index, shrinking_steps: accepted, digest: hash(r.trace.join("\n")), plan: small, trace: r.trace }, null, 1));
      for (const v of r.violations) console.log("  " + v);
      for (const t of r.trace) console.log("    " + t);
      console.log(`VIOLATION property=${prop} replay=${file}`);
      violations.push({ message: r.violations[0], replay: file, seed, index: found.index });
      code = 1;
    }
  }
  const ev = {
    property: prop, tier, seed, level: "exploration", wall_s: Math.round((Date.now() - t0) / 10) / 100, violations: violations.length, violation_details: violations,
    coverage: {
      evaluations: n, distinct_nontrivial: seen.size, rule: sim.rule, samples,
      simulated_runs_per_hour: Math.round(n * 3600 / explore), seeds_per_hour: Math.round(n * 3600 / explore),
      simulated_seconds: simMs / 1000, scheduler_steps: steps,
      faults_injected: agg, distinct_interleavings: seen.size, distinct_final_states: states.size,
      real_code: sim.real, stubs: sim.stubs, enumerated_first: fixed.length,
    },
  };
  fs.mkdirSync(path.join(ROOT, "evidence"), { recursive: true });
  fs.writeFileSync(path.join(ROOT, "evidence", `${prop}.json`), JSON.stringify(ev, null, 1));
  console.log(`${n} runs in ${explore.toFixed(1)} s, ${seen.size} distinct interleavings, ${states.size} outcomes`);
  return code;
}

export async function replay(sim, file) {
  const rep = JSON.parse(fs.readFileSync(file, "utf8"));
  const r = await sim.run(rep.plan);
  for (const t of r.trace) console.log("    " + t);
  for (const v of r.violations) console.log("  " + v);
  const same = hash(r.trace.join("\n")) === rep.digest && JSON.stringify(r.violations) === JSON.stringify(rep.violation);
  console.log(same ? "identical to the recorded execution" : "NOT identical to the recorded execution (the code may have changed)");
  if (r.violations.length) { console.log(`VIOLATION property=${rep.property} replay=${file}`); return 1; }
  return 0;
}
