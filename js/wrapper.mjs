// C17: packages/wasm/src/index.ts (with either real loader, or a stub one) under a seeded scheduler which owns the
// completion of every asynchronous step, the moment of every call, the timers and the failures.
import vm from "node:vm";
import path from "node:path";
import url from "node:url";
import { createRequire } from "node:module";
import { esbuild, Rng, REPO } from "./common.mjs";

const nodeRequire = createRequire(import.meta.url);
const WASM = path.join(REPO, "packages/wasm/src");
const DIST = "/sim/node_modules/@hongdown/wasm/dist";
const FILE = `${DIST}/hongdown_bg.wasm`;
const scripts = {};

export async function prepare() {
  for (const variant of ["stub", "node", "web"]) {
    const r = await esbuild.build({
      entryPoints: [path.join(WASM, "index.ts")], bundle: true, write: false, format: "cjs", platform: "neutral", target: "es2022", logLevel: "silent",
      define: { "import.meta.url": JSON.stringify("file://" + DIST + "/index.mjs"), "import.meta.dirname": JSON.stringify(DIST), "import.meta.filename": JSON.stringify(DIST + "/index.mjs") },
      plugins: [{
        name: "sim", setup(b) {
          b.onResolve({ filter: /^#wasm-loader$/ }, () => variant === "stub" ? { path: "loader", namespace: "sim" } : { path: path.join(WASM, `loader-${variant}.ts`) });
          b.onResolve({ filter: /pkg\/hongdown(\.js)?$/ }, () => ({ path: "pkg", namespace: "sim" }));
          b.onResolve({ filter: /^(node:)?[a-z_]+(\/[a-z_]+)?$/ }, (a) => a.kind === "entry-point" ? null : { path: a.path, external: true });
          b.onLoad({ filter: /.*/, namespace: "sim" }, (a) => ({
            loader: "js",
            contents: a.path === "loader"
              ? `export const loadWasmBuffer = (...a) => __sim.load(...a);`
              : `export default (...a) => __sim.init(...a);
                 export const __wbg_init = (...a) => __sim.init(...a);
                 export const initSync = (...a) => __sim.initSync(...a);
                 export const format = (...a) => __sim.pkg("format", a);
                 export const formatWithWarnings = (...a) => __sim.pkg("formatWithWarnings", a);
                 export const formatWithCodeFormatter = (...a) => __sim.pkg("formatWithCodeFormatter", a);`,
          }));
        },
      }],
    });
    scripts[variant] = vm.compileFunction(r.outputFiles[0].text, ["require", "module", "exports", "__sim", "globalThis", "fetch", "setTimeout", "clearTimeout", "setInterval", "clearInterval", "setImmediate", "queueMicrotask", "Date", "performance", "process", "console", "window", "self", "navigator"], { filename: variant + ".js" });
  }
}

const GOOD = Uint8Array.from([0, 0x61, 0x73, 0x6d, 1, 0, 0, 0, 7, 7, 7, 42, 99, 3]);
const FNS = ["format", "formatWithWarnings", "formatWithCodeFormatter"];
const OPTS = [
  { lineWidth: 100 }, { setextH1: false, fenceChar: "`" }, { lineWidth: false, curlyDoubleQuotes: true }, { headingProperNouns: ["Swift", "Go"], dashSetting: "--" },
  {}, { orderedListPad: "start", emDash: false, nested: { a: [1, { b: null }] } }, { thematicBreakStyle: "* * *", leadingSpaces: 0 },
];
// how each step of a load attempt may fail
const LOADF = { stub: ["ok", "reject", "throw", "garbage"], node: ["ok", "reject", "garbage"], web: ["ok", "reject", "garbage", "body"] };

export function gen(rng) {
  const variant = rng.pick(["stub", "stub", "node", "web"]);
  const ncalls = 1 + rng.below(rng.chance(1, 3) ? 8 : 4);
  const calls = [];
  for (let i = 0; i < ncalls; i++) {
    const fn = rng.pick(FNS);
    calls.push({
      fn, opts: rng.below(OPTS.length + 2) - 2, frozen: rng.chance(1, 6),
      cb: fn === "formatWithCodeFormatter" ? rng.below(5) : 0, // 0 none, 1 upper-cases, 2 declines, 3 throws, 4 undefined
      fail: rng.chance(1, 8), retry: rng.chance(1, 2) ? rng.below(4) : 0, lazy: rng.chance(1, 5),
    });
  }
  const nf = rng.below(4);
  const attempts = [];
  for (let i = 0; i < nf; i++) {
    const load = rng.chance(2, 3) ? rng.pick(LOADF[variant]) : "ok";
    attempts.push({ load, init: load === "ok" && rng.chance(1, 2) ? rng.pick(["ok", "reject", "throw"]) : "ok", delay: rng.chance(1, 3) ? 1 + rng.below(5000) : 0, hops: rng.below(4), why: rng.below(5) });
  }
  return { variant, calls, attempts, nodrain: rng.chance(1, 4), late: rng.chance(1, 2) ? rng.below(3) : 0, seed: rng.u32(), schedule: null };
}

const WHY = [
  (m) => new Error(m), (m) => Object.assign(new Error(m), { code: "EMFILE" }), (m) => new TypeError(m), (m) => Object.freeze(new Error(m)), (m) => m,
];

// A refusal carries the cause if it is the error itself, has it somewhere in its chain of causes, or quotes it.
function carries(e, cause, depth = 0) {
  if (e === cause) return true;
  if (e == null || depth > 5) return false;
  const text = typeof cause === "string" ? cause : cause.message;
  if (String(e && e.message !== undefined ? e.message : e).includes(text)) return true;
  if (typeof e === "object" && e.cause !== undefined && carries(e.cause, cause, depth + 1)) return true;
  return typeof e === "object" && Array.isArray(e.errors) && e.errors.some((x) => carries(x, cause, depth + 1));
}

const canon = (v) => JSON.stringify(v, (k, x) => (typeof x === "function" ? "[function]" : x && typeof x === "object" && !Array.isArray(x) ? Object.fromEntries(Object.entries(x).filter(([, y]) => y !== undefined).sort(([a], [b]) => (a < b ? -1 : 1))) : x));

let unhandled = [];
process.on("unhandledRejection", (e) => unhandled.push(e));
const turn = () => new Promise((r) => setImmediate(r));

export async function run(plan) {
  const rng = new Rng(plan.seed);
  const trace = [], violations = [], counts = {};
  const count = (k) => { counts[k] = (counts[k] || 0) + 1; };
  const bad = (m) => { if (violations.length < 4 && !violations.includes(m)) violations.push(m); };
  let now = 0, pos = 0;
  const taken = [];
  const choose = (n) => {
    if (n <= 1) return 0;
    let c;
    if (plan.schedule) c = pos < plan.schedule.length ? plan.schedule[pos] % n : 0;
    else c = rng.below(n);
    pos++;
    taken.push(c);
    return c;
  };
  // ---- the simulated world ----
  const pending = []; // {label, due, go}
  let nLoads = 0, nInits = 0, goodLoads = 0, goodInits = 0, initDone = false, failedInits = 0;
  const failures = []; // {error, drained, label}
  const attempt = (i) => plan.attempts[i] || { load: "ok", init: "ok", delay: 0, hops: 0, why: 0 };
  let drained = 0; // number of completed drains
  const op = (label, a, outcome) =>
    new Promise((resolve, reject) => {
      pending.push({
        label, due: now + (a.delay || 0), go() {
          let hops = a.hops || 0;
          const fin = () => { if (hops-- > 0) Promise.resolve().then(fin); else outcome(resolve, reject); };
          fin();
        },
      });
    });
  const failed = (label, a) => {
    const error = WHY[a.why || 0](`${label} failed`);
    failures.push({ error, label, at: drained, seenBy: new Set(), waiting: calls.filter((c) => c.state === "waiting" && c.issuedAt < drained) });
    count(label.replace(/ \d+$/, "") + " failed");
    trace.push(`  ${label} fails`);
    return error;
  };
  const loaded = (i, label) => { goodLoads++; trace.push(`  ${label} succeeds`); };
  const bytes = (garbage) => {
    // a view into a larger pool, as Node's Buffers are
    const data = garbage ? new TextEncoder().encode("<!DOCTYPE html>404") : GOOD;
    const pool = new Uint8Array(64).fill(0xee);
    pool.set(data, 16);
    return Buffer.from(pool.buffer, 16, data.length);
  };
  const asArrayBuffer = (b) => b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength);
  const sim = {
    load() {
      const i = nLoads++, a = attempt(i), label = `load ${i}`;
      trace.push(`  ${label} starts`);
      if (a.load === "throw") throw failed(label, a);
      return op(label, a, (res, rej) => {
        if (a.load === "reject") return rej(failed(label, a));
        if (a.load !== "ok") { count("garbage module"); trace.push(`  ${label} yields garbage`); return res(asArrayBuffer(bytes(true))); }
        loaded(i, label);
        res(asArrayBuffer(bytes(false)));
      });
    },
    init(arg, ...more) {
      const i = nInits++;
      // attempts are numbered by the load which precedes them
      const a = attempt(Math.max(0, nLoads - 1)), label = `init ${i}`;
      trace.push(`  ${label} starts`);
      let data = arg;
      if (data && typeof data === "object" && !(data instanceof ArrayBuffer) && !ArrayBuffer.isView(data) && "module_or_path" in data) data = data.module_or_path;
      if (a.init === "throw") { failedInits++; throw failed(label, a); }
      return op(label, { ...a, delay: 0 }, async (res, rej) => {
        if (a.init === "reject") { failedInits++; return rej(failed(label, a)); }
        data = await data;
        const u = data instanceof ArrayBuffer ? new Uint8Array(data) : ArrayBuffer.isView(data) ? new Uint8Array(data.buffer, data.byteOffset, data.byteLength) : null;
        const same = u && u.length === GOOD.length && u.every((x, k) => x === GOOD[k]);
        if (!same) {
          failedInits++;
          if (!u) bad(`initialisation was given ${Object.prototype.toString.call(data)} instead of the module's bytes`);
          else if (a.load === "ok" || a.load === "body") bad(`initialisation was given ${u.length} bytes which are not the module's`);
          return rej(failed(label, a));
        }
        goodInits++;
        initDone = true;
        trace.push(`  ${label} succeeds`);
        if (goodInits > 1) bad("the module was initialised twice");
        if (goodLoads > 1 + failedInits) bad("the module was loaded twice");
        res({});
      });
    },
    initSync(arg) {
      const data = arg && arg.module_or_path !== undefined ? arg.module_or_path : arg && arg.module !== undefined ? arg.module : arg;
      const i = nInits++, a = attempt(Math.max(0, nLoads - 1)), label = `init ${i}`;
      if (a.init !== "ok") { failedInits++; throw failed(label, a); }
      const u = data instanceof ArrayBuffer ? new Uint8Array(data) : data;
      if (!(u instanceof Uint8Array) || u.length !== GOOD.length || !u.every((x, k) => x === GOOD[k])) { failedInits++; throw failed(label, a); }
      goodInits++; initDone = true;
      if (goodInits > 1) bad("the module was initialised twice");
      return {};
    },
    pkg(fn, args) {
      const [input, options, cb] = args;
      trace.push(`  formatter: ${fn}(${JSON.stringify(input)})`);
      const call = calls.find((c) => c.input === input);
      if (!initDone) { bad(`${fn} reached the formatter before initialisation had completed`); throw new Error("wasm is not initialised"); }
      if (!call) { bad(`the formatter was called with an input nobody gave: ${JSON.stringify(input)}`); return "?"; }
      call.reached++;
      if (call.reached > 1) bad(`call ${call.id} reached the formatter ${call.reached} times`);
      if (fn !== call.fn) bad(`call ${call.id} of ${call.fn} reached ${fn}`);
      const want = call.options === undefined ? {} : { ...call.options };
      delete want.codeFormatter;
      const got = options === undefined || options === null ? {} : options;
      if (canon(got) !== canon(want)) bad(`call ${call.id} gave options ${canon(want)} but the formatter received ${canon(got)}`);
      if (call.fail) throw call.ownError;
      let extra = "";
      if (fn === "formatWithCodeFormatter") {
        if (call.cbFn) {
          if (typeof cb !== "function") bad(`call ${call.id} gave a code formatter but the formatter received ${cb}`);
          else {
            let mine, theirs;
            call.cbCalls = 0;
            try { mine = ["=", call.cbRaw("js", "x=" + call.id)]; } catch (e) { mine = ["!", e]; }
            try { theirs = ["=", cb("js", "x=" + call.id)]; } catch (e) { theirs = ["!", e]; }
            if (mine[0] !== theirs[0] || mine[1] !== theirs[1]) bad(`call ${call.id}: the code formatter passed on answers ${theirs} where the caller's answers ${mine}`);
            if (call.cbCalls !== 1) bad(`call ${call.id}: the caller's code formatter was called ${call.cbCalls} times for one block`);
          }
        } else if (cb !== null && cb !== undefined) bad(`call ${call.id} gave no code formatter but the formatter received one`);
        extra = "+cb" + (call.cbFn ? 1 : 0);
      }
      call.result = fn === "format" ? `<${input}>${canon(want)}` : { output: `<${input}>${canon(want)}${extra}`, warnings: [{ line: call.id, message: "w" + call.id }] };
      return call.result;
    },
  };
  const isFile = (p) => {
    const s = p instanceof URL || (p && p.href) ? url.fileURLToPath(p.href) : String(p);
    return path.resolve(s) === FILE;
  };
  const readFile = (p, o) => {
    const i = nLoads++, a = attempt(i), label = `load ${i}`;
    trace.push(`  ${label} starts (read ${p})`);
    return op(label, a, (res, rej) => {
      if (!isFile(p)) { const e = failed(label, a); bad(`the loader reads ${p}, not the module beside it`); return rej(e); }
      if (a.load === "reject") return rej(failed(label, a));
      let b = bytes(a.load !== "ok");
      if (a.load === "ok") loaded(i, label); else { count("garbage module"); trace.push(`  ${label} yields garbage`); }
      const enc = typeof o === "string" ? o : o && o.encoding;
      res(enc && enc !== "buffer" ? b.toString(enc) : b);
    });
  };
  const fsp = { readFile };
  const fetchSim = (u) => {
    const i = nLoads++, a = attempt(i), label = `load ${i}`;
    trace.push(`  ${label} starts (fetch ${u && u.href ? u.href : u})`);
    return op(label, a, (res, rej) => {
      if (a.load === "reject") return rej(failed(label, a));
      let ok = false;
      try { ok = isFile(new URL(u && u.url ? u.url : u)); } catch { /* not a URL */ }
      if (!ok) { bad(`the loader fetches ${u}, not the module beside it`); return rej(failed(label, a)); }
      const garbage = a.load === "garbage";
      if (garbage) { count("garbage module"); trace.push(`  ${label} answers 404`); }
      const body = () => op(`body ${i}`, { ...a, delay: 0 }, (rs, rj) => {
        if (a.load === "body") return rj(failed(`body ${i}`, a));
        if (!garbage) loaded(i, label);
        rs(asArrayBuffer(bytes(garbage)));
      });
      res({ ok: !garbage, status: garbage ? 404 : 200, statusText: garbage ? "Not Found" : "OK", url: String(u), headers: new Map(), arrayBuffer: body, bytes: () => body().then((b) => new Uint8Array(b)), blob: async () => ({ arrayBuffer: body }) });
    });
  };
  let nextTimer = 1;
  const setTimeoutSim = (f, ms = 0, ...args) => { const id = nextTimer++; pending.push({ label: `timer ${id}`, timer: id, due: now + (Number(ms) || 0), go: () => f(...args) }); return id; };
  const clearTimeoutSim = (id) => { const k = pending.findIndex((p) => p.timer === id); if (k >= 0) pending.splice(k, 1); };
  class DateSim extends Date { constructor(...a) { if (a.length) super(...a); else super(1.7e12 + now); } static now() { return 1.7e12 + now; } }
  const req = (id) => {
    const name = id.replace(/^node:/, "");
    if (name === "fs/promises") return fsp;
    if (name === "fs") return { promises: fsp, readFile: (p, o, cb) => { if (!cb) { cb = o; o = undefined; } readFile(p, o).then((b) => cb(null, b), (e) => cb(e)); } };
    if (["path", "url", "buffer", "util", "path/posix"].includes(name)) return nodeRequire(id);
    throw new Error(`no stand-in for module ${id}`);
  };
  // ---- the clients ----
  const calls = [];
  let api;
  const issue = (spec, retries, parent) => {
    const id = calls.length;
    const c = { id, fn: spec.fn, input: `# doc ${id}`, state: "waiting", reached: 0, issuedAt: drained, fail: !!spec.fail, retries, spec, observed: parent ? new Set(parent.observed) : new Set() };
    let options = spec.opts === -2 ? undefined : spec.opts === -1 ? {} : structuredClone(OPTS[spec.opts]);
    c.ownError = new Error(`refused: options of call ${id}`);
    if (spec.cb) {
      c.cbCalls = 0;
      const cbError = new Error("callback " + id);
      c.cbRaw = (lang, code) => { if (spec.cb === 3) throw cbError; return spec.cb === 1 ? lang + code.toUpperCase() : spec.cb === 2 ? null : undefined; };
      c.cbFn = (lang, code) => { c.cbCalls++; return c.cbRaw(lang, code); };
      options = { ...(options || {}), codeFormatter: c.cbFn };
    }
    c.options = options;
    c.snapshot = canon(options);
    if (spec.frozen && options) Object.freeze(options);
    calls.push(c);
    trace.push(`call ${id}: ${spec.fn}(${JSON.stringify(c.input)}, ${canon(options)})`);
    let p;
    try {
      p = options === undefined ? api[spec.fn](c.input) : api[spec.fn](c.input, options);
      if (!p || typeof p.then !== "function") { bad(`call ${id} did not return a promise`); return; }
    } catch (e) {
      bad(`call ${id} threw synchronously: ${e}`);
      return;
    }
    p.then((v) => {
      c.state = "resolved"; c.value = v;
      trace.push(`call ${id} resolves`);
      if (!c.reached) bad(`call ${id} resolved without reaching the formatter`);
      else if (c.fail) bad(`call ${id} resolved although the formatter refused its arguments`);
      else if (canon(v) !== canon(c.result)) bad(`call ${id} resolved with ${canon(v)} instead of ${canon(c.result)}`);
    }, (e) => {
      c.state = "rejected";
      trace.push(`call ${id} rejects: ${e && e.message !== undefined ? e.message : e}`);
      if (c.fail && c.reached) { if (!carries(e, c.ownError)) bad(`call ${id} rejected with ${e} instead of its own error`); return; }
      const f = failures.filter((x) => carries(e, x.error) && !c.observed.has(x));
      const live = f.filter((x) => x.at >= c.issuedAt);
      if (!failures.some((x) => carries(e, x.error))) bad(`call ${id} rejected without the cause of any failed load: ${e}`);
      else if (!live.length) bad(`call ${id}, made after that attempt had failed, rejected with its error (${e && e.message !== undefined ? e.message : e})`);
      if (c.retries > 0) {
        count("immediate retry");
        for (const x of failures) if (carries(e, x.error)) c.observed.add(x);
        issue(spec, c.retries - 1, c);
      }
    });
  };
  // ---- the run ----
  unhandled = [];
  const g = {};
  const mod = { exports: {} };
  const consoleSim = new Proxy({}, { get: () => () => {} });
  try {
    scripts[plan.variant](req, mod, mod.exports, sim, g, fetchSim, setTimeoutSim, clearTimeoutSim, setTimeoutSim, clearTimeoutSim, (f, ...a) => setTimeoutSim(f, 0, ...a), queueMicrotask, DateSim, { now: () => now }, { env: {}, platform: "linux", versions: plan.variant === "web" ? {} : { node: "22.0.0" } }, consoleSim, undefined, undefined, undefined);
  } catch (e) {
    bad(`importing the module failed: ${e}`);
  }
  api = mod.exports;
  if (FNS.some((f) => typeof api[f] !== "function")) bad(`the module does not export ${FNS.filter((f) => typeof api[f] !== "function")}`);
  const queue = plan.calls.filter((c) => !c.lazy);
  const lazy = plan.calls.filter((c) => c.lazy);
  let guard = 0;
  const drain = async () => { await turn(); drained++; };
  while (!violations.length && guard++ < 400) {
    const ready = pending.filter((p) => !p.timer || p.due <= now);
    const timers = pending.filter((p) => p.timer && p.due > now);
    let n = queue.length ? 1 : 0;
    const total = n + ready.length + (timers.length ? 1 : 0);
    if (!total) {
      // quiescent: whatever was asked must have been answered
      await drain();
      if (pending.length) continue;
      const stuck = calls.filter((c) => c.state === "waiting");
      if (stuck.length) { bad(`call ${stuck[0].id} never settles: nothing is left to wait for`); break; }
      if (lazy.length) { queue.push(lazy.shift()); continue; }
      break;
    }
    const k = choose(total);
    if (k < n) {
      const s = queue.shift();
      issue(s, s.retry || 0, null);
    } else if (k < n + ready.length) {
      const p = ready[k - n];
      pending.splice(pending.indexOf(p), 1);
      if (p.due > now) now = p.due;
      trace.push(`complete ${p.label}`);
      p.go();
    } else {
      const p = timers.reduce((a, b) => (b.due < a.due ? b : a));
      now = p.due;
      pending.splice(pending.indexOf(p), 1);
      trace.push(`${p.label} fires at ${now}`);
      p.go();
    }
    if (!(plan.nodrain && choose(3) === 0)) await drain();
  }
  await drain();
  if (!violations.length) {
    if (guard >= 400) bad("the run does not come to rest");
    for (const f of failures) for (const c of f.waiting) if (c.state === "resolved" ) bad(`call ${c.id} was waiting when ${f.label} failed but resolved`);
    // once the faults are over the module must work
    for (let i = 0; i < 2 + (plan.late || 0) && !violations.length; i++) {
      let left = plan.attempts.length + 2;
      for (;;) {
        const before = calls.length;
        issue({ fn: FNS[(i + (plan.late || 0)) % 3], opts: i === 0 ? -2 : 0, cb: 0 }, 0, null);
        const c = calls[before];
        for (let k = 0; k < 60 && c.state === "waiting" && !violations.length; k++) {
          await drain();
          if (pending.length) {
            const p = pending.reduce((a, b) => (b.due < a.due ? b : a));
            pending.splice(pending.indexOf(p), 1);
            now = Math.max(now, p.due);
            p.go();
          }
        }
        await drain();
        if (c.state === "waiting") { bad(`call ${c.id} never settles`); break; }
        if (c.state === "resolved") break;
        if (violations.length) break;
        if (--left < 0) { bad("no call succeeds although loading works again"); break; }
      }
    }
  }
  for (const c of calls) if (c.options && canon(c.options) !== c.snapshot) bad(`call ${c.id}: the caller's options object was modified`);
  if (unhandled.length) bad(`an unhandled rejection (fatal in Node) was left behind: ${unhandled[0]}`);
  const state = `${goodLoads}/${goodInits}/${failures.length}/` + calls.map((c) => c.fn[c.fn.length - 1] + c.state[2]).join("");
  return { violations, trace, taken, stats: { counts, sim_ms: now, nontrivial: calls.length > 3 || failures.length > 0, state } };
}

export function* shrink(plan) {
  // make the schedule explicit first
  if (!plan.schedule) { for (const s of [[], [1], [0, 1], [1, 1], [2], [0, 0, 1], [1, 0, 1], [0, 1, 1]]) yield { ...plan, nodrain: false, schedule: s }; }
  for (let i = 0; i < plan.calls.length; i++) if (plan.calls.length > 1) yield { ...plan, calls: plan.calls.filter((_, k) => k !== i) };
  for (let i = 0; i < plan.attempts.length; i++) yield { ...plan, attempts: plan.attempts.filter((_, k) => k !== i) };
  if (plan.variant !== "stub") yield { ...plan, variant: "stub", attempts: plan.attempts.map((a) => ({ ...a, load: a.load === "body" ? "reject" : a.load })) };
  if (plan.nodrain) yield { ...plan, nodrain: false };
  if (plan.late) yield { ...plan, late: 0 };
  for (let i = 0; i < plan.attempts.length; i++) {
    const a = plan.attempts[i];
    for (const b of [{ ...a, delay: 0 }, { ...a, hops: 0 }, { ...a, why: 0 }, { ...a, load: "ok" }, { ...a, init: "ok" }, { ...a, load: a.load === "ok" ? "ok" : "reject" }])
      if (JSON.stringify(a) !== JSON.stringify(b)) yield { ...plan, attempts: plan.attempts.map((x, k) => (k === i ? b : x)) };
  }
  for (let i = 0; i < plan.calls.length; i++) {
    const a = plan.calls[i];
    for (const b of [{ ...a, retry: 0 }, { ...a, retry: Math.min(a.retry, 1) }, { ...a, fail: false }, { ...a, frozen: false }, { ...a, lazy: false }, { ...a, cb: 0 }, { ...a, cb: Math.min(a.cb, 1) }, { ...a, opts: -2 }, { ...a, fn: "format", cb: 0 }])
      if (JSON.stringify(a) !== JSON.stringify(b)) yield { ...plan, calls: plan.calls.map((x, k) => (k === i ? b : x)) };
  }
  if (plan.schedule) {
    for (let i = 0; i < plan.schedule.length; i++) yield { ...plan, schedule: plan.schedule.slice(0, i) };
    for (let i = 0; i < plan.schedule.length; i++) if (plan.schedule[i]) yield { ...plan, schedule: plan.schedule.map((x, k) => (k === i ? 0 : x)) };
  }
}

export const rule = "one evaluation = one run of packages/wasm/src/index.ts with a stub, the Node or the web loader: a random set of calls, the completion order of every asynchronous step and the faults chosen from the seed; distinct = different sequence of events among the runs with more than one client call or a failure";
export const real = "packages/wasm/src/index.ts, loader-node.ts and loader-web.ts of the working tree, bundled by esbuild";
export const stubs = "the wasm-bindgen module (pkg/hongdown.js), node:fs/promises, fetch, timers and clock";
