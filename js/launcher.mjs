// C18: packages/hongdown/bin/hongdown.js in a simulated process on any platform, with a stand-in for process creation.
import vm from "node:vm";
import path from "node:path";
import url from "node:url";
import util from "node:util";
import { EventEmitter } from "node:events";
import { esbuild, REPO } from "./common.mjs";

const BIN = path.join(REPO, "packages/hongdown/bin/hongdown.js");
const SELF = "/sim/node_modules/hongdown/bin/hongdown.js";
let script;
export async function prepare() {
  const r = await esbuild.build({
    entryPoints: [BIN], bundle: true, write: false, format: "esm", platform: "neutral", target: "es2022", logLevel: "silent",
    plugins: [{ name: "sim", setup(b) {
      b.onResolve({ filter: /^(node:)?[a-z_]+(\/[a-z_]+)?$/ }, (a) => a.kind === "entry-point" ? null : { path: a.path, external: true });
    } }],
  });
  // static imports become calls of __import; the rest runs as an async function so that top-level await works
  let text = r.outputFiles[0].text.replace(/^#!.*\n/, "");
  const t = await esbuild.transform(text, { format: "esm", supported: { "import-meta": true }, define: { "import.meta.url": "__meta.url", "import.meta.resolve": "__meta.resolve", "import.meta.dirname": "__meta.dirname", "import.meta.filename": "__meta.filename" } });
  text = t.code
    .replace(/^import\s+\*\s+as\s+([\w$]+)\s+from\s+("[^"]+");?/gm, "const $1 = __import($2);")
    .replace(/^import\s+([\w$]+)\s*,\s*\{([^}]*)\}\s*from\s+("[^"]+");?/gm, (m, d, n, s) => `const ${d} = __import(${s}).default; const {${n.replace(/\s+as\s+/g, ": ")}} = __import(${s});`)
    .replace(/^import\s+\{([^}]*)\}\s*from\s+("[^"]+");?/gm, (m, n, s) => `const {${n.replace(/\s+as\s+/g, ": ")}} = __import(${s});`)
    .replace(/^import\s+([\w$]+)\s+from\s+("[^"]+");?/gm, "const $1 = __import($2).default;")
    .replace(/^import\s+("[^"]+");?/gm, "__import($1);");
  script = vm.compileFunction(`return (async () => {${text}\n})();`, ["__import", "__meta", "process", "console", "globalThis", "setTimeout", "clearTimeout", "setImmediate"], { filename: "hongdown.js" });
}

const SUPPORTED = ["darwin-arm64", "darwin-x64", "linux-arm64", "linux-x64", "win32-arm64", "win32-x64"];
const ARGS = [
  [], ["--version"], ["--check", "README.md"], ["-w", "a b.md", "c\"d.md", "e'f.md"], ["--", "-x.md"], ["", " ", "\t"], ["--stdin"], ["héllo.md", "日本語.md", "😀.md"],
  ["a\nb.md", "$HOME", "*.md", "`x`", "%PATH%", "a;b", "a&b", "a|b", "\\", "\\\\srv\\x"], ["--line-width", "100", "--config=x.toml"], Array.from({ length: 300 }, (_, i) => `f${i}.md`),
  ["--help", "node", SELF, "hongdown"], ["x".repeat(5000)], ["-", "--", "--", "-"],
];
const OUTCOMES = [
  { status: 0 }, { status: 1 }, { status: 2 }, { status: 3 }, { status: 42 }, { status: 101 }, { status: 127 }, { status: 255 }, { status: 134 }, { status: 3221225477 },
  { signal: "SIGTERM" }, { signal: "SIGKILL" }, { signal: "SIGSEGV" }, { signal: "SIGINT" }, { signal: "SIGPIPE" }, { signal: "SIGABRT" },
  { error: "ENOENT" }, { error: "EACCES" }, { error: "ENOEXEC" }, { error: "EAGAIN" }, { error: "ENOMEM" }, { error: "EMFILE" }, { error: "E2BIG" }, { error: "UNKNOWN" }, { error: "ETXTBSY" }, { throws: "ERR_INVALID_ARG_VALUE" }, { none: true },
];
const MISSING = ["MODULE_NOT_FOUND", "ERR_PACKAGE_PATH_NOT_EXPORTED", "EACCES"];

export function enumerated() {
  const all = [];
  for (const key of SUPPORTED) for (const outcome of OUTCOMES) all.push({ key, args: ["--check", "a b.md"], outcome, installed: [key], latency: 1 });
  for (const key of SUPPORTED) for (const args of ARGS) all.push({ key, args, outcome: { status: 0 }, installed: [key], latency: 1 });
  for (const key of SUPPORTED) for (const why of MISSING) all.push({ key, args: ["x.md"], outcome: { status: 0 }, installed: [], why, latency: 1 });
  for (const key of ["freebsd-x64", "linux-riscv64", "linux-ia32", "aix-ppc64", "android-arm64", "sunos-x64", "win32-ia32", "darwin-x32"]) all.push({ key, args: ["x.md"], outcome: { status: 0 }, installed: SUPPORTED, latency: 1 });
  return all;
}

export function gen(rng) {
  const key = rng.chance(9, 10) ? rng.pick(SUPPORTED) : rng.pick(["freebsd-x64", "linux-riscv64", "linux-arm", "win32-ia32", "openbsd-arm64"]);
  let args;
  if (rng.chance(1, 3)) args = rng.pick(ARGS);
  else {
    args = [];
    for (let n = rng.below(7); n > 0; n--) {
      let s = "";
      for (let k = rng.below(10); k > 0; k--) s += rng.chance(1, 3) ? rng.pick([" ", "\"", "'", "\\", "-", "=", "é", "\u0301", "😀", "%", "$", "^", "!", "(", "\n", "\ufffd", "\u202e"]) : String.fromCharCode(33 + rng.below(94));
      args.push(s);
    }
  }
  let outcome = rng.pick(OUTCOMES);
  if (rng.chance(1, 4)) outcome = { status: rng.below(256) };
  const roll = rng.below(12);
  const installed = roll === 0 ? [] : roll === 1 ? SUPPORTED.filter((k) => k !== key) : roll < 5 ? SUPPORTED : [key];
  return { key, args, outcome, installed, why: rng.pick(MISSING), latency: rng.below(100000), execArgv: rng.chance(1, 5) ? ["--max-old-space-size=64"] : [], twice: rng.chance(1, 10), exitCode: rng.chance(1, 10) ? 7 : undefined };
}

const ERRNO = { ENOENT: -2, EACCES: -13, ENOEXEC: -8, EAGAIN: -11, ENOMEM: -12, EMFILE: -24, E2BIG: -7, UNKNOWN: -4094, ETXTBSY: -26 };

export async function run(plan) {
  const [platform, arch] = [plan.key.slice(0, plan.key.indexOf("-")), plan.key.slice(plan.key.indexOf("-") + 1)];
  const trace = [], violations = [], counts = {};
  const count = (k) => { counts[k] = (counts[k] || 0) + 1; };
  const bad = (m) => { if (violations.length < 4 && !violations.includes(m)) violations.push(m); };
  let exited = null, stderr = "", stdout = "", now = 0, killedSelf = null;
  const spawned = [];
  const pending = [];
  const dead = () => exited !== null || killedSelf !== null;
  const NEVER = new Promise(() => {});
  class Gone extends Error {}
  const env = { PATH: "/usr/bin", HOME: "/home/u", NODE_OPTIONS: "", X: "1" };
  const supported = SUPPORTED.includes(plan.key);
  const exe = platform === "win32" ? "hongdown.exe" : "hongdown";
  const binary = (k) => `/sim/node_modules/@hongdown/${k}/bin/${k.startsWith("win32") ? "hongdown.exe" : "hongdown"}`;
  const resolve = (id) => {
    trace.push(`resolve ${id}`);
    const m = /^@hongdown\/([a-z0-9-]+)(\/.*)?$/.exec(id);
    if (!m || !plan.installed.includes(m[1]) || !(m[2] === "/package.json" || `/sim/node_modules/@hongdown/${m[1]}${m[2]}` === binary(m[1]))) {
      count("binary not found");
      throw Object.assign(new Error(`Cannot find module '${id}'`), { code: plan.why || "MODULE_NOT_FOUND" });
    }
    return `/sim/node_modules/@hongdown/${m[1]}${m[2]}`;
  };
  const errnoErr = (call, file, code) => Object.assign(new Error(`${call} ${file} ${code}`), { errno: ERRNO[code], code, syscall: `${call} ${file}`, path: file });
  const start = (how, file, args, opts) => {
    if (dead()) return;
    if (!Array.isArray(args)) { opts = args; args = []; }
    spawned.push({ how, file, args: [...args], opts: opts || {} });
    trace.push(`${how} ${file} ${JSON.stringify(args).slice(0, 300)} ${JSON.stringify(opts || {}, (k, v) => (k === "env" ? "..." : v))}`);
  };
  const cp = {
    spawnSync(file, args, opts) {
      start("spawnSync", file, args, opts);
      now += plan.latency;
      const o = plan.outcome;
      if (o.throws) { count("spawn throws"); throw Object.assign(new TypeError("The argument 'args[0]' must be a string without null bytes"), { code: o.throws }); }
      const streams = { pid: 4242, output: [null, null, null], stdout: null, stderr: null };
      if (o.error) { count("spawn " + o.error); return { ...streams, pid: 0, output: null, status: null, signal: null, error: errnoErr("spawnSync", file, o.error) }; }
      if (o.none) { count("no status"); return { ...streams, status: null, signal: null }; }
      if (o.signal) { count("died of " + o.signal); return { ...streams, status: null, signal: o.signal }; }
      count("status " + (o.status === 0 ? "0" : "non-zero"));
      return { ...streams, status: o.status, signal: null };
    },
    spawn(file, args, opts) {
      start("spawn", file, args, opts);
      const o = plan.outcome, ch = new EventEmitter();
      if (o.throws) throw Object.assign(new TypeError("bad argument"), { code: o.throws });
      ch.pid = o.error ? undefined : 4242;
      ch.kill = () => true; ch.stdin = ch.stdout = ch.stderr = null; ch.exitCode = null; ch.signalCode = null;
      pending.push(() => {
        now += plan.latency;
        if (o.error) return void ch.emit("error", errnoErr("spawn", file, o.error));
        ch.exitCode = o.status ?? null; ch.signalCode = o.signal ?? null;
        ch.emit("exit", o.status ?? null, o.signal ?? null);
        pending.push(() => ch.emit("close", o.status ?? null, o.signal ?? null));
      });
      return ch;
    },
    execFileSync(file, args, opts) {
      const r = cp.spawnSync(file, args, opts);
      spawned[spawned.length - 1].how = "execFileSync";
      if (r.error) throw r.error;
      if (r.status !== 0) throw Object.assign(new Error("Command failed: " + file), r);
      return null;
    },
  };
  cp.default = cp;
  const proc = Object.assign(new EventEmitter(), {
    platform, arch, env: { ...env }, argv: ["/usr/bin/node", SELF, ...plan.args], argv0: "node", execArgv: plan.execArgv || [], execPath: "/usr/bin/node", pid: 99, exitCode: undefined,
    version: process.version, versions: process.versions, release: { name: "node" }, cwd: () => "/home/u",
    exit(c) { if (!dead()) { exited = c === undefined ? proc.exitCode ?? 0 : c; trace.push(`exit ${exited}`); } throw new Gone(); },
    kill(pid, sig) { if (!dead() && pid === 99) { killedSelf = sig || "SIGTERM"; trace.push(`kills itself with ${killedSelf}`); } },
    abort() { if (!dead()) killedSelf = "SIGABRT"; },
    stdin: { fd: 0 },
    stdout: { fd: 1, write: (s, ...a) => { if (!dead()) stdout += s; a.filter((x) => typeof x === "function").forEach((f) => f()); return true; } },
    stderr: { fd: 2, write: (s, ...a) => { if (!dead()) stderr += s; a.filter((x) => typeof x === "function").forEach((f) => f()); return true; } },
    nextTick: (f, ...a) => process.nextTick(() => { try { f(...a); } catch (e) { crash(e); } }), emitWarning() {}, getuid: () => 1000, report: { getReport: () => ({ header: { glibcVersionRuntime: "2.39" } }) },
    hrtime: Object.assign(() => [0, 0], { bigint: () => BigInt(now) * 1000000n }), uptime: () => now / 1000, memoryUsage: () => ({}),
  });
  proc.default = proc;
  const crash = (e) => { if (e instanceof Gone) return; if (!dead()) { trace.push(`uncaught ${e}`); stderr += `Uncaught ${e && e.stack}\n`; exited = 1; } };
  const fsStub = { existsSync: (p) => p.startsWith("/sim/node_modules/@hongdown/") ? plan.installed.some((k) => binary(k) === p) : p === SELF, accessSync() {}, chmodSync() {}, constants: { X_OK: 1 }, readFileSync: () => { throw errnoErr("open", "?", "ENOENT"); }, realpathSync: (p) => p, statSync: () => ({ mode: 0o755, isFile: () => true }), writeSync: (fd, s) => { if (!dead()) { if (fd === 2) stderr += s; else if (fd === 1) stdout += s; } return s.length; } };
  fsStub.default = fsStub;
  const req = Object.assign((id) => imp(id), { resolve });
  const mods = {
    child_process: cp, process: proc, fs: fsStub, module: { createRequire: (from) => { trace.push("createRequire"); return req; }, default: { createRequire: () => req } },
    path: { ...path, default: path }, url: { ...url, default: url }, util: { ...util, default: util }, os: { platform: () => platform, arch: () => arch, constants: { signals: { SIGHUP: 1, SIGINT: 2, SIGABRT: 6, SIGKILL: 9, SIGSEGV: 11, SIGPIPE: 13, SIGTERM: 15 } }, EOL: "\n" },
  };
  mods.os.default = mods.os;
  const imp = (id) => {
    const m = mods[id.replace(/^node:/, "")];
    if (!m) { trace.push(`import ${id}`); throw new Error(`no stand-in for module ${id}`); }
    return m;
  };
  const line = (...a) => util.format(...a) + "\n";
  const con = { error: (...a) => { if (!dead()) stderr += line(...a); }, warn: (...a) => { if (!dead()) stderr += line(...a); }, log: (...a) => { if (!dead()) stdout += line(...a); }, info: (...a) => { if (!dead()) stdout += line(...a); }, debug() {} };
  const timer = (f, ms, ...a) => { pending.push(() => f(...a)); return pending.length; };
  let done = false;
  const turn = () => new Promise((r) => setImmediate(r));
  const once = async () => {
    done = false;
    script(imp, { url: "file://" + SELF, dirname: path.dirname(SELF), filename: SELF, resolve: (id) => "file://" + resolve(id) }, proc, con, {}, timer, () => {}, timer)
      .then(() => { done = true; }, (e) => { done = true; crash(e); });
    for (let k = 0; k < 50 && !dead(); k++) {
      await turn();
      if (pending.length) { try { pending.shift()(); } catch (e) { crash(e); } } else if (done) break;
    }
    if (!dead()) {
      exited = done ? proc.exitCode ?? 0 : 13; // what Node answers to an unsettled top-level await
      trace.push(`ends with ${exited}`);
    }
  };
  await once();
  await turn();
  // ---- the judgement ----
  const code = killedSelf ? 128 : typeof exited === "string" ? Number(exited) : exited;
  const startable = supported && plan.installed.includes(plan.key);
  if (!startable) {
    if (spawned.length) bad(`there is no binary for ${plan.key}, yet ${spawned[0].file} was run`);
    if (code === 0) bad(`there is no binary for ${plan.key}, yet the launcher exited with 0`);
    else if (!stderr.trim()) bad(`there is no binary for ${plan.key}, and the launcher failed without a word`);
  } else {
    if (spawned.length !== 1) bad(`the binary was started ${spawned.length} times`);
    if (spawned.length) {
      const s = spawned[0], o = s.opts;
      if (path.resolve(String(s.file)) !== binary(plan.key)) bad(`${s.file} was run instead of ${binary(plan.key)}`);
      if (JSON.stringify(s.args) !== JSON.stringify(plan.args)) bad(`arguments ${JSON.stringify(plan.args).slice(0, 200)} arrived as ${JSON.stringify(s.args).slice(0, 200)}`);
      const st = o.stdio;
      const inherits = st === "inherit" || (Array.isArray(st) && [0, 1, 2].every((k) => st[k] === "inherit" || st[k] === k || (st[k] && st[k].fd === k)));
      if (!inherits) bad(`the binary does not inherit the standard streams: stdio = ${JSON.stringify(st)}`);
      if (o.shell) bad("the binary is run through a shell, which interprets the arguments");
      if (o.windowsVerbatimArguments) bad("the arguments are not quoted on Windows");
      if (o.argv0 !== undefined && o.argv0 !== s.file && o.argv0 !== exe) bad(`argv[0] is ${o.argv0}`);
      if (o.cwd !== undefined && o.cwd !== "/home/u") bad(`the binary runs in ${o.cwd}`);
      if (o.env !== undefined && JSON.stringify(Object.entries({ ...o.env }).sort()) !== JSON.stringify(Object.entries(env).sort())) bad("the binary's environment differs");
      if (o.timeout) bad("the binary is stopped after a while");
      if (o.detached) bad("the binary is detached from the terminal");
      if (o.input !== undefined) bad("the binary's standard input is replaced");
      const r = plan.outcome;
      if (r.status !== undefined) {
        const shown = code >>> 0;
        if (shown !== r.status >>> 0) bad(`the binary exited with ${r.status}, the launcher with ${code}`);
        if (stderr || stdout) bad(`the launcher printed something of its own: ${(stderr || stdout).slice(0, 100)}`);
      } else {
        const what = r.signal ? `died of ${r.signal}` : r.error ? `could not be started (${r.error})` : r.throws ? `could not be started (${r.throws})` : "reported no status";
        if (code === 0 || Number.isNaN(code) || code === undefined || (code & 0xff) === 0) bad(`the binary ${what}, yet the launcher exited with ${code}`);
        if ((r.error || r.throws) && !stderr.trim()) bad(`the binary ${what}, and the launcher failed without a word`);
      }
    }
  }
  return { violations, trace, stats: { counts, sim_ms: now, nontrivial: true, state: `${spawned.length}/${code}/${stderr ? 1 : 0}` } };
}

export function* shrink(plan) {
  for (let i = 0; i < plan.args.length; i++) yield { ...plan, args: plan.args.filter((_, k) => k !== i) };
  for (let i = 0; i < plan.args.length; i++) if (plan.args[i].length > 1) { yield { ...plan, args: plan.args.map((a, k) => (k === i ? a.slice(0, a.length >> 1) : a)) }; yield { ...plan, args: plan.args.map((a, k) => (k === i ? a.slice(1) : a)) }; }
  for (const [k, v] of Object.entries({ latency: 1, execArgv: [], twice: false, exitCode: undefined, key: "linux-x64" })) if (JSON.stringify(plan[k]) !== JSON.stringify(v)) yield { ...plan, [k]: v, ...(k === "key" ? { installed: plan.installed.map((x) => (x === plan.key ? "linux-x64" : x)) } : {}) };
  if (plan.installed.length > 1) yield { ...plan, installed: plan.installed.includes(plan.key) ? [plan.key] : [] };
}

export const rule = "one evaluation = one run of packages/hongdown/bin/hongdown.js in a simulated process: platform, arguments, installed packages and the fate of the started binary chosen from the seed (all platforms x fates, all platforms x argument lists first); distinct = different sequence of events";
export const real = "packages/hongdown/bin/hongdown.js of the working tree";
export const stubs = "child_process, module resolution, fs, os and process";
