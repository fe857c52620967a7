// A session loads a harness in one mode and runs single paths of it.
import path from "node:path";
import fs from "node:fs";
import * as T from "./term.mjs";
import * as R from "./rt.mjs";
import { RX } from "./regex.mjs";
import { GLOBALS, PRELUDE_EXTRA, SymBytes, setPrelude, clock } from "./globals.mjs";
import { E, PathAbort, abort, assertTerm, assume, branch, concretize, declareVar, evalTerm, fullModel, reportViolation, startPath, clearCaches } from "./engine.mjs";
import { Env, nativeGuard, nodeFs, nodeOs, nodePath, nodeUtil, req } from "./env.mjs";
import { Loader, VERIF } from "./loader.mjs";

R.install(RX, GLOBALS);
class AssertFail extends Error { constructor(l) { super("assertion failed: " + l); this.label = l; this.isAssertFail = true; } }
class Infeasible extends Error { constructor() { super("assumption does not hold"); this.isInfeasible = true; } }

const ranges = (a) => {
  // alphabet: string of characters or [[lo,hi],...]
  if (typeof a === "string") {
    const cs = [...new Set([...Array(a.length).keys()].map((i) => a.charCodeAt(i)))].sort((x, y) => x - y);
    const r = [];
    for (const c of cs) { if (r.length && r[r.length - 1][1] === c - 1) r[r.length - 1][1] = c; else r.push([c, c]); }
    return r;
  }
  return a;
};
const ASCII = [[32, 126]];

export class Session {
  constructor(mode, tier) {
    this.mode = mode;
    this.tier = tier;
    this.env = new Env(mode);
    const env = this.env;
    const common = { setTimeout: env.setTimeout, clearTimeout: env.clearTimeout, setInterval: env.setInterval, clearInterval: env.clearTimeout, setImmediate: env.setImmediate, clearImmediate: env.clearTimeout, process: null, fetch: () => { throw new Error("network access"); }, Date: GLOBALS.Date, performance: { now: () => clock.now, mark() {}, measure() {}, timeOrigin: 0 }, console: { log() {}, error() {}, warn() {}, info() {}, debug() {}, trace() {} }, crypto: null, queueMicrotask, Atomics: { wait(_a, _i, _v, ms) { clock.now = clock.now + (ms ?? 0); return "timed-out"; }, notify: () => 0 } };
    const proc = env.makeProcess();
    common.process = proc;
    this.cryptoModel = env.crypto();
    common.crypto = { randomUUID: this.cryptoModel.randomUUID, getRandomValues: this.cryptoModel.getRandomValues, subtle: this.cryptoModel.subtle };
    const globals = mode === "sym" ? { ...GLOBALS, ...common } : { ...common, Math: mathNoRandom };
    this.proc = proc;
    this.loader = new Loader({ mode, globals, rt: R, builtin: (n) => this.builtin(n), external: (n, get) => this.externalMod(n, get), guardEval: (f) => { const sp = E.spec; E.spec = 0; try { return f(); } finally { E.spec = sp; } } });
    // prelude and models
    this.models = new Loader({ mode, globals: { ...globals, ...PRELUDE_EXTRA, __cwd: () => process.cwd(), __nativePath: nodePath, __nativeFs: nodeFs, __path: null }, rt: R, builtin: () => { throw new Error("model requires"); }, external: () => { throw new Error("model requires"); } });
    const dir = path.join(VERIF, "symex");
    if (mode === "sym") {
      this.prelude = this.models.load(path.join(dir, "prelude.js"));
      setPrelude(this.prelude);
      this.pathModel = this.models.load(path.join(dir, "models_path.js"));
    } else this.pathModel = nodePath.posix;
    this.models2 = new Loader({ mode, globals: { ...globals, ...PRELUDE_EXTRA, __path: this.pathModel, __nativeFs: nodeFs }, rt: R, builtin: () => {}, external: () => {} });
    this.fs = this.models2.load(path.join(dir, "models_fs.js"));
    this.externals = new Map();
    this.builtins = new Map();
    this.S = mode === "sym" ? new SymApi(this) : new ConcApi(this);
    this.loader.api = { S: this.S, default: this.S, __esModule: true };
  }
  builtin(n) {
    if (this.builtins.has(n)) return this.builtins.get(n);
    const sym = this.mode === "sym";
    const forbid = (what) => new Proxy({}, { get(_, k) { if (k === "__esModule") return true; if (typeof k === "symbol" || k === "then") return undefined; return function () { throw new Error(`${what}.${String(k)} is not available under verification`); }; } });
    let m;
    switch (n) {
      case "fs": m = this.fs.F; break;
      case "fs/promises": m = this.fs.pr; break;
      case "path": case "path/posix": m = sym ? this.pathModel : { ...nodePath.posix, default: nodePath.posix, posix: nodePath.posix, win32: nodePath.win32, __esModule: true }; break;
      case "os": m = { ...nodeOs, homedir: () => this.env.procEnv.HOME ?? "/home/u", tmpdir: () => "/tmp", hostname: () => "host", platform: () => "linux", __esModule: true }; m.default = m; break;
      case "crypto": m = this.cryptoModel; break;
      case "process": m = this.proc; m.default = m; break;
      case "buffer": m = { Buffer: sym ? GLOBALS.Buffer : Buffer, Blob, constants: { MAX_LENGTH: 2 ** 32 }, isUtf8: () => true, __esModule: true }; break;
      case "util": m = sym ? { ...nativeGuard({ ...nodeUtil }), TextEncoder: GLOBALS.TextEncoder, TextDecoder: GLOBALS.TextDecoder, promisify: nodeUtil.promisify, types: nodeUtil.types, isDeepStrictEqual: (a, b) => this.prelude.deepEqual(a, b), stripVTControlCharacters: (s) => R.m(s, "replace", [new RegExp(ANSI, "g"), ""]), __esModule: true } : { ...nodeUtil, __esModule: true }; m.default = m; break;
      case "child_process": case "net": case "http": case "https": case "dns": case "tls": case "http2": case "worker_threads": case "cluster": case "dgram": case "inspector": case "readline": case "repl": case "sqlite":
        m = forbid("node:" + n); break;
      case "v8": { const v8 = req("node:v8"), size = (v) => typeof v === "string" ? v.length + 3 : Array.isArray(v) ? v.reduce((n, x) => n + size(x), 5) : v instanceof Map ? [...v].reduce((n, [k, x]) => n + size(k) + size(x), 5) : v && typeof v === "object" ? Object.keys(v).reduce((n, k) => n + k.length + 2 + size(v[k]), 5) : this.prelude?.isSymStr?.(v) ? 8 : 4; m = sym ? { serialize: (v) => ({ copy: this.prelude.structuredClone(v), byteLength: size(v) }), deserialize: (b) => this.prelude.structuredClone(b.copy), getHeapStatistics: v8.getHeapStatistics, __esModule: true } : { ...v8, __esModule: true }; break; }
      case "zlib": { // the callback forms give what the synchronous ones give, in a later turn
        const z = req("node:zlib"), plain = (b) => (b instanceof SymBytes ? Buffer.from(b.b.map((x) => R.concNum(x))) : b), o = {};
        for (const k of ["inflateRaw", "deflateRaw", "inflate", "deflate", "gunzip", "gzip", "unzip"]) { o[k + "Sync"] = (b, opt) => { const { maxOutputLength: most, ...rest } = opt ?? {}, r = z[k + "Sync"](plain(b), R.concDeep(rest)); if (most !== undefined && R.t(R.gt(r.length, most))) throw Object.assign(new RangeError("Cannot create a Buffer larger than allowed"), { code: "ERR_BUFFER_TOO_LARGE" }); return r; }; o[k] = (b, opt, cb) => { if (typeof opt === "function") [opt, cb] = [undefined, opt]; b = plain(b); Promise.resolve().then(() => { let r; try { r = o[k + "Sync"](b, opt); } catch (e) { return cb(e); } cb(null, r); }); }; }
        m = { ...nativeGuard({ ...z }), ...o, constants: z.constants, __esModule: true }; break;
      }
      case "timers/promises": m = { setTimeout: (ms, v) => new Promise((r) => this.env.setTimeout(() => r(v), ms)), setImmediate: (v) => new Promise((r) => this.env.setTimeout(() => r(v), 0)), __esModule: true }; break;
      case "timers": m = { setTimeout: this.env.setTimeout, clearTimeout: this.env.clearTimeout, setInterval: this.env.setInterval, clearInterval: this.env.clearTimeout, setImmediate: this.env.setImmediate, __esModule: true }; break;
      case "perf_hooks": m = { performance: { now: () => clock.now, timeOrigin: 0, mark() {}, measure() {} }, PerformanceObserver: class { observe() {} }, monitorEventLoopDelay: () => ({ enable() {}, disable() {}, reset() {}, mean: 0, max: 0, percentile: () => 0 }), __esModule: true }; break;
      case "events": { const ev = req("events"); m = Object.assign(Object.create(null), { EventEmitter: ev.EventEmitter, once: ev.once, on: ev.on, default: ev, __esModule: true }); break; }
      case "async_hooks": case "stream": case "stream/promises": case "diagnostics_channel": case "module": case "constants": case "tty": m = { ...req("node:" + n), default: req("node:" + n), __esModule: true }; break;
      case "assert": m = { ...req("node:assert"), default: req("node:assert"), __esModule: true }; break;
      default: m = nativeGuard({ ...req("node:" + n), default: { ...req("node:" + n) }, __esModule: true });
    }
    if (typeof m === "object" && m !== null && !("default" in m)) { try { m.default = m; } catch {} }
    this.builtins.set(n, m);
    return m;
  }
  externalMod(n, get) {
    if (this.externals.has(n)) return this.externals.get(n);
    let loaded;
    const force = () => {
      if (loaded !== undefined) return loaded;
      if (n === "typebox/compile" && this.mode === "sym") return (loaded = this.typeboxCompile());
      if (n === "proper-lockfile") return (loaded = this.fs.lk);
      if (n === "chalk") { const mk = () => new Proxy((...a) => a.length === 1 ? a[0] : a.join(" "), { get: (_, k) => (k === "level" ? 0 : k === "default" || k === "Chalk" ? mk() : k === "__esModule" ? true : mk()) }); return (loaded = mk()); }
      const x = get();
      return (loaded = this.mode === "sym" ? nativeGuard(x.__esModule ? x : typeof x === "function" ? x : { ...x }, n) : x);
    };
    const p = new Proxy(function () {}, {
      get(_, k) { const x = force(); if (k === "default" && !(k in x)) return x; if (k === "__esModule") return true; return x[k]; },
      apply(_, th, a) { return force()(...a); },
      construct(_, a) { return new (force())(...a); },
      has(_, k) { return k in force(); },
    });
    this.externals.set(n, p);
    return p;
  }
  // Compile() as documented: the compiled validator decides what the dynamic checker decides
  typeboxCompile() {
    this.loader.typeboxSource = true;
    const value = this.loader.forceRequire("typebox/value", this.file);
    const Compile = (...a) => { const [ctx, type] = a.length === 2 ? a : [{}, a[0]]; return { Check: (v) => value.Check(ctx, type, v), Errors: (v) => value.Errors(ctx, type, v), Clean: (v) => value.Clean(ctx, type, v), Convert: (v) => value.Convert(ctx, type, v), Default: (v) => value.Default(ctx, type, v), Create: () => value.Create(ctx, type), Parse: (v) => value.Parse(ctx, type, v), Decode: (v) => value.Decode(ctx, type, v), Encode: (v) => value.Encode(ctx, type, v), Type: () => type, Context: () => ctx }; };
    return { Compile, default: Compile, __esModule: true };
  }
  loadHarness(file) {
    this.file = file;
    this.harness = this.loader.load(file);
    return this.harness;
  }
  // ---- run one path; returns outcome
  async runPath(item, caseName) {
    const S = this.S;
    startPath(item);
    R.resetPlaceholders();
    return this.#go(caseName);
  }
  async runConcrete(model, caseName) {
    E.aborted = null; E.spec = 0; E.steps = 0; E.maxStepsSaved = E.maxSteps;
    this.S.model = model;
    return this.#go(caseName);
  }
  async #go(caseName) {
    const S = this.S;
    S.begin();
    this.env.reset();
    this.fs.reset();
    this.proc.exitCode = undefined;
    this.loader.reset();
    let outcome = { kind: "ok" };
    const lost = []; unhandled = (e) => { if (e && e.isPathAbort) return; if (this.mode === "sym" && E.aborted) return; lost.push(e); };
    try {
      const h = this.loader.load(this.file);
      const c = h.cases[caseName];
      let r = c.run(S, c);
      if (r && typeof r.then === "function") {
        let done = false, err, failed = false;
        r.then(() => { done = true; }, (e) => { done = true; failed = true; err = e; });
        // drain microtasks; fire virtual timers when idle
        for (let n = 0; !done && n < 5000; n++) {
          await tick();
          if (done) break;
          if (E.aborted) { done = true; break; }
          if (S.autoTimers !== false) { if (!this.env.fireNext()) { await tick(); if (!done && n > 80) break; } }
        }
        if (failed) throw err;
        if (E.aborted) throw E.aborted;
        await tick(); // a rejection nobody handles ends a real process
        if (E.aborted) throw E.aborted;
        if (lost.length) { const e = lost[0]; if (e && (e.isAssertFail || e.isInfeasible)) throw e; throw Object.assign(new Error("unhandled rejection: " + errText(e)), { stack: e && e.stack }); }
        if (!done) outcome = { kind: "hang" };
      }
      if (this.mode === "sym" && E.aborted) throw E.aborted;
    } catch (e) {
      const a = this.mode === "sym" ? E.aborted ?? (e && e.isPathAbort ? e : null) : null;
      if (a) outcome = { kind: a.kind, msg: a.message };
      else if (e && e.isAssertFail) outcome = { kind: "assert", label: e.label };
      else if (e && e.isInfeasible) outcome = { kind: "infeasible" };
      else outcome = { kind: "throw", msg: errText(e), stack: (e && e.stack ? String(e.stack) : "").split("\n").slice(0, 12).join("\n") };
    }
    // let orphaned continuations of this path finish before the next one starts
    if (this.mode === "sym" && !E.aborted) E.aborted = new PathAbort("ended");
    if (S.async) { await tick(); await tick(); }
    return outcome;
  }
}
const ANSI = "[\\u001B\\u009B][[\\]()#;?]*(?:(?:(?:(?:;[-a-zA-Z\\d\\/\\#&.:=?%@~_]+)*|[a-zA-Z\\d]+(?:;[-a-zA-Z\\d\\/\\#&.:=?%@~_]*)*)?(?:\\u0007|\\u001B\\u005C|\\u009C))|(?:(?:\\d{1,4}(?:;\\d{0,4})*)?[\\dA-PR-TZcf-ntqry=><~]))";
const mathNoRandom = new Proxy(Math, { get(t, k) { return k === "random" ? () => 0.5 : t[k]; } });
const errText = (e) => { try { const s = e && e.message !== undefined ? e.message : e; return typeof s === "string" ? `${e.name ?? "Error"}: ${s}` : `${e?.name ?? "Error"}: ${dump(s)}`; } catch { return "error"; } };
let unhandled = null;
process.on("unhandledRejection", (e) => { if (unhandled) unhandled(e); else throw e; });
const realImmediate = setImmediate;
const tick = () => new Promise((r) => realImmediate(r));

// readable value under the current model
export function dump(v) { try { return JSON.stringify(concreteOf(v)); } catch { return String(v); } }
export function concreteOf(v, model = E.model, memo = new Map(), seen = new Set()) {
  const ev = (t) => T.evaluate(t, model, memo);
  if (v instanceof R.Sym) {
    if (v instanceof R.SymBool || v instanceof R.SymNum) return ev(v.t);
    if (v instanceof R.SymStr) return String.fromCharCode(...v.u.map((c) => (typeof c === "number" ? c : ev(c))));
    if (v instanceof R.SymEnum) return v.opts[ev(v.t)];
  }
  if (v === null || typeof v !== "object") return typeof v === "function" ? "[fn]" : typeof v === "bigint" ? String(v) : typeof v === "number" && !Number.isFinite(v) ? "#" + v : v;
  if (seen.has(v)) return "[cycle]";
  seen.add(v);
  let r;
  const rec = (x) => concreteOf(x, model, memo, seen);
  if (Array.isArray(v)) r = v.map(rec);
  else if (v instanceof Map) r = { $map: [...v.entries()].map(([k, x]) => [rec(k), rec(x)]) };
  else if (v instanceof Set) r = { $set: [...v.values()].map(rec) };
  else if (v instanceof Error) r = { $error: v.name, message: rec(v.message) };
  else if (v instanceof Date) r = { $date: rec(v._sym ?? v.getTime()) };
  else if (Array.isArray(v.b) && v.constructor?.name === "SymBytes") r = { $bytes: v.b.map(rec) };
  else if (ArrayBuffer.isView(v)) r = { $bytes: [...v] };
  else { r = {}; for (const k of Object.keys(v)) { if (typeof v[k] === "function") continue; r[rec(R.decodeKey(k))] = rec(v[k]); } }
  seen.delete(v);
  return r;
}

class Api {
  constructor(s) { this.session = s; }
  get tier() { return this.session.tier; }
  get thorough() { return this.session.tier === "thorough"; }
  get fs() { return this.session.fs; }
  get env() { return this.session.env; }
  get stubs() { return this.session.loader.stubs; }
  set now(v) { clock.now = v; }
  get now() { return clock.now; }
  // a stubbed module, keyed by path below the repository or package name
  stub(key, mod) { this.session.loader.stubs[key] = mod; }
  begin() { this.names = new Map(); this.notes = []; this.covers = new Set(); this.async = true; this.autoTimers = true; this.beginX?.(); }
  uniq(n) { const k = (this.names.get(n) ?? 0) + 1; this.names.set(n, k); return k === 1 ? n : n + "~" + k; }
  note(v) { this.notes.push(v); }
  cover(l) { this.covers.add(this.conc(l)); }
  advance(ms) { const until = clock.now + ms; while (this.env.fireNext(until)); clock.now = until; }
  pendingTimers() { return this.env.timers.length; }
  fireTimers(n = 1) { for (let i = 0; i < n; i++) if (!this.env.fireNext()) return i; return n; }
  async settle(n = 8) { for (let i = 0; i < n; i++) await tick(); }
  try(f) { try { return { ok: true, value: f() }; } catch (e) { this.rethrow(e); return { ok: false, error: e }; } }
  async tryAsync(f) { try { return { ok: true, value: await f() }; } catch (e) { this.rethrow(e); return { ok: false, error: e }; } }
  fail(label) { this.assert(false, label); }
}
class SymApi extends Api {
  rethrow(e) { if (E.aborted) throw E.aborted; if (e && (e.isPathAbort || e.isSpecAbort)) throw e; }
  int(n, lo, hi) { n = this.uniq(n); if (lo === hi) { declareVar(n, "I", lo, hi); return lo; } return R.mkNum(declareVar(n, "I", lo, hi)); }
  bool(n) { return R.mkBool(declareVar(this.uniq(n), "B")); }
  // fraction k/den
  frac(n, lo, hi, den = 4) { const v = declareVar(this.uniq(n), "I", lo * den, hi * den); return R.mkNum(T.rdiv(v, T.num(den))); }
  upto(n, hi, lo = 0) { const v = declareVar(this.uniq(n), "I", lo, hi); return concretize(v); }
  flag(n) { return branch(declareVar(this.uniq(n), "B")); }
  pick(n, list) { if (list.length === 1) return list[0]; return list[this.upto(n, list.length - 1)]; }
  enum(n, list) { return new R.SymEnum(declareVar(this.uniq(n), "I", 0, list.length - 1), list); }
  str(n, { len, min = 0, max, of = ASCII } = {}) {
    n = this.uniq(n);
    const rs = ranges(of);
    const L = len ?? (min === max ? min : concretize(declareVar(n + ".len", "I", min, max)));
    const u = [];
    for (let i = 0; i < L; i++) u.push(this.#unit(n + "." + i, rs));
    return R.mkStr(u);
  }
  #unit(nm, rs) {
    const lo = rs[0][0], hi = rs[rs.length - 1][1];
    R.domains.set(nm, rs);
    const v = declareVar(nm, "I", lo, hi);
    if (lo === hi) return lo;
    if (rs.length > 1) assume(R.inRanges(v, rs));
    return v;
  }
  bytes(n, { len, min = 0, max, of = [[0, 255]] } = {}) { n = this.uniq(n); const L = len ?? concretize(declareVar(n + ".len", "I", min, max)); const b = []; for (let i = 0; i < L; i++) b.push(R.mkNum(this.#unit(n + "." + i, of))); return GLOBALS.Buffer.from(b); }
  assume(c) { const x = R.truthTerm(c); if (typeof x === "boolean") { if (!x) abort("infeasible"); return; } assume(x); }
  assert(c, label) {
    const x = R.truthTerm(c);
    assertTerm(typeof x === "boolean" ? T.bool(x) : x, label);
  }
  // does the condition hold on this path? (forks)
  truth(c) { return R.t(c); }
  conc(v) { return R.concAny(v); }
}
class ConcApi extends Api {
  beginX() { this.failures = []; }
  rethrow(e) { if (e && (e.isAssertFail || e.isInfeasible)) throw e; }
  #v(n, d) { const m = this.model; return Object.hasOwn(m, n) ? m[n] : d; }
  int(n, lo, hi) { n = this.uniq(n); return this.#v(n, Number.isFinite(lo) ? lo : 0); }
  bool(n) { return !!this.#v(this.uniq(n), false); }
  frac(n, lo, hi, den = 4) { return this.#v(this.uniq(n), lo * den) / den; }
  upto(n, hi, lo = 0) { return this.#v(this.uniq(n), lo); }
  flag(n) { return !!this.#v(this.uniq(n), false); }
  pick(n, list) { if (list.length === 1) return list[0]; return list[this.upto(n, list.length - 1)]; }
  enum(n, list) { return list[this.#v(this.uniq(n), 0)]; }
  str(n, { len, min = 0, max, of = ASCII } = {}) {
    n = this.uniq(n);
    const rs = ranges(of);
    const L = len ?? (min === max ? min : this.#v(n + ".len", min));
    let s = "";
    for (let i = 0; i < L; i++) s += String.fromCharCode(this.#v(n + "." + i, rs[0][0]));
    return s;
  }
  bytes(n, { len, min = 0, max, of = [[0, 255]] } = {}) { n = this.uniq(n); const L = len ?? this.#v(n + ".len", min); const b = []; for (let i = 0; i < L; i++) b.push(this.#v(n + "." + i, of[0][0])); return Buffer.from(b); }
  assume(c) { if (!c) throw new Infeasible(); }
  assert(c, label) { if (!c) { this.failures.push(label); throw new AssertFail(label); } }
  truth(c) { return !!c; }
  conc(v) { return v; }
}
