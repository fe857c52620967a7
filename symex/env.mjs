// Virtual environment shared by both modes: clock, timers, randomness, hashing, process, file system.
import nodeCrypto from "node:crypto";
import nodeFs from "node:fs";
import nodeOs from "node:os";
import nodePath from "node:path";
import nodeUtil from "node:util";
import { createRequire } from "node:module";
import { clock } from "./globals.mjs";
import * as R from "./rt.mjs";
import { E, branch, unsupported } from "./engine.mjs";
const req = createRequire(import.meta.url);

export class Env {
  constructor(mode) { this.mode = mode; this.reset(); }
  reset() {
    clock.now = 1_700_000_000_000;
    this.timers = [];
    this.tid = 1;
    this.uuid = 0;
    this.hashes = [];
    this.procEnv = { HOME: "/home/u", PATH: "/usr/bin" };
    this.stdout = [];
    this.math = 0;
  }
  // ----- timers
  setTimeout = (fn, ms, ...args) => {
    if (ms instanceof R.Sym) { /* kept symbolic */ }
    else ms = Number.isFinite(Number(ms)) ? Math.max(0, Number(ms)) : 0;
    const id = { id: this.tid++, fn, args, ms, at: typeof ms === "number" && typeof clock.now === "number" ? clock.now + ms : null, unref() { return this; }, ref() { return this; }, hasRef() { return true; }, refresh() { return this; }, [Symbol.toPrimitive]() { return this.id; } };
    this.timers.push(id);
    return id;
  };
  clearTimeout = (t) => { const i = this.timers.findIndex((x) => x === t || x.id === t); if (i >= 0) this.timers.splice(i, 1); };
  setInterval = (fn, ms, ...args) => { const id = this.setTimeout(fn, ms, ...args); id.every = ms; return id; };
  setImmediate = (fn, ...args) => this.setTimeout(fn, 0, ...args);
  // fire the next due timer (by time, then creation); returns false when none
  fireNext(limit = Infinity) {
    if (this.timers.length === 0) return false;
    let best = null;
    for (const x of this.timers) if (x.at === null ? best === null : best === null || best.at === null || x.at < best.at) best = x;
    if (best.at !== null && best.at > limit) return false;
    if (best.at !== null && typeof clock.now === "number" && best.at > clock.now) clock.now = best.at;
    if (best.every !== undefined) best.at = (best.at ?? 0) + Math.max(1, Number(best.every)); else this.timers.splice(this.timers.indexOf(best), 1);
    best.fn(...best.args);
    return true;
  }
  makeProcess() {
    const self = this;
    const stub = {
      env: undefined, platform: "linux", pid: 4242, ppid: 1, arch: "x64", argv: ["node", "pi"], execPath: "/usr/bin/node", version: process.version, versions: process.versions, exitCode: undefined, execArgv: [], title: "node",
      exit() { throw new Error("process.exit called"); }, kill() { throw new Error("process.kill called"); }, abort() { throw new Error("process.abort called"); },
      cwd: () => process.cwd(), on() { return stub; }, once() { return stub; }, off() { return stub; }, removeListener() { return stub; }, emit() { return false; }, emitWarning() {}, listenerCount: () => 0,
      nextTick: (f, ...a) => { Promise.resolve().then(() => f(...a)); }, uptime: () => 1, hrtime: Object.assign(() => [Math.floor(Number(clock.now) / 1000), 0], { bigint: () => BigInt(Number(clock.now)) * 1000000n }),
      memoryUsage: Object.assign(() => ({ rss: 1e8, heapUsed: 5e7, heapTotal: 8e7, external: 0, arrayBuffers: 0 }), { rss: () => 1e8 }), getuid: () => 0, getgid: () => 0, umask: () => 18, cpuUsage: () => ({ user: 0, system: 0 }), resourceUsage: () => ({}), release: { name: "node" }, features: {}, stdin: { isTTY: false, on() {} },
      stdout: { isTTY: false, columns: 80, rows: 24, write: (s) => { self.stdout.push(s); return true; }, on() {}, once() {} }, stderr: { isTTY: false, columns: 80, rows: 24, write: (s) => { self.stdout.push(s); return true; }, on() {}, once() {} },
    };
    Object.defineProperty(stub, "env", { get: () => self.procEnv, set: (v) => { self.procEnv = v; } });
    return stub;
  }
  digestOf(alg, data, enc) {
    const fmt = (hex) => (enc === "hex" ? hex : enc === "base64" ? Buffer.from(hex, "hex").toString("base64") : enc === "base64url" ? Buffer.from(hex, "hex").toString("base64url") : Buffer.from(hex, "hex"));
    if (this.mode === "conc" || data.every((x) => !(x instanceof R.Sym) && !(x && x.b && x.constructor.name === "SymBytes"))) {
      const h = nodeCrypto.createHash(alg);
      for (const d of data) h.update(d);
      const hex = h.digest("hex");
      if (this.mode === "sym") { const whole = R.codes(Buffer.concat(data.map((d) => Buffer.from(d))).toString("utf8")); for (const q of this.hashes) if (q.alg === alg && q.sym && branch(R.eqUnits(q.u, whole))) return fmt(q.hex); this.hashes.push({ alg, u: whole, hex }); }
      return fmt(hex);
    }
    // ideal hash: equal contents have equal digests, distinct contents distinct ones
    let u = [];
    for (const d of data) u = u.concat(d && d.b ? unsupported("hash of symbolic bytes") : typeof d === "string" || d instanceof R.Sym ? R.units(d) : R.codes(Buffer.from(d).toString("utf8")));
    for (const h of this.hashes) if (h.alg === alg && branch(R.eqUnits(h.u, u))) return fmt(h.hex);
    const len = nodeCrypto.createHash(alg).digest("hex").length;
    const hex = nodeCrypto.createHash(alg).update("symbolic#" + this.hashes.length).digest("hex").slice(0, len);
    this.hashes.push({ alg, u, hex, sym: true });
    return fmt(hex);
  }
  crypto() {
    const self = this;
    const uuid = () => { const n = (++self.uuid).toString(16).padStart(12, "0"); return `00000000-0000-4000-8000-${n}`; };
    const createHash = (alg) => { const data = []; const h = { update(d) { data.push(d); return h; }, digest(enc) { return self.digestOf(alg, data, enc); }, copy() { return h; } }; return h; };
    const randomBytes = (n) => { const b = Buffer.alloc(n); let x = ++self.uuid; for (let i = n - 1; i >= 0 && x > 0; i--) { b[i] = x & 255; x >>>= 8; } return b; };
    const o = { randomUUID: uuid, createHash, randomBytes, randomInt: (a, b) => (b === undefined ? 0 : a), createHmac: (alg, key) => createHash(alg).update(String(key)), getRandomValues: (a) => { const b = randomBytes(a.length); for (let i = 0; i < a.length; i++) a[i] = b[i]; return a; }, timingSafeEqual: (a, b) => a.equals(b), hash: (alg, d, enc) => self.digestOf(alg, [d], enc ?? "hex"), webcrypto: { getRandomValues: (a) => o.getRandomValues(a), randomUUID: uuid, subtle: nodeCrypto.webcrypto.subtle }, subtle: nodeCrypto.webcrypto.subtle, constants: nodeCrypto.constants };
    o.default = o; o.__esModule = true;
    return o;
  }
}
export function nativeGuard(o, name, allowSym = false) {
  // native function/object: symbolic arguments are case-split before the call
  const memo = new WeakMap();
  const wrap = (v) => {
    if (v === null || (typeof v !== "function" && typeof v !== "object")) return v;
    if (typeof v === "object" && !(Object.getPrototypeOf(v) === Object.prototype || Object.getPrototypeOf(v) === null || v[Symbol.toStringTag] === "Module")) return v;
    if (memo.has(v)) return memo.get(v);
    const target = typeof v === "function" ? function () {} : {};
    const p = new Proxy(target, {
      get(_, k) { const x = v[k]; if (k === "prototype") return x; return wrap(x); },
      has(_, k) { return k in v; },
      ownKeys() { return Reflect.ownKeys(target).concat(Reflect.ownKeys(v).filter((k) => !Reflect.ownKeys(target).includes(k))); },
      getOwnPropertyDescriptor(_, k) { const d = Object.getOwnPropertyDescriptor(v, k) ?? Object.getOwnPropertyDescriptor(target, k); if (d && !Object.getOwnPropertyDescriptor(target, k)) d.configurable = true; return d && { ...d, ...("value" in d ? { value: wrap(d.value) } : {}) }; },
      getPrototypeOf() { return Object.getPrototypeOf(v); },
      apply(_, th, args) { return Reflect.apply(v, memoInv.get(th) ?? th, args.map((a) => (R.hasSym(a) ? R.concDeep(a) : a))); },
      construct(_, args, nt) { return Reflect.construct(v, args.map((a) => (R.hasSym(a) ? R.concDeep(a) : a)), nt === p ? v : nt); },
    });
    memo.set(v, p);
    memoInv.set(p, v);
    return p;
  };
  const memoInv = new WeakMap();
  return wrap(o);
}
export { nodeFs, nodeOs, nodePath, nodeUtil, req };
