// Runtime of instrumented code: symbolic values and operators.
import * as T from "./term.mjs";
import { E, abort, assume, branch, concretize, step, unsupported, SpecAbort } from "./engine.mjs";

export class Sym {
  // a symbolic value reached native code: complete case split over its values
  [Symbol.toPrimitive]() { return concAny(this); }
  toJSON() { return concAny(this); }
}
export class SymBool extends Sym {
  constructor(t) { super(); this.t = t; }
  toString() { return branch(this.t) ? "true" : "false"; }
  valueOf() { return this; }
}
export class SymNum extends Sym {
  constructor(t) { super(); this.t = t; }
  toString(radix) { if (radix !== undefined && radix !== 10) return concNum(this).toString(radix); return mkStr(numUnits(this)); }
  toFixed(d) { return this.t.sort === "I" && !d ? this.toString() : unsupported("toFixed"); }
  toLocaleString() { return this.toString(); }
  valueOf() { return this; }
}
export const isSym = (x) => x instanceof Sym;
export const mkBool = (t) => (t === T.TRUE ? true : t === T.FALSE ? false : new SymBool(t));
export const mkNum = (t) => {
  if (T.isConst(t)) return t.v;
  if (t.sort === "I" && (t.lo < -Number.MAX_SAFE_INTEGER || t.hi > Number.MAX_SAFE_INTEGER)) E.stats.inexact++;
  return new SymNum(t);
};
export function numTerm(x) {
  if (typeof x === "number") return T.num(x);
  if (x instanceof SymNum) return x.t;
  if (x instanceof SymBool) return T.ite(x.t, T.num(1), T.num(0));
  if (typeof x === "boolean") return T.num(x ? 1 : 0);
  if (x === null) return T.num(0);
  return undefined;
}
export function concNum(x) {
  if (!(x instanceof Sym)) return x;
  if (x instanceof SymBool) return branch(x.t) ? 1 : 0;
  if (x instanceof SymNum) {
    if (x.t.sort === "R") return unsupported("concretize real");
    return concretize(x.t);
  }
  return unsupported("concNum");
}
const leak = (what) => unsupported(what + ": " + (new Error().stack ?? "").split("\n").slice(2, 10).map((l) => l.trim().replace(/.*\/(packages|verif|symex)\//, "$1/")).join(" | "));
export function concAny(x) {
  if (x instanceof SymBool) return branch(x.t);
  if (x instanceof SymEnum) return x.conc();
  if (x instanceof SymNum) { if (x.t.sort === "R" || x.t.hi - x.t.lo > 5000) return leak("native use of a wide symbolic number"); return concretize(x.t); }
  if (x instanceof SymStr) {
    for (const c of x.u) if (typeof c !== "number" && domSize(c) > 400) return leak("native use of a wide symbolic string");
    return String.fromCharCode(...x.u.map((c) => (typeof c === "number" ? c : concretize(c))));
  }
  return x;
}
function domSize(c) { const d = c.op === "var" ? domains.get(c.v) : undefined; if (d) { let n = 0; for (const [a, b] of d) n += b - a + 1; return n; } return c.hi - c.lo + 1; }
// deep version for arguments of native functions
export function hasSym(v, depth = 5, seen) {
  if (v instanceof Sym) return true;
  if (depth === 0 || v === null || typeof v !== "object") return false;
  if (Array.isArray(v)) { for (const x of v) if (hasSym(x, depth - 1)) return true; return false; }
  const p = Object.getPrototypeOf(v);
  if (p !== Object.prototype && p !== null) return false;
  for (const k of Object.keys(v)) { if (k.startsWith(PH)) return true; if (hasSym(v[k], depth - 1)) return true; }
  return false;
}
export function concDeep(v) {
  if (v instanceof Sym) return concAny(v);
  if (!hasSym(v)) return v;
  if (Array.isArray(v)) return v.map(concDeep);
  const o = {};
  for (const k of Object.keys(v)) o[concAny(decodeKey(k))] = concDeep(v[k]);
  return o;
}
// boolean term of a value's truthiness: Term or boolean
export function truthTerm(x) {
  if (x instanceof Sym) {
    if (x instanceof SymBool) return x.t;
    if (x instanceof SymNum) return T.not(T.eq(x.t, T.num(0)));
    if (x instanceof SymStr) return x.u.length > 0;
    if (x instanceof SymEnum) return T.or(...x.opts.map((o, i) => (o ? T.eq(x.t, T.num(i)) : T.FALSE)));
  }
  return !!x;
}
export function t(x) {
  if (E.aborted) throw E.aborted;
  if (x === true || x === false) { if (++E.steps > E.maxSteps) abort("steps", "step limit exceeded"); return x; }
  if (x instanceof Sym) { const c = truthTerm(x); return typeof c === "boolean" ? c : branch(c); }
  if (++E.steps > E.maxSteps) abort("steps", "step limit exceeded");
  return !!x;
}
export function not(x) {
  if (x instanceof Sym) { const c = truthTerm(x); return typeof c === "boolean" ? !c : mkBool(T.not(c)); }
  return !x;
}

// ---------- strings ----------
export function mkStr(u) {
  for (let i = 0; i < u.length; i++) if (typeof u[i] !== "number") return new SymStr(u.slice());
  if (u.length < 8192) return String.fromCharCode.apply(null, u);
  let s = "";
  for (let i = 0; i < u.length; i += 8192) s += String.fromCharCode.apply(null, u.slice(i, i + 8192));
  return s;
}
export const normUnit = (x) => (x instanceof T.Term ? (T.isConst(x) ? x.v : x) : x);
export const ut = (x) => (typeof x === "number" ? T.num(x) : x);
export function codes(s) {
  const n = s.length, u = new Array(n);
  for (let i = 0; i < n; i++) u[i] = s.charCodeAt(i);
  return u;
}
export function numUnits(x) {
  let tm = x.t;
  if (tm.sort === "R") {
    if (branch(T.eq(T.toReal(T.floor(tm)), tm))) tm = T.floor(tm);
    else return unsupported("string of a fractional symbolic number");
  }
  const u = [];
  if (branch(T.lt(tm, T.num(0)))) { u.push(45); tm = T.neg(tm); }
  let d = 1, p = 10;
  while (d < 17 && !branch(T.lt(tm, T.num(p)))) { d++; p *= 10; }
  if (d === 17) unsupported("number too long");
  for (let k = d - 1; k >= 0; k--) u.push(normUnit(T.add(T.imod(T.idiv(tm, T.num(10 ** k)), T.num(10)), T.num(48))));
  return u;
}
export function units(x) {
  if (typeof x === "string") return codes(x);
  if (x instanceof SymStr) return x.u;
  if (x instanceof SymEnum) return codes(x.conc());
  if (x instanceof SymNum) return numUnits(x);
  if (x instanceof SymBool) return codes(x.toString());
  if (x !== null && typeof x === "object") {
    if (Array.isArray(x)) return units(arrJoin(x, ","));
    const r = typeof x[Symbol.toPrimitive] === "function" ? x[Symbol.toPrimitive]("string") : x.toString();
    return units(r);
  }
  return codes(String(x));
}
export function eqUnits(a, b) {
  if (a.length !== b.length) return T.FALSE;
  const cs = [];
  for (let i = 0; i < a.length; i++) {
    const x = a[i], y = b[i];
    if (typeof x === "number" && typeof y === "number") { if (x !== y) return T.FALSE; continue; }
    const c = T.eq(ut(x), ut(y));
    if (c === T.FALSE) return T.FALSE;
    if (c !== T.TRUE) cs.push(c);
  }
  return T.and(...cs);
}
export function ltUnits(a, b, orEq) {
  // a < b lexicographic
  let r = T.bool(orEq ? a.length <= b.length : a.length < b.length);
  const n = Math.min(a.length, b.length);
  for (let i = n - 1; i >= 0; i--) r = T.or(T.lt(ut(a[i]), ut(b[i])), T.and(T.eq(ut(a[i]), ut(b[i])), r));
  return r;
}
const idx = (x, d) => (x === undefined ? d : x instanceof Sym ? concNum(x) : Math.trunc(Number(x)) || 0);
const matchAt = (u, p, m) => {
  const cs = [];
  for (let i = 0; i < m.length; i++) {
    const x = u[p + i], y = m[i];
    if (typeof x === "number" && typeof y === "number") { if (x !== y) return T.FALSE; continue; }
    const c = T.eq(ut(x), ut(y));
    if (c === T.FALSE) return T.FALSE;
    cs.push(c);
  }
  return T.and(...cs);
};
export function inRanges(u, ranges) {
  if (typeof u === "number") { for (const [a, b] of ranges) if (u >= a && u <= b) return T.TRUE; return T.FALSE; }
  const cs = [];
  for (const [a, b] of ranges) {
    if (b < u.lo || a > u.hi) continue;
    cs.push(a === b ? T.eq(u, T.num(a)) : T.and(T.le(T.num(a), u), T.le(u, T.num(b))));
  }
  return T.or(...cs);
}
const WS = [[9, 13], [32, 32], [160, 160], [0x1680, 0x1680], [0x2000, 0x200a], [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]];
export const domains = new Map(); // var name -> ranges
const CASELESS = (ranges, lower) => ranges.every(([a, b]) => {
  for (let c = Math.max(a, 128); c <= b; c++) { const s = String.fromCharCode(c); if ((lower ? s.toLowerCase() : s.toUpperCase()) !== s) return false; }
  return true;
});
const caselessCache = new Map();
function caseUnit(c, lower) {
  if (typeof c === "number") { const s = String.fromCharCode(c); return codes(lower ? s.toLowerCase() : s.toUpperCase()); }
  if (c.hi > 127) {
    const key = c.id + (lower ? "l" : "u");
    let ok = caselessCache.get(key);
    if (ok === undefined) {
      const dom = c.op === "var" && domains.get(c.v) ? domains.get(c.v) : [[Math.max(0, c.lo), Math.min(65535, c.hi)]];
      ok = CASELESS(dom, lower);
      caselessCache.set(key, ok);
    }
    if (!ok) {
      if (branch(T.lt(c, T.num(128)))) { /* ascii below */ }
      else return unsupported("case mapping of a non-ASCII symbolic unit");
    }
  }
  const [a, b, d] = lower ? [65, 90, 32] : [97, 122, -32];
  return [normUnit(T.ite(T.and(T.le(T.num(a), c), T.le(c, T.num(b))), T.add(c, T.num(d)), c))];
}
export class SymStr extends Sym {
  constructor(u) { super(); this.u = u; }
  get length() { return this.u.length; }
  valueOf() { return this; }
  toString() { return this; }
  charCodeAt(i) { i = idx(i, 0); if (i < 0 || i >= this.u.length) return NaN; const c = this.u[i]; return typeof c === "number" ? c : mkNum(c); }
  charAt(i) { i = idx(i, 0); return i < 0 || i >= this.u.length ? "" : mkStr([this.u[i]]); }
  at(i) { i = idx(i, 0); if (i < 0) i += this.u.length; return i < 0 || i >= this.u.length ? undefined : mkStr([this.u[i]]); }
  _pairAt(i) {
    const h = this.u[i], l = this.u[i + 1];
    if (l === undefined) return false;
    return branch(T.and(inRanges(h, [[0xd800, 0xdbff]]), inRanges(l, [[0xdc00, 0xdfff]])));
  }
  codePointAt(i) {
    i = idx(i, 0);
    if (i < 0 || i >= this.u.length) return undefined;
    if (this._pairAt(i)) return mkNum(T.add(T.add(T.mul(T.sub(ut(this.u[i]), T.num(0xd800)), T.num(1024)), T.sub(ut(this.u[i + 1]), T.num(0xdc00))), T.num(0x10000)));
    return this.charCodeAt(i);
  }
  *[Symbol.iterator]() {
    let i = 0;
    while (i < this.u.length) {
      if (this._pairAt(i)) { yield mkStr([this.u[i], this.u[i + 1]]); i += 2; }
      else { yield mkStr([this.u[i]]); i++; }
    }
  }
  slice(a, b) { return mkStr(this.u.slice(idx(a, 0), b === undefined ? undefined : idx(b))); }
  substring(a, b) {
    const n = this.u.length;
    let x = Math.min(Math.max(idx(a, 0), 0), n), y = b === undefined ? n : Math.min(Math.max(idx(b), 0), n);
    if (x > y) [x, y] = [y, x];
    return mkStr(this.u.slice(x, y));
  }
  substr(a, l) { let x = idx(a, 0); if (x < 0) x = Math.max(0, this.u.length + x); const e = l === undefined ? this.u.length : x + Math.max(0, idx(l)); return mkStr(this.u.slice(x, e)); }
  indexOf(s, from) {
    const m = units(s), n = this.u.length;
    let p = Math.min(Math.max(idx(from, 0), 0), n);
    for (; p + m.length <= n; p++) if (branch(matchAt(this.u, p, m))) return p;
    return -1;
  }
  lastIndexOf(s, from) {
    const m = units(s), n = this.u.length;
    let p = Math.min(from === undefined ? n : Math.max(idx(from), 0), n - m.length);
    for (; p >= 0; p--) if (branch(matchAt(this.u, p, m))) return p;
    return -1;
  }
  includes(s, from) {
    if (s instanceof RegExp) throw new TypeError("First argument to String.prototype.includes must not be a regular expression");
    const m = units(s), cs = [];
    for (let p = Math.max(idx(from, 0), 0); p + m.length <= this.u.length; p++) cs.push(matchAt(this.u, p, m));
    return mkBool(T.or(...cs));
  }
  startsWith(s, from) { const m = units(s), p = Math.max(idx(from, 0), 0); return p + m.length > this.u.length ? false : mkBool(matchAt(this.u, p, m)); }
  endsWith(s, end) { const m = units(s), e = end === undefined ? this.u.length : Math.min(Math.max(idx(end), 0), this.u.length); return m.length > e ? false : mkBool(matchAt(this.u, e - m.length, m)); }
  trimStart() { let i = 0; while (i < this.u.length && branch(inRanges(this.u[i], WS))) i++; return mkStr(this.u.slice(i)); }
  trimEnd() { let e = this.u.length; while (e > 0 && branch(inRanges(this.u[e - 1], WS))) e--; return mkStr(this.u.slice(0, e)); }
  trim() { const s = this.trimStart(); return typeof s === "string" ? s.trim() : s.trimEnd(); }
  toLowerCase() { return mkStr(this.u.flatMap((c) => caseUnit(c, true))); }
  toUpperCase() { return mkStr(this.u.flatMap((c) => caseUnit(c, false))); }
  toLocaleLowerCase() { return this.toLowerCase(); }
  toLocaleUpperCase() { return this.toUpperCase(); }
  concat(...xs) { return mkStr(this.u.concat(...xs.map(units))); }
  repeat(n) { n = idx(n, 0); if (n < 0) throw new RangeError("Invalid count value"); let r = []; for (let i = 0; i < n; i++) r = r.concat(this.u); return mkStr(r); }
  padStart(n, f = " ") { n = idx(n, 0); const k = n - this.u.length; if (k <= 0) return this; const fu = units(f); if (!fu.length) return this; const p = []; while (p.length < k) p.push(fu[p.length % fu.length]); return mkStr(p.concat(this.u)); }
  padEnd(n, f = " ") { n = idx(n, 0); const k = n - this.u.length; if (k <= 0) return this; const fu = units(f); if (!fu.length) return this; const p = []; while (p.length < k) p.push(fu[p.length % fu.length]); return mkStr(this.u.concat(p)); }
  split(sep, lim) {
    if (sep instanceof RegExp) return RX.split(sep, this, lim);
    let out = [];
    if (sep === undefined) return [this];
    const m = units(sep);
    if (m.length === 0) out = this.u.map((c) => mkStr([c]));
    else {
      let st = 0, p = 0;
      while (p + m.length <= this.u.length) {
        if (branch(matchAt(this.u, p, m))) { out.push(mkStr(this.u.slice(st, p))); p += m.length; st = p; } else p++;
      }
      out.push(mkStr(this.u.slice(st)));
    }
    return lim === undefined ? out : out.slice(0, idx(lim));
  }
  replace(pat, rep) {
    if (pat instanceof RegExp) return RX.replace(pat, this, rep);
    const p = this.indexOf(pat);
    if (p < 0) return this;
    const m = mkStr(this.u.slice(p, p + units(pat).length));
    const r = typeof rep === "function" ? rep(m, p, this) : expandRepl(rep, m, [], this, p);
    return mkStr([...this.u.slice(0, p), ...units(r), ...this.u.slice(p + m.length)]);
  }
  replaceAll(pat, rep) {
    if (pat instanceof RegExp) return RX.replace(pat, this, rep);
    const m = units(pat);
    let out = [], p = 0;
    if (m.length === 0) return unsupported("replaceAll empty");
    while (p < this.u.length) {
      if (p + m.length <= this.u.length && branch(matchAt(this.u, p, m))) {
        const ms = mkStr(this.u.slice(p, p + m.length));
        const r = typeof rep === "function" ? rep(ms, p, this) : expandRepl(rep, ms, [], this, p);
        out = out.concat(units(r)); p += m.length;
      } else out.push(this.u[p++]);
    }
    return mkStr(out);
  }
  match(re) { return RX.match(re instanceof RegExp ? re : new RegExp(re), this); }
  matchAll(re) { return RX.matchAll(re, this); }
  search(re) { const m = RX.exec(new RegExp(re.source, re.flags.replace(/[gy]/g, "")), this); return m ? m.index : -1; }
  normalize(f) {
    for (const c of this.u) if (typeof c === "number" ? c > 127 : c.hi > 127 && !branch(T.lt(c, T.num(128)))) return mkStr([...concAny(this).normalize(f)].flatMap((x) => units(x)));
    return this;
  }
  isWellFormed() { for (let i = 0; i < this.u.length; i++) { if (this._pairAt(i)) { i++; continue; } if (branch(inRanges(this.u[i], [[0xd800, 0xdfff]]))) return false; } return true; }
  toWellFormed() { const o = []; for (let i = 0; i < this.u.length; i++) { if (this._pairAt(i)) { o.push(this.u[i], this.u[i + 1]); i++; continue; } o.push(branch(inRanges(this.u[i], [[0xd800, 0xdfff]])) ? 0xfffd : this.u[i]); } return mkStr(o); }
  localeCompare(o) {
    const b = units(o);
    const ok = (c) => inRanges(c, [[48, 57], [97, 122]]);
    for (const c of [...this.u, ...b]) if (!branch(ok(c))) return unsupported("localeCompare outside [0-9a-z]");
    if (branch(eqUnits(this.u, b))) return 0;
    return branch(ltUnits(this.u, b, false)) ? -1 : 1;
  }
}
// A string known to be one of a finite list, selected by a symbolic index.
export class SymEnum extends Sym {
  constructor(t, opts) { super(); this.t = t; this.opts = opts; }
  conc() { return this.opts[concretize(this.t)]; }
  toString() { return this.conc(); }
  valueOf() { return this; }
  get length() { return this.conc().length; }
  eqTerm(s) { return T.or(...this.opts.map((o, i) => (o === s ? T.eq(this.t, T.num(i)) : T.FALSE))); }
  *[Symbol.iterator]() { yield* this.conc(); }
}
for (const k of Object.getOwnPropertyNames(String.prototype)) {
  if (typeof String.prototype[k] === "function" && !["constructor", "toString", "valueOf"].includes(k))
    SymEnum.prototype[k] = function (...a) { return m(this.conc(), k, a); };
}
export const isStrLike = (x) => typeof x === "string" || x instanceof SymStr || x instanceof SymEnum;

export function expandRepl(rep, mstr, caps, whole, pos, groups) {
  const ru = units(rep);
  if (ru.every((c) => typeof c === "number") ) {
    const s = String.fromCharCode(...ru);
    if (!s.includes("$")) return rep;
    let out = [];
    for (let i = 0; i < s.length; i++) {
      if (s[i] === "$" && i + 1 < s.length) {
        const n = s[i + 1];
        if (n === "$") { out.push(36); i++; continue; }
        if (n === "&") { out = out.concat(units(mstr)); i++; continue; }
        if (n === "`") { out = out.concat(units(whole).slice(0, pos)); i++; continue; }
        if (n === "'") { out = out.concat(units(whole).slice(pos + units(mstr).length)); i++; continue; }
        if (/[0-9]/.test(n)) {
          let d = Number(n), l = 1;
          if (/[0-9]/.test(s[i + 2] ?? "") && Number(n + s[i + 2]) <= caps.length && Number(n + s[i + 2]) > 0) { d = Number(n + s[i + 2]); l = 2; }
          if (d > 0 && d <= caps.length) { if (caps[d - 1] !== undefined) out = out.concat(units(caps[d - 1])); i += l; continue; }
        }
        if (n === "<" && groups) { const e = s.indexOf(">", i); if (e > 0) { const g = groups[s.slice(i + 2, e)]; if (g !== undefined) out = out.concat(units(g)); i = e; continue; } }
      }
      out.push(s.charCodeAt(i));
    }
    return mkStr(out);
  }
  // symbolic replacement text: no '$' allowed
  for (const c of ru) if (branch(T.eq(ut(c), T.num(36)))) return unsupported("$ in symbolic replacement");
  return rep;
}

// ---------- operators ----------
export function eqTerm(a, b) {
  // both arbitrary; returns Term (strict equality)
  if (a === b) return T.bool(!(typeof a === "number" && a !== a));
  const as = a instanceof Sym, bs = b instanceof Sym;
  if (!as && !bs) return T.bool(a === b);
  if (isStrLike(a)) {
    if (!isStrLike(b)) return T.FALSE;
    if (a instanceof SymEnum && typeof b === "string") return a.eqTerm(b);
    if (b instanceof SymEnum && typeof a === "string") return b.eqTerm(a);
    if (a instanceof SymEnum && b instanceof SymEnum)
      return T.or(...a.opts.flatMap((o, i) => b.opts.map((p, j) => (o === p ? T.and(T.eq(a.t, T.num(i)), T.eq(b.t, T.num(j))) : T.FALSE))));
    if (a instanceof SymEnum) return T.or(...a.opts.map((o, i) => T.and(T.eq(a.t, T.num(i)), eqUnits(codes(o), units(b)))));
    if (b instanceof SymEnum) return eqTerm(b, a);
    return eqUnits(units(a), units(b));
  }
  if (a instanceof SymNum || typeof a === "number") {
    if (!(b instanceof SymNum || typeof b === "number")) return T.FALSE;
    if (typeof a === "number" && !Number.isFinite(a)) return T.FALSE;
    if (typeof b === "number" && !Number.isFinite(b)) return T.FALSE;
    return T.eq(numTerm(a), numTerm(b));
  }
  if (a instanceof SymBool || typeof a === "boolean") {
    if (!(b instanceof SymBool || typeof b === "boolean")) return T.FALSE;
    return T.eq(a instanceof SymBool ? a.t : T.bool(a), b instanceof SymBool ? b.t : T.bool(b));
  }
  return T.FALSE;
}
export function eq(a, b) { if (!(a instanceof Sym) && !(b instanceof Sym)) return a === b; return mkBool(eqTerm(a, b)); }
export function ne(a, b) { if (!(a instanceof Sym) && !(b instanceof Sym)) return a !== b; return mkBool(T.not(eqTerm(a, b))); }
export function leq(a, b) {
  if (!(a instanceof Sym) && !(b instanceof Sym)) return a == b;
  if (a === null || a === undefined || b === null || b === undefined) return false;
  const k = (x) => (isStrLike(x) ? "s" : x instanceof SymNum || typeof x === "number" ? "n" : "b");
  if (k(a) !== k(b)) return unsupported("loose equality across types");
  return eq(a, b);
}
export const lne = (a, b) => not(leq(a, b));

function arith2(a, b, opn, f, g) {
  if (a === undefined || b === undefined) return NaN;
  const ta = numTerm(a), tb = numTerm(b);
  if (ta === undefined || tb === undefined) {
    if (isStrLike(a)) a = GL.Number(a);
    if (isStrLike(b)) b = GL.Number(b);
    const ta2 = numTerm(a), tb2 = numTerm(b);
    if (ta2 === undefined || tb2 === undefined) return unsupported("arithmetic on " + typeof a + "," + typeof b);
    return arith2(a, b, opn, f, g);
  }
  if ((typeof a === "number" && !Number.isFinite(a)) || (typeof b === "number" && !Number.isFinite(b))) {
    if (typeof a === "number" && Number.isNaN(a)) return NaN;
    if (typeof b === "number" && Number.isNaN(b)) return NaN;
    const rep = (x, tx) => (typeof x === "number" ? x : branch(T.eq(tx, T.num(0))) ? 0 : branch(T.lt(tx, T.num(0))) ? -1 : 1);
    return g(rep(a, ta), rep(b, tb));
  }
  const r = f(ta, tb);
  return r instanceof T.Term ? mkNum(r) : r.special;
}
export function add(a, b) {
  if (!(a instanceof Sym) && !(b instanceof Sym)) {
    if (typeof a !== "object" && typeof b !== "object") return a + b;
    if (Array.isArray(a) || Array.isArray(b)) return mkStr(units(a).concat(units(b)));
    if (a instanceof Error || b instanceof Error) return mkStr(units(a).concat(units(b)));
    return a + b;
  }
  const so = (x) => isStrLike(x) || (typeof x === "object" && x !== null && !(x instanceof Sym));
  if (so(a) || so(b)) return mkStr(units(a).concat(units(b)));
  return arith2(a, b, "+", T.add, (x, y) => x + y);
}
export function sub(a, b) { if (!(a instanceof Sym) && !(b instanceof Sym)) return a - b; return arith2(a, b, "-", T.sub, (x, y) => x - y); }
export function mul(a, b) { if (!(a instanceof Sym) && !(b instanceof Sym)) return a * b; return arith2(a, b, "*", T.mul, (x, y) => x * y); }
export function div(a, b) {
  if (!(a instanceof Sym) && !(b instanceof Sym)) return a / b;
  return arith2(a, b, "/", (x, y) => {
    if (branch(T.eq(y, T.num(0)))) {
      if (branch(T.eq(x, T.num(0)))) return { special: NaN };
      return { special: branch(T.lt(x, T.num(0))) ? -Infinity : Infinity };
    }
    return T.rdiv(x, y);
  }, (x, y) => x / y);
}
export function mod(a, b) {
  if (!(a instanceof Sym) && !(b instanceof Sym)) return a % b;
  if (b instanceof SymNum) b = concNum(b);
  if (!Number.isFinite(b)) return Number.isNaN(b) ? NaN : a;
  if (b === 0) return NaN;
  const d = Math.abs(b), x = numTerm(a);
  if (x === undefined || x.sort === "R" || !Number.isInteger(d)) return unsupported("real modulo");
  if (x.lo >= 0) return mkNum(T.imod(x, T.num(d)));
  return mkNum(T.ite(T.le(T.num(0), x), T.imod(x, T.num(d)), T.neg(T.imod(T.neg(x), T.num(d)))));
}
export function pow(a, b) {
  if (!(a instanceof Sym) && !(b instanceof Sym)) return a ** b;
  b = concNum(b);
  if (!(a instanceof Sym)) return a ** b;
  if (!Number.isInteger(b) || b < 0) return unsupported("pow");
  let r = 1;
  for (let i = 0; i < b; i++) r = mul(r, a);
  return r;
}
function int32(x) {
  const tm = numTerm(x);
  if (tm === undefined) return unsupported("bitop");
  const i = tm.sort === "R" ? trunc(tm) : tm;
  if (i.lo < -2147483648 || i.hi > 2147483647) {
    // outside the range the value wraps, as ToInt32 defines it
    if (!branch(T.and(T.le(T.num(-2147483648), i), T.le(i, T.num(2147483647))))) return T.sub(T.imod(T.add(i, T.num(2147483648)), T.num(4294967296)), T.num(2147483648));
  }
  return i;
}
const trunc = (tm) => (tm.sort === "I" ? tm : T.ite(T.le(T.num(0), tm), T.floor(tm), T.neg(T.floor(T.neg(tm)))));
function andConst(x, c) {
  // x Int term in int32, c int32 constant
  if (c === 0) return T.num(0);
  if (c === -1) return x;
  const cu = c >>> 0;
  const xu = x.lo >= 0 ? x : T.imod(x, T.num(4294967296));
  if (((cu + 1) & cu) === 0 && c > 0) return T.imod(xu, T.num(cu + 1));
  let r = T.num(0);
  // group contiguous runs of bits
  for (let k = 0; k < 32; ) {
    if (!((cu >>> k) & 1)) { k++; continue; }
    let e = k;
    while (e < 32 && (cu >>> e) & 1) e++;
    r = T.add(r, T.mul(T.imod(T.idiv(xu, T.num(2 ** k)), T.num(2 ** (e - k))), T.num(2 ** k)));
    k = e;
  }
  if (c < 0) return x.lo >= 0 ? r : T.ite(T.le(T.num(2147483648), r), T.sub(r, T.num(4294967296)), r);
  return r;
}
function bit2(a, b) {
  if (a instanceof Sym && b instanceof Sym) b = concNum(b);
  if (!(a instanceof Sym)) [a, b] = [b, a];
  return [int32(a), b | 0];
}
export function band(a, b) { if (!(a instanceof Sym) && !(b instanceof Sym)) return a & b; const [x, c] = bit2(a, b); return mkNum(andConst(x, c)); }
export function bor(a, b) { if (!(a instanceof Sym) && !(b instanceof Sym)) return a | b; const [x, c] = bit2(a, b); if (c === 0) return mkNum(x); return mkNum(T.sub(T.add(x, T.num(c)), andConst(x, c))); }
export function bxor(a, b) { if (!(a instanceof Sym) && !(b instanceof Sym)) return a ^ b; const [x, c] = bit2(a, b); return mkNum(T.sub(T.add(x, T.num(c)), T.mul(T.num(2), andConst(x, c)))); }
export function shl(a, b) {
  if (!(a instanceof Sym) && !(b instanceof Sym)) return a << b;
  b = concNum(b) & 31;
  if (!(a instanceof Sym)) return a << b;
  const x = T.mul(int32(a), T.num(2 ** b));
  if (x.lo < -2147483648 || x.hi > 2147483647) if (!branch(T.and(T.le(T.num(-2147483648), x), T.le(x, T.num(2147483647))))) unsupported("shl overflow");
  return mkNum(x);
}
export function shr(a, b) { if (!(a instanceof Sym) && !(b instanceof Sym)) return a >> b; b = concNum(b) & 31; if (!(a instanceof Sym)) return a >> b; return mkNum(T.idiv(int32(a), T.num(2 ** b))); }
export function ushr(a, b) {
  if (!(a instanceof Sym) && !(b instanceof Sym)) return a >>> b;
  b = concNum(b) & 31;
  if (!(a instanceof Sym)) return a >>> b;
  const tm = numTerm(a);
  const x = tm.sort === "I" && tm.lo >= 0 && tm.hi < 4294967296 ? tm : T.imod(int32(a), T.num(4294967296));
  return mkNum(T.idiv(x, T.num(2 ** b)));
}
function cmp(a, b, fterm, fn, str) {
  if (isStrLike(a) && isStrLike(b)) return mkBool(str(units(a), units(b)));
  if (a === undefined || b === undefined) return false;
  let ta = numTerm(a), tb = numTerm(b);
  if (ta === undefined || tb === undefined) {
    if (isStrLike(a)) return cmp(GL.Number(a), b, fterm, fn, str);
    if (isStrLike(b)) return cmp(a, GL.Number(b), fterm, fn, str);
    return unsupported("comparison of " + typeof a + "," + typeof b);
  }
  if (typeof a === "number" && !Number.isFinite(a)) return fn(a, 0);
  if (typeof b === "number" && !Number.isFinite(b)) return fn(0, b);
  return mkBool(fterm(ta, tb));
}
export function lt(a, b) { if (!(a instanceof Sym) && !(b instanceof Sym)) return a < b; return cmp(a, b, T.lt, (x, y) => x < y, (x, y) => ltUnits(x, y, false)); }
export function le(a, b) { if (!(a instanceof Sym) && !(b instanceof Sym)) return a <= b; return cmp(a, b, T.le, (x, y) => x <= y, (x, y) => ltUnits(x, y, true)); }
export function gt(a, b) { if (!(a instanceof Sym) && !(b instanceof Sym)) return a > b; return lt(b, a); }
export function ge(a, b) { if (!(a instanceof Sym) && !(b instanceof Sym)) return a >= b; return le(b, a); }
export function neg(a) { if (!(a instanceof Sym)) return -a; const x = numTerm(a); return x === undefined ? neg(GL.Number(a)) : mkNum(T.neg(x)); }
export function pos(a) { if (!(a instanceof Sym)) return +a; return GL.Number(a); }
export function bnot(a) { if (!(a instanceof Sym)) return ~a; return mkNum(T.sub(T.num(-1), int32(a))); }
export function inc(a) { if (!(a instanceof Sym)) { return ++a; } return add(a, 1); }
export function dec(a) { if (!(a instanceof Sym)) { return --a; } return sub(a, 1); }
export function ty(a) {
  if (a instanceof Sym) return a instanceof SymBool ? "boolean" : a instanceof SymNum ? "number" : "string";
  return typeof a;
}
export const OPS = { "+": add, "-": sub, "*": mul, "/": div, "%": mod, "**": pow, "&": band, "|": bor, "^": bxor, "<<": shl, ">>": shr, ">>>": ushr };

export function spec(f) {
  // run f speculatively: any fork, abort or exception cancels it. Returns undefined or {v}
  const savedAb = E.aborted;
  E.spec++;
  try { return { v: f() }; } catch { E.aborted = savedAb; return undefined; } finally { E.spec--; }
}
const isB = (x) => typeof x === "boolean" || x instanceof SymBool;
const bt = (x) => (x instanceof SymBool ? x.t : T.bool(x));
export function and(a, f) {
  if (a instanceof SymBool) {
    const k = E.known.get(a.t.id);
    if (k === undefined) {
      const r = spec(f);
      if (r && isB(r.v)) return mkBool(T.and(a.t, bt(r.v)));
    }
    return branch(a.t) ? f() : false;
  }
  if (a instanceof Sym) return t(a) ? f() : a instanceof SymStr ? "" : a instanceof SymEnum ? "" : 0;
  return a ? f() : a;
}
export function or(a, f) {
  if (a instanceof SymBool) {
    const k = E.known.get(a.t.id);
    if (k === undefined) {
      const r = spec(f);
      if (r && isB(r.v)) return mkBool(T.or(a.t, bt(r.v)));
    }
    return branch(a.t) ? true : f();
  }
  if (a instanceof Sym) return t(a) ? a : f();
  return a ? a : f();
}
export function ite(c, f, g) {
  if (c instanceof Sym) {
    const ct = truthTerm(c);
    if (typeof ct !== "boolean" && E.known.get(ct.id) === undefined) {
      const a = spec(f);
      if (a) {
        const b = spec(g);
        if (b) { const r = mergeIte(ct, a.v, b.v); if (r !== NOMERGE) return r; }
      }
    }
  }
  return t(c) ? f() : g();
}
const NOMERGE = {};
export function mergeIte(ct, a, b) {
  if (a === b || (a !== a && b !== b)) return a;
  if (isB(a) && isB(b)) return mkBool(T.ite(ct, bt(a), bt(b)));
  if ((typeof a === "number" || a instanceof SymNum) && (typeof b === "number" || b instanceof SymNum)) {
    if ((typeof a === "number" && !Number.isFinite(a)) || (typeof b === "number" && !Number.isFinite(b))) return NOMERGE;
    return mkNum(T.ite(ct, numTerm(a), numTerm(b)));
  }
  if (typeof a === "string" && typeof b === "string") return new SymEnum(T.ite(ct, T.num(0), T.num(1)), [a, b]);
  return NOMERGE;
}
export const mergeFailed = NOMERGE;

export function tpl(strs, vals) {
  let sym = false;
  for (const v of vals) if (v instanceof Sym || (typeof v === "object" && v !== null)) { sym = true; break; }
  if (!sym) {
    let s = strs[0];
    for (let i = 0; i < vals.length; i++) s += `${vals[i]}` + strs[i + 1];
    return s;
  }
  let u = codes(strs[0]);
  for (let i = 0; i < vals.length; i++) u = u.concat(units(vals[i]), codes(strs[i + 1]));
  return mkStr(u);
}
// switch support
export function cs(d, c) {
  if (!(d instanceof Sym) && !(c instanceof Sym)) return d === c;
  return t(eq(d, c));
}

// ---------- property access ----------
const PH = "\u0001S";
const placeholders = new Map();
let phId = 0;
export function resetPlaceholders() { placeholders.clear(); phId = 0; caselessCache.clear(); domains.clear(); }
export const decodeKey = (k) => (typeof k === "string" && k.startsWith(PH) ? placeholders.get(k) ?? k : k);
function phKeys(o) { if (phId === 0) return []; return Object.keys(o).filter((k) => k.startsWith(PH)); }
function isPlainKeyed(o) { return typeof o === "object" && o !== null && !(o instanceof Sym) && !Array.isArray(o); }
// resolve a key against an object: returns a concrete property key to use, or undefined if absent
export function findKey(o, k) {
  if (k instanceof SymEnum) k = k.conc();
  if (k instanceof SymNum) k = k.t.sort === "I" && Array.isArray(o) ? k : k.t.sort === "I" && k.t.hi - k.t.lo <= 300 ? String(concretize(k.t)) : k.toString();
  if (k instanceof SymBool) k = k.toString();
  if (!(k instanceof Sym)) {
    if (phId > 0 && typeof k === "string" && isPlainKeyed(o) && !Object.hasOwn(o, k)) {
      for (const p of phKeys(o)) if (branch(eqTerm(placeholders.get(p), k))) return p;
    }
    return k;
  }
  for (const p of Object.keys(o)) if (branch(eqTerm(decodeKey(p), k))) return p;
  if (k instanceof SymStr) {
    // inherited names
    for (let pr = Object.getPrototypeOf(o); pr; pr = Object.getPrototypeOf(pr)) {
      for (const p of Object.getOwnPropertyNames(pr)) if (p.length === k.length && branch(eqTerm(p, k))) return p;
    }
  }
  return undefined;
}
export function newKey(k) {
  const p = PH + phId++;
  placeholders.set(p, k);
  return p;
}
function symIndex(o, k) {
  // o array-like with concrete length; k SymNum
  const n = o.length;
  if (!branch(T.and(T.le(T.num(0), k.t), T.lt(k.t, T.num(n))))) return -1;
  return concretize(k.t);
}
export function i(o, k) {
  if (o instanceof SymStr || o instanceof SymEnum) {
    if (o instanceof SymEnum) o = o.conc();
    if (typeof k === "number" || k instanceof SymNum) {
      if (k instanceof SymNum) k = concNum(k);
      if (!Number.isInteger(k) || k < 0) return undefined;
      return typeof o === "string" ? o[k] : o.at(k);
    }
    return o[k];
  }
  if (k instanceof Sym) {
    if (typeof o === "string") { const c = concNum(k); return o[c]; }
    if (k instanceof SymNum && (Array.isArray(o) || ArrayBuffer.isView(o))) {
      const n = o.length;
      // all-number arrays: ite chain
      if (n > 0 && n <= 4096 && allNums(o) && k.t.sort === "I") {
        if (branch(T.and(T.le(T.num(0), k.t), T.lt(k.t, T.num(n))))) {
          let r = numTerm(o[n - 1]);
          for (let j = n - 2; j >= 0; j--) r = T.ite(T.eq(k.t, T.num(j)), numTerm(o[j]), r);
          return mkNum(r);
        }
        return undefined;
      }
      const j = symIndex(o, k);
      return j < 0 ? undefined : o[j];
    }
    if (o === null || o === undefined) return o[0];
    const p = findKey(o, k);
    return p === undefined ? undefined : o[p];
  }
  if (phId > 0 && typeof k === "string" && isPlainKeyed(o)) return o[findKey(o, k)];
  return o[k];
}
function allNums(o) { for (let j = 0; j < o.length; j++) if (!(typeof o[j] === "number" && Number.isFinite(o[j])) && !(o[j] instanceof SymNum)) return false; return true; }
export function si(o, k, v) {
  if (k instanceof Sym) {
    if (k instanceof SymNum && (Array.isArray(o) || ArrayBuffer.isView(o))) { o[concNum(k)] = v; return v; }
    const p = findKey(o, k);
    o[p === undefined ? newKey(k) : p] = v;
    return v;
  }
  if (phId > 0 && typeof k === "string" && isPlainKeyed(o)) { o[findKey(o, k)] = v; return v; }
  if (k === "length" && v instanceof Sym) v = concNum(v);
  o[k] = v;
  return v;
}
export function key(k) {
  if (k instanceof SymEnum) return k.conc();
  if (k instanceof SymNum && k.t.sort === "I" && k.t.hi - k.t.lo <= 300) return String(concretize(k.t));
  if (k instanceof SymNum || k instanceof SymBool) { k = k.toString(); }
  if (k instanceof SymStr) return newKey(k);
  return k;
}
export function has(k, o) {
  if (k instanceof Sym || (phId > 0 && isPlainKeyed(o))) { const p = findKey(o, k); return p !== undefined && p in o; }
  return k in o;
}
export function del(o, k) {
  if (k instanceof Sym || (phId > 0 && isPlainKeyed(o))) { const p = findKey(o, k); return p === undefined ? true : delete o[p]; }
  return delete o[k];
}
export function forin(o) { const r = []; for (const k in o) r.push(decodeKey(k)); return r; }

export function ck(e) {
  if (E.aborted) throw E.aborted;
  if (e instanceof SpecAbort || (e && e.isPathAbort)) throw e;
  if (E.spec > 0) throw e;
  if (e instanceof RangeError && /call stack/.test(e.message)) abort("stack", "stack overflow");
}
const fnNames = [];
export function regFn(name) { fnNames.push(name); return fnNames.length - 1; }
export function f(id) {
  if (E.aborted) throw E.aborted;
  const n = fnNames[id];
  E.stats.fns.set(n, (E.stats.fns.get(n) ?? 0) + 1);
  if (++E.steps > E.maxSteps) abort("steps", "step limit exceeded");
}
const pure = new WeakSet();
export function p(fn) { pure.add(fn); return fn; }

// ---------- method calls ----------
export const arrayModels = new Map();
export let RX;
export let GL;
export function install(rx, gl) { RX = rx; GL = gl; }
const STR_NATIVE_OK = new Set();
export function m(o, k, args) {
  if (o === undefined || o === null) {
    throw new TypeError(`Cannot read properties of ${o} (reading '${String(k)}')`);
  }
  if (k instanceof Sym) k = i === undefined ? k : key(k);
  if (typeof o === "string") {
    let sym = false;
    for (const a of args) if (a instanceof Sym || typeof a === "function") { sym = true; break; }
    if (sym) {
      const fn = SymStr.prototype[k];
      if (typeof fn === "function") return fn.apply(new SymStr(codes(o)), args);
      return unsupported("string method " + k);
    }
    return o[k](...args);
  }
  if (Array.isArray(o)) {
    const mdl = arrayModels.get(k);
    if (mdl && o[k] === Array.prototype[k]) return mdl(o, args);
    return callChecked(o, k, args);
  }
  if (o instanceof RegExp && args[0] instanceof Sym) {
    if (/\\p\{(RGI_|Basic_Emoji|Emoji_Keycap)/.test(o.source)) return callChecked(o, k, args.map(concDeep)); // classes of strings
    if (k === "test") return RX.test(o, args[0]);
    if (k === "exec") return RX.exec(o, args[0]);
    if (k === Symbol.replace) return RX.replace(o, args[0], args[1]);
    return unsupported("regexp method " + String(k));
  }
  if (typeof o === "function") {
    if ((k === "call" || k === "apply") && (o === Object.prototype.hasOwnProperty) ) {
      const kk = k === "call" ? args[1] : args[1][0];
      return hasOwn(args[0], kk);
    }
    if ((k === "call" || k === "apply") && isNative(o)) {
      const aa = k === "call" ? args.slice(1) : args[1] ?? [];
      if (args[0] !== undefined && args[0] !== null && o.name && args[0][o.name] === o) return m(args[0], o.name, aa);
    }
  }
  if (typeof o === "number" && args.length && args[0] instanceof Sym) args = args.map((a) => (a instanceof SymNum ? concNum(a) : a));
  return callChecked(o, k, args);
}
function callChecked(o, k, args) {
  const fn = i(o, k);
  if (typeof fn !== "function") throw new TypeError(`${String(k)} is not a function`);
  if (isNative(fn)) {
    for (const a of args) if (a instanceof Sym && !NATIVE_OK.has(fn)) return nativeSym(fn, o, k, args);
  }
  return fn.apply(o, args);
}
function nativeSym(fn, o, k, args) {
  if (k === "hasOwnProperty") return hasOwn(o, args[0]);
  return fn.apply(o, args.map(concDeep));
}
export function hasOwn(o, k) { if (k instanceof Sym || phId > 0) { const p = findKey(o, k); return p !== undefined && Object.hasOwn(o, p); } return Object.hasOwn(o, k); }
const nativeCache = new WeakMap();
export function isNative(fn) {
  let r = nativeCache.get(fn);
  if (r === undefined) { r = /\{\s*\[native code\]\s*\}\s*$/.test(Function.prototype.toString.call(fn)); nativeCache.set(fn, r); }
  return r;
}
export const NATIVE_OK = new Set([
  Array.prototype.push, Array.prototype.unshift, Array.prototype.concat, Promise.resolve, Promise.reject, Promise.prototype.then,
  Function.prototype.call, Function.prototype.apply, Function.prototype.bind, WeakMap.prototype.set, Map.prototype.set, Reflect.apply, Array.of, Object.is,
]);

// ---------- arrays ----------
export function arrJoin(a, sep = ",") {
  let u = [];
  const su = units(sep);
  for (let j = 0; j < a.length; j++) { if (j) u = u.concat(su); if (a[j] !== undefined && a[j] !== null) u = u.concat(units(a[j])); }
  return mkStr(u);
}
const relIdx = (x, n, d) => { x = x === undefined ? d : x instanceof Sym ? concNum(x) : Math.trunc(Number(x)) || (x === Infinity || x === -Infinity ? x : 0); return x < 0 ? Math.max(0, n + x) : Math.min(x, n); };
const A = (n, fn) => arrayModels.set(n, fn);
A("filter", (a, [cb, th]) => { const r = []; for (let j = 0; j < a.length; j++) if (j in a) { const x = a[j]; if (t(cb.call(th, x, j, a))) r.push(x); } return r; });
A("find", (a, [cb, th]) => { for (let j = 0; j < a.length; j++) { const x = a[j]; if (t(cb.call(th, x, j, a))) return x; } return undefined; });
A("findIndex", (a, [cb, th]) => { for (let j = 0; j < a.length; j++) if (t(cb.call(th, a[j], j, a))) return j; return -1; });
A("findLast", (a, [cb, th]) => { for (let j = a.length - 1; j >= 0; j--) { const x = a[j]; if (t(cb.call(th, x, j, a))) return x; } return undefined; });
A("findLastIndex", (a, [cb, th]) => { for (let j = a.length - 1; j >= 0; j--) if (t(cb.call(th, a[j], j, a))) return j; return -1; });
A("some", (a, [cb, th]) => {
  let acc = T.FALSE;
  for (let j = 0; j < a.length; j++) if (j in a) {
    if (acc !== T.FALSE) {
      if (E.known.get(acc.id) === true) return true;
      const r = pure.has(cb) ? spec(() => cb.call(th, a[j], j, a)) : undefined;
      if (r && (isB(r.v))) { acc = T.or(acc, bt(r.v)); if (acc === T.TRUE) return true; continue; }
      if (branch(acc)) return true;
      acc = T.FALSE;
    }
    const v = truthTerm(cb.call(th, a[j], j, a));
    if (v === true) return true;
    if (v === false) continue;
    acc = v;
  }
  return mkBool(acc);
});
A("every", (a, [cb, th]) => {
  let acc = T.TRUE;
  for (let j = 0; j < a.length; j++) if (j in a) {
    if (acc !== T.TRUE) {
      const r = pure.has(cb) ? spec(() => cb.call(th, a[j], j, a)) : undefined;
      if (r && (isB(r.v))) { acc = T.and(acc, bt(r.v)); if (acc === T.FALSE) return false; continue; }
      if (!branch(acc)) return false;
      acc = T.TRUE;
    }
    const v = truthTerm(cb.call(th, a[j], j, a));
    if (v === false) return false;
    if (v === true) continue;
    acc = v;
  }
  return mkBool(acc);
});
A("includes", (a, [x, from]) => {
  const st = relIdx(from, a.length, 0);
  const cs = [];
  for (let j = st; j < a.length; j++) {
    if (typeof x === "number" && x !== x && typeof a[j] === "number" && a[j] !== a[j]) return true;
    const c = eqTerm(a[j], x); if (c === T.TRUE) return true; cs.push(c);
  }
  return mkBool(T.or(...cs));
});
A("indexOf", (a, [x, from]) => { for (let j = relIdx(from, a.length, 0); j < a.length; j++) if (j in a && branch(eqTerm(a[j], x))) return j; return -1; });
A("lastIndexOf", (a, [x, from]) => { let st = from === undefined ? a.length - 1 : idx(from); if (st < 0) st += a.length; for (let j = Math.min(st, a.length - 1); j >= 0; j--) if (branch(eqTerm(a[j], x))) return j; return -1; });
A("join", (a, [sep]) => arrJoin(a, sep === undefined ? "," : sep));
A("toString", (a) => arrJoin(a, ","));
A("at", (a, [k]) => { if (k instanceof Sym) { if (branch(T.lt(k.t, T.num(0)))) return i(a, add(k, a.length)); return i(a, k); } return a.at(k); });
A("slice", (a, [x, y]) => Array.prototype.slice.call(a, x instanceof Sym ? concNum(x) : x, y instanceof Sym ? concNum(y) : y));
A("splice", (a, args) => { args = args.slice(); for (let j = 0; j < 2; j++) if (args[j] instanceof Sym) args[j] = concNum(args[j]); return Array.prototype.splice.apply(a, args); });
A("fill", (a, [v, x, y]) => a.fill(v, x instanceof Sym ? concNum(x) : x, y instanceof Sym ? concNum(y) : y));
A("with", (a, [x, v]) => a.with(concNum(x), v));
function msort(a, cmpf) {
  if (a.length < 2) return a;
  const h = a.length >> 1, l = msort(a.slice(0, h), cmpf), r = msort(a.slice(h), cmpf), o = [];
  let x = 0, y = 0;
  while (x < l.length && y < r.length) { if (t(gt(cmpf(l[x], r[y]), 0))) o.push(r[y++]); else o.push(l[x++]); }
  while (x < l.length) o.push(l[x++]);
  while (y < r.length) o.push(r[y++]);
  return o;
}
function sorted(a, cmpf) {
  if (!cmpf) {
    if (!a.some((x) => x instanceof Sym)) return a.slice().sort();
    cmpf = (x, y) => { const p = mkStr(units(x)), q = mkStr(units(y)); return t(lt(p, q)) ? -1 : t(eq(p, q)) ? 0 : 1; };
  }
  const und = a.filter((x) => x === undefined).length;
  const r = msort(a.filter((x) => x !== undefined), cmpf);
  for (let j = 0; j < und; j++) r.push(undefined);
  return r;
}
A("sort", (a, [c]) => { const r = sorted(a, c); for (let j = 0; j < r.length; j++) a[j] = r[j]; return a; });
A("toSorted", (a, [c]) => sorted(a, c));
A("push", (a, args) => { for (const x of args) a[a.length] = x; return a.length; });

export { step };

export const len = (v) => (v instanceof Sym ? concNum(v) : v);
export const idxk = (k) => (k instanceof SymNum ? concNum(k) : key(k));
