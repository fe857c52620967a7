// Replacements for native globals inside instrumented modules.
import * as T from "./term.mjs";
import { E, branch, unsupported } from "./engine.mjs";
import * as R from "./rt.mjs";
const { Sym, SymBool, SymNum, SymStr, SymEnum, mkNum, mkBool, mkStr, numTerm, concNum, units, eqTerm, isStrLike } = R;

export let PRE = null;
export function setPrelude(p) { PRE = p; }
const anySym = (xs) => { for (const x of xs) if (x instanceof Sym) return true; return false; };

function over(target, statics, apply, construct) {
  return new Proxy(target, {
    get(t, k, r) { if (Object.hasOwn(statics, k)) return statics[k]; return Reflect.get(t, k); },
    ...(apply ? { apply(t, th, args) { return apply(...args); } } : {}),
    ...(construct ? { construct(t, args, nt) { return construct(args, nt); } } : {}),
  });
}
const real = (x) => numTerm(x);
const finite = (x) => !(typeof x === "number" && !Number.isFinite(x));
function minmax(args, isMin) {
  if (!anySym(args)) return isMin ? Math.min(...args) : Math.max(...args);
  let acc = isMin ? Infinity : -Infinity;
  for (let x of args) {
    if (isStrLike(x)) x = GNumber(x);
    if (x === undefined || (typeof x === "number" && Number.isNaN(x))) return NaN;
    if (x === null) x = 0;
    if (!finite(x)) { if (x === (isMin ? -Infinity : Infinity)) acc = x; continue; }
    if (!finite(acc)) { if (acc === (isMin ? Infinity : -Infinity)) acc = x; continue; }
    const a = real(acc), b = real(x);
    acc = mkNum(T.ite(isMin ? T.le(a, b) : T.le(b, a), a, b));
  }
  return acc;
}
const fl = (t) => T.floor(t);
const SMath = over(Math, {
  min: (...a) => minmax(a, true), max: (...a) => minmax(a, false),
  floor: (x) => (x instanceof Sym ? mkNum(fl(real(x))) : Math.floor(x)),
  ceil: (x) => (x instanceof Sym ? mkNum(T.neg(fl(T.neg(real(x))))) : Math.ceil(x)),
  round: (x) => (x instanceof Sym ? (real(x).sort === "I" ? x : mkNum(fl(T.add(real(x), T.num(0.5))))) : Math.round(x)),
  trunc: (x) => (x instanceof Sym ? (real(x).sort === "I" ? x : mkNum(T.ite(T.le(T.num(0), real(x)), fl(real(x)), T.neg(fl(T.neg(real(x))))))) : Math.trunc(x)),
  abs: (x) => (x instanceof Sym ? mkNum(T.ite(T.le(T.num(0), real(x)), real(x), T.neg(real(x)))) : Math.abs(x)),
  sign: (x) => (x instanceof Sym ? mkNum(T.ite(T.lt(real(x), T.num(0)), T.num(-1), T.ite(T.eq(real(x), T.num(0)), T.num(0), T.num(1)))) : Math.sign(x)),
  pow: (a, b) => R.pow(a, b),
  random: () => 0.5,
  ...Object.fromEntries(["log", "log2", "log10", "sqrt", "exp", "sin", "cos", "hypot", "cbrt", "imul", "fround", "clz32"].map((k) => [k, (...a) => (anySym(a) ? unsupported("Math." + k) : Math[k](...a))])),
});
function isIntTerm(x) { return x.t.sort === "I" ? T.TRUE : T.eq(T.toReal(T.floor(x.t)), x.t); }
const GNumber = over(Number, {
  isInteger: (x) => (x instanceof SymNum ? mkBool(isIntTerm(x)) : Number.isInteger(x)),
  isSafeInteger: (x) => (x instanceof SymNum ? mkBool(T.and(isIntTerm(x), T.le(T.num(-Number.MAX_SAFE_INTEGER), x.t), T.le(x.t, T.num(Number.MAX_SAFE_INTEGER)))) : Number.isSafeInteger(x)),
  isFinite: (x) => (x instanceof SymNum ? true : Number.isFinite(x)),
  isNaN: (x) => (x instanceof SymNum ? false : Number.isNaN(x)),
  parseInt: (...a) => GparseInt(...a),
  parseFloat: (...a) => GparseFloat(...a),
}, (...a) => {
  const x = a[0];
  if (x instanceof SymNum) return x;
  if (x instanceof SymBool) return mkNum(T.ite(x.t, T.num(1), T.num(0)));
  if (x instanceof SymEnum) return Number(x.conc());
  if (x instanceof SymStr) return PRE.numberFromString(x);
  return Number(...a);
});
const GparseInt = (x, r) => {
  if (x instanceof SymNum && x.t.sort === "I" && (r === undefined || r === 10)) return x;
  return x instanceof Sym ? PRE.parseInt(x, r) : parseInt(x, r);
};
const GparseFloat = (x) => (x instanceof SymNum ? x : x instanceof Sym ? PRE.parseFloat(x) : parseFloat(x));
const GString = over(String, {
  fromCharCode: (...a) => {
    if (!anySym(a)) return String.fromCharCode(...a);
    return mkStr(a.map((x) => {
      if (typeof x === "number") return x & 0xffff;
      const tm = numTerm(x);
      if (tm.lo < 0 || tm.hi > 65535) return R.normUnit(T.imod(tm, T.num(65536)));
      return R.normUnit(tm);
    }));
  },
  fromCodePoint: (...a) => {
    if (!anySym(a)) return String.fromCodePoint(...a);
    let u = [];
    for (const x of a) {
      const tm = numTerm(x);
      if (!branch(T.and(T.le(T.num(0), tm), T.le(tm, T.num(0x10ffff))))) throw new RangeError("Invalid code point");
      if (branch(T.lt(tm, T.num(0x10000)))) u.push(R.normUnit(tm));
      else { const v = T.sub(tm, T.num(0x10000)); u.push(R.normUnit(T.add(T.num(0xd800), T.idiv(v, T.num(1024)))), R.normUnit(T.add(T.num(0xdc00), T.imod(v, T.num(1024))))); }
    }
    return mkStr(u);
  },
}, (...a) => (a.length && (a[0] instanceof Sym || (typeof a[0] === "object" && a[0] !== null)) ? (a[0] instanceof SymEnum ? a[0] : mkStr(units(a[0]))) : String(...a)));
const GBoolean = over(Boolean, {}, (...a) => { const x = a[0]; if (x instanceof Sym) { const c = R.truthTerm(x); return typeof c === "boolean" ? c : mkBool(c); } return Boolean(x); });

const dk = R.decodeKey;
const GObject = over(Object, {
  keys: (o) => { if (o instanceof SymStr) return o.u.map((_, i) => String(i)); return Object.keys(o).map(dk); },
  entries: (o) => Object.entries(o).map(([k, v]) => [dk(k), v]),
  fromEntries: (it) => { const o = {}; for (const [k, v] of it) R.si(o, k, v); return o; },
  hasOwn: (o, k) => R.hasOwn(o, k),
  is: (a, b) => (a instanceof Sym || b instanceof Sym ? mkBool(eqTerm(a, b)) : Object.is(a, b)),
  getOwnPropertyNames: (o) => Object.getOwnPropertyNames(o).map(dk),
  freeze: (o) => (o instanceof Sym ? o : Object.freeze(o)),
  isFrozen: (o) => (o instanceof Sym ? true : Object.isFrozen(o)),
  groupBy: (it, fn) => { const o = Object.create(null); let i = 0; for (const x of it) { const k = fn(x, i++); const p = R.i(o, k); if (p) p.push(x); else R.si(o, k, [x]); } return o; },
}, (...a) => Object(...a));
const GArray = over(Array, {
  from: (x, fn, th) => {
    if (x !== null && typeof x === "object" && x.length instanceof Sym) x = { ...x, length: concNum(x.length) };
    return Array.from(x, fn, th);
  },
  of: (...a) => a,
}, (...a) => (a.length === 1 && a[0] instanceof Sym ? new Array(concNum(a[0])) : new Array(...a)), (args, nt) => (args.length === 1 && args[0] instanceof Sym ? new Array(concNum(args[0])) : Reflect.construct(Array, args, nt === GArray ? Array : nt)));

// ----- Map / Set with symbolic keys
const inst = (C) => ({ value(x) { return Function.prototype[Symbol.hasInstance].call(C, x); } });
export class SMap extends Map {
  constructor(it) { super(); this._s = 0; if (it) for (const [k, v] of it) this.set(k, v); }
  _find(k) {
    if (!(k instanceof Sym)) {
      if (super.has(k)) return [k];
      if (this._s === 0 || (typeof k === "object" && k !== null) || typeof k === "function" || k === undefined) return undefined;
    }
    for (const q of super.keys()) { if (!(q instanceof Sym) && !(k instanceof Sym)) continue; if (branch(eqTerm(q, k))) return [q]; }
    return undefined;
  }
  get(k) { if (this._s === 0 && !(k instanceof Sym)) return super.get(k); const f = this._find(k); return f ? super.get(f[0]) : undefined; }
  has(k) {
    if (!(k instanceof Sym)) { if (super.has(k)) return true; if (this._s === 0) return false; }
    const cs = [];
    for (const q of super.keys()) if (q instanceof Sym || k instanceof Sym) cs.push(eqTerm(q, k));
    return mkBool(T.or(...cs));
  }
  set(k, v) {
    if (this._s === undefined) this._s = 0;
    if (this._s === 0 && !(k instanceof Sym)) { super.set(k, v); return this; }
    const f = this._find(k);
    if (f) super.set(f[0], v);
    else { if (k instanceof Sym) this._s++; super.set(k, v); }
    return this;
  }
  delete(k) { if (this._s === 0 && !(k instanceof Sym)) return super.delete(k); const f = this._find(k); if (!f) return false; if (f[0] instanceof Sym) this._s--; return super.delete(f[0]); }
  clear() { this._s = 0; super.clear(); }
}
Object.defineProperty(SMap, Symbol.hasInstance, { value(x) { return this === SMap ? x instanceof Map : Function.prototype[Symbol.hasInstance].call(this, x); } });
Object.defineProperty(SMap, "name", { value: "Map" });
SMap.groupBy = (it, fn) => { const o = new SMap(); let i = 0; for (const x of it) { const k = fn(x, i++); const p = o.get(k); if (p) p.push(x); else o.set(k, [x]); } return o; };
export class SSet extends Set {
  constructor(it) { super(); this._s = 0; if (it) for (const k of it) this.add(k); }
  _find(k) {
    if (!(k instanceof Sym)) {
      if (super.has(k)) return [k];
      if (this._s === 0 || (typeof k === "object" && k !== null) || typeof k === "function" || k === undefined) return undefined;
    }
    for (const q of super.keys()) { if (!(q instanceof Sym) && !(k instanceof Sym)) continue; if (branch(eqTerm(q, k))) return [q]; }
    return undefined;
  }
  has(k) {
    if (!(k instanceof Sym)) { if (super.has(k)) return true; if (this._s === 0) return false; }
    const cs = [];
    for (const q of super.keys()) if (q instanceof Sym || k instanceof Sym) cs.push(eqTerm(q, k));
    return mkBool(T.or(...cs));
  }
  add(k) {
    if (this._s === undefined) this._s = 0;
    if (this._s === 0 && !(k instanceof Sym)) { super.add(k); return this; }
    if (!this._find(k)) { if (k instanceof Sym) this._s++; super.add(k); }
    return this;
  }
  delete(k) { if (this._s === 0 && !(k instanceof Sym)) return super.delete(k); const f = this._find(k); if (!f) return false; if (f[0] instanceof Sym) this._s--; return super.delete(f[0]); }
  clear() { this._s = 0; super.clear(); }
  union(o) { const r = new SSet(this); for (const x of o.keys()) r.add(x); return r; }
  difference(o) { const r = new SSet(); for (const x of this) if (!R.t(o.has(x))) r.add(x); return r; }
  intersection(o) { const r = new SSet(); for (const x of this) if (R.t(o.has(x))) r.add(x); return r; }
  isSubsetOf(o) { for (const x of this) if (!R.t(o.has(x))) return false; return true; }
}
Object.defineProperty(SSet, Symbol.hasInstance, { value(x) { return this === SSet ? x instanceof Set : Function.prototype[Symbol.hasInstance].call(this, x); } });
Object.defineProperty(SSet, "name", { value: "Set" });

// ----- errors whose message may be symbolic
function symErr(N) {
  const C = class extends N {
    constructor(msg, opts) {
      const sym = msg instanceof Sym || (typeof msg === "object" && msg !== null);
      super(sym ? "" : msg, opts);
      if (sym) Object.defineProperty(this, "message", { value: mkStr(units(msg)), writable: true, configurable: true, enumerable: false });
    }
    toString() { const n = this.name, mm = this.message; if (n instanceof Sym || mm instanceof Sym) { if (mm.length === 0) return n; return mkStr(units(n).concat(units(": "), units(mm))); } return super.toString(); }
  };
  Object.defineProperty(C, "name", { value: N.name });
  Object.defineProperty(C, Symbol.hasInstance, { value(x) { return this === C || this === P ? Function.prototype[Symbol.hasInstance].call(N, x) : Function.prototype[Symbol.hasInstance].call(this, x); } });
  const P = new Proxy(C, { apply(t, th, a) { return new C(...a); } });
  return P;
}
const GError = symErr(Error);

const GJSON = over(JSON, {
  stringify: (v, r, s) => PRE.jsonStringify(v, r, s),
  parse: (v, r) => (v instanceof Sym ? PRE.jsonParse(v, r) : JSON.parse(v, r)),
});

// ----- clock
export const clock = { now: 1_700_000_000_000 };
class SDate extends Date {
  constructor(...a) {
    if (a.length === 0) { if (clock.now instanceof Sym) { super(0); this._sym = clock.now; } else super(clock.now); }
    else if (a[0] instanceof Sym) { if (a[0] instanceof SymNum) { super(0); this._sym = a[0]; } else { super(units(a[0]).every((c) => typeof c === "number") ? mkStr(units(a[0])) : unsupported("Date from symbolic string")); } }
    else super(...a);
  }
  getTime() { return this._sym ?? super.getTime(); }
  valueOf() { return this._sym ?? super.valueOf(); }
  toISOString() { if (this._sym) return isoOf(this._sym); return super.toISOString(); }
  toJSON() { return this.toISOString(); }
  static now() { return clock.now; }
}
Object.defineProperty(SDate, Symbol.hasInstance, { value(x) { return x instanceof Date; } });
Object.defineProperty(SDate, "name", { value: "Date" });
for (const k of Object.getOwnPropertyNames(Date.prototype)) {
  if (/^(get|set|toLocale|toUTC|toDate|toTime|toString)/.test(k) && k !== "getTime" && typeof Date.prototype[k] === "function")
    SDate.prototype[k] = function (...a) { if (this._sym) return unsupported("Date." + k); return Date.prototype[k].apply(this, a); };
}
function isoOf(ms) { return new Date(concNum(ms)).toISOString(); }

// ----- Buffer (only symbolic-aware static parts)
export class SymBytes {
  // immutable-ish byte array with symbolic elements
  constructor(b) { this.b = b; this.length = b.length; this.byteLength = b.length; return new Proxy(this, { get(t, k, r) { if (typeof k === "string" && /^\d+$/.test(k)) return t.b[Number(k)]; return Reflect.get(t, k, t); } }); }
  _r(s, e) { const n = this.b.length; s = s === undefined ? 0 : concNum(s); e = e === undefined ? n : concNum(e); if (s < 0) s = Math.max(0, n + s); if (e < 0) e = Math.max(0, n + e); return [Math.min(s, n), Math.min(e, n)]; }
  toString(enc, s, e) {
    enc = enc ?? "utf8";
    const [x, y] = this._r(s, e);
    if (enc === "utf8" || enc === "utf-8") return PRE.utf8Decode(this.b, x, y, false);
    if (enc === "latin1" || enc === "binary") return mkStr(this.b.slice(x, y).map((v) => (v instanceof SymNum ? v.t : v)));
    return unsupported("Buffer.toString " + enc);
  }
  subarray(s, e) { const [x, y] = this._r(s, e); return mkBytes(this.b.slice(x, y)); }
  slice(s, e) { return this.subarray(s, e); }
  *[Symbol.iterator]() { yield* this.b; }
  indexOf(v, from = 0) { const pat = typeof v === "number" ? [v] : isStrLike(v) ? PRE.utf8Bytes(v) : [...v]; for (let p = concNum(from); p + pat.length <= this.b.length; p++) { let c = T.TRUE; for (let k = 0; k < pat.length; k++) c = T.and(c, eqTerm(this.b[p + k], pat[k])); if (branch(c)) return p; } return -1; }
  includes(v, from) { return this.indexOf(v, from) >= 0; }
  lastIndexOf(v) { const pat = typeof v === "number" ? [v] : isStrLike(v) ? PRE.utf8Bytes(v) : [...v]; for (let p = this.b.length - pat.length; p >= 0; p--) { let c = T.TRUE; for (let k = 0; k < pat.length; k++) c = T.and(c, eqTerm(this.b[p + k], pat[k])); if (branch(c)) return p; } return -1; }
  equals(o) { if (o.length !== this.length) return false; let c = T.TRUE; for (let k = 0; k < this.b.length; k++) c = T.and(c, eqTerm(this.b[k], o[k])); return mkBool(c); }
  readUInt8(i) { return this.b[i]; }
  _ru(i, n) { i = concNum(i ?? 0); if (!Number.isInteger(i) || i < 0 || i + n > this.b.length) throw Object.assign(new RangeError("The value of \"offset\" is out of range."), { code: "ERR_OUT_OF_RANGE" }); return PRE.readUInt(this.b, i, n); }
  readUInt16LE(i) { return this._ru(i, 2); }
  readUInt32LE(i) { return this._ru(i, 4); }
  at(i) { i = concNum(i); return this.b[i < 0 ? this.b.length + i : i]; }
}
export function mkBytes(b) { for (const x of b) if (x instanceof Sym) return new SymBytes(b); return Buffer.from(b); }
const GBuffer = over(Buffer, {
  byteLength: (s, enc) => { if (s instanceof SymEnum) s = s.conc(); if (s instanceof SymStr) return PRE.utf8Length(s); if (s instanceof SymBytes) return s.length; return Buffer.byteLength(s, enc); },
  from: (s, ...r) => { if (s instanceof SymEnum) s = s.conc(); if (s instanceof SymStr) { if (r[0] === undefined || /^utf-?8$/i.test(r[0])) return mkBytes(PRE.utf8Bytes(s)); if (/^(latin1|binary)$/.test(r[0])) return mkBytes(s.u.map((c) => (typeof c === "number" ? c & 255 : mkNum(T.imod(c, T.num(256)))))); return unsupported("Buffer.from " + r[0]); } if (s instanceof SymBytes) return s; if (Array.isArray(s) && anySym(s)) return mkBytes(s); return Buffer.from(s, ...r); },
  concat: (l, n) => (l.some((x) => x instanceof SymBytes) ? mkBytes(l.flatMap((x) => [...x])) : Buffer.concat(l, n)),
  isBuffer: (x) => x instanceof SymBytes || Buffer.isBuffer(x),
  alloc: (n, ...r) => Buffer.alloc(concNum(n), ...r),
  allocUnsafe: (n, ...r) => Buffer.alloc(concNum(n), ...r),
  compare: (a, b) => (a instanceof SymBytes || b instanceof SymBytes ? unsupported("Buffer.compare") : Buffer.compare(a, b)),
}, (...a) => Buffer(...a));
class STextEncoder { encode(s = "") { if (s instanceof SymStr) return mkBytes(PRE.utf8Bytes(s)); if (s instanceof SymEnum) s = s.conc(); return new TextEncoder().encode(s); } get encoding() { return "utf-8"; } }
class STextDecoder {
  constructor(l, o) { this.d = new TextDecoder(l, o); this.o = o ?? {}; this.rest = null; this.encoding = "utf-8"; }
  decode(b, opt) {
    if (b instanceof SymBytes || this.rest) return unsupported("TextDecoder on symbolic bytes (stream)");
    return this.d.decode(b, opt);
  }
}
const Gencode = (s) => {
  s = s instanceof SymEnum ? s.conc() : s;
  if (!(s instanceof SymStr)) return encodeURIComponent(s);
  let out = [];
  const cs = s.u;
  for (let i = 0; i < cs.length; i++) {
    const c = cs[i];
    if (branch(R.inRanges(c, [[48, 57], [65, 90], [97, 122], [45, 46], [95, 95], [126, 126], [33, 33], [39, 42]]))) { out.push(c); continue; }
    let ch = mkStr([c]);
    if (branch(R.inRanges(c, [[0xd800, 0xdfff]]))) {
      if (i + 1 < cs.length && branch(T.and(R.inRanges(c, [[0xd800, 0xdbff]]), R.inRanges(cs[i + 1], [[0xdc00, 0xdfff]])))) { ch = mkStr([c, cs[i + 1]]); i++; }
      else throw new URIError("URI malformed");
    }
    for (const b of PRE.utf8Bytes(ch)) {
      const bt = numTerm(b);
      const hx = (v) => R.normUnit(T.ite(T.lt(v, T.num(10)), T.add(v, T.num(48)), T.add(v, T.num(55))));
      out.push(37, hx(T.idiv(bt, T.num(16))), hx(T.imod(bt, T.num(16))));
    }
  }
  return mkStr(out);
};
const GRegExp = over(RegExp, {}, (p, f) => (p instanceof SymStr ? unsupported("RegExp from symbolic pattern") : RegExp(p instanceof SymEnum ? p.conc() : p, f)), (args, nt) => (args[0] instanceof SymStr ? unsupported("RegExp from symbolic pattern") : new RegExp(...args.map((a) => (a instanceof SymEnum ? a.conc() : a)))));

// Text segmentation. A unit that is a plain letter, digit, sign or blank (or a CJK ideograph) behaves alike for grapheme
// boundaries whichever it is, so it stays symbolic; every other unit, and all units for words and sentences, are case-split.
const PLAIN = [[0x20, 0x7e], [0x4e00, 0x9fff]];
class SSegmenter extends Intl.Segmenter {
  constructor(l, o) { super(l, o); this.kind = o?.granularity ?? "grapheme"; }
  segment(str) {
    if (str instanceof SymEnum) str = str.conc();
    if (!(str instanceof SymStr)) return super.segment(str);
    const us = str.u.map((c) => (typeof c === "number" ? c : this.kind === "grapheme" && branch(R.inRanges(c, PLAIN)) ? c : concNum(mkNum(c))));
    const shadow = us.map((c) => (typeof c === "number" ? c : 0x61));
    const out = [...super.segment(String.fromCharCode(...shadow))].map((x) => ({ ...x, segment: mkStr(us.slice(x.index, x.index + x.segment.length)), input: str }));
    return { [Symbol.iterator]: () => out[Symbol.iterator](), containing: (i = 0) => { i = concNum(i); return out.find((x) => i >= x.index && i < x.index + x.segment.length); } };
  }
}
const GIntl = new Proxy(Intl, { get: (t, k) => (k === "Segmenter" ? SSegmenter : t[k]) });
export const GLOBALS = {
  Intl: GIntl,
  Math: SMath, Number: GNumber, String: GString, Boolean: GBoolean, Object: GObject, Array: GArray, Map: SMap, Set: SSet,
  Error: GError, TypeError: symErr(TypeError), RangeError: symErr(RangeError), SyntaxError: symErr(SyntaxError), URIError: symErr(URIError),
  JSON: GJSON, Date: SDate, Buffer: GBuffer, TextEncoder: STextEncoder, TextDecoder: STextDecoder,
  parseInt: GparseInt, parseFloat: GparseFloat,
  isNaN: (x) => (x instanceof SymNum ? false : x instanceof Sym ? R.t(R.ne(GNumber(x), GNumber(x))) || Number.isNaN(GNumber(x)) : isNaN(x)),
  isFinite: (x) => (x instanceof SymNum ? true : x instanceof Sym ? GNumber.isFinite(GNumber(x)) : isFinite(x)),
  structuredClone: (v) => PRE.structuredClone(v),
  encodeURIComponent: Gencode,
  RegExp: GRegExp,
};
export const PRELUDE_EXTRA = {
  __conc: (x) => concNum(x),
  __native: (x) => typeof x === "string",
  __N: (s) => Number(s),
  __JSON: JSON,
  __structuredClone: structuredClone,
};
R.install(null, GLOBALS);
