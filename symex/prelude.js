// Plain-JS models of native functions. This file is instrumented like the code under test, so the
// models work on symbolic values. `__conc(x)` = case split.
exports.numberFromString = function numberFromString(s0) {
  const s = s0.trim();
  const n = s.length;
  if (n === 0) return 0;
  if (typeof s === "string" && __native(s)) return __N(s);
  let i = 0, sign = 1, c = s.charCodeAt(0);
  if (c === 43 || c === 45) { if (c === 45) sign = -1; i = 1; }
  if (i === 0 && n > 2 && c === 48) { const d = s.charCodeAt(1); if (d === 120 || d === 88) return exports.radix(s, 2, 16); if (d === 98 || d === 66) return exports.radix(s, 2, 2); if (d === 111 || d === 79) return exports.radix(s, 2, 8); }
  if (n - i === 8 && s.slice(i) === "Infinity") return sign * Infinity;
  let v = 0, digits = 0, frac = 0, scale = 1;
  for (; i < n; i++) { c = s.charCodeAt(i); if (c >= 48 && c <= 57) { v = v * 10 + (c - 48); digits++; } else break; }
  if (i < n && s.charCodeAt(i) === 46) { i++; for (; i < n; i++) { c = s.charCodeAt(i); if (c >= 48 && c <= 57) { frac = frac * 10 + (c - 48); scale *= 10; digits++; } else break; } }
  if (digits === 0) return NaN;
  if (scale > 1) { if (frac !== 0) v = v + frac / scale; }
  if (i < n && (s.charCodeAt(i) | 32) === 101) {
    i++; let es = 1, e = 0, ed = 0; if (i < n) { c = s.charCodeAt(i); if (c === 43 || c === 45) { if (c === 45) es = -1; i++; } }
    for (; i < n; i++) { c = s.charCodeAt(i); if (c >= 48 && c <= 57) { e = e * 10 + (c - 48); ed++; } else break; }
    if (ed === 0) return NaN;
    e = __conc(e);
    v = es > 0 ? v * 10 ** e : v / 10 ** e;
  }
  if (i !== n) return NaN;
  return sign === 1 ? v : -v;
};
exports.radix = function radix(s, i, r) {
  let v = 0; if (i >= s.length) return NaN;
  for (; i < s.length; i++) { const d = exports.digit(s.charCodeAt(i)); if (d < 0 || d >= r) return NaN; v = v * r + d; }
  return v;
};
exports.digit = function digit(c) { if (c >= 48 && c <= 57) return c - 48; if (c >= 97 && c <= 122) return c - 87; if (c >= 65 && c <= 90) return c - 55; return -1; };
exports.parseInt = function (s, radix) {
  s = String(s).trimStart();
  let i = 0, neg = false;
  if (s.length > 0) { const c = s.charCodeAt(0); if (c === 43 || c === 45) { neg = c === 45; i = 1; } }
  let r = radix === undefined ? 10 : radix;
  if (r === 0) r = 10;
  if ((radix === undefined || r === 16 || radix === 0) && s.length > i + 1 && s.charCodeAt(i) === 48 && (s.charCodeAt(i + 1) === 120 || s.charCodeAt(i + 1) === 88)) { r = 16; i += 2; }
  let v = 0, any = false;
  for (; i < s.length; i++) { const d = exports.digit(s.charCodeAt(i)); if (d < 0 || d >= r) break; v = v * r + d; any = true; }
  if (!any) return NaN;
  return neg ? -v : v;
};
exports.parseFloat = function (s) {
  s = String(s).trimStart();
  const m = /^[+-]?(?:Infinity|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)/.exec(s);
  return m ? Number(m[0]) : NaN;
};
exports.jsonQuote = function jsonQuote(s) {
  if (__native(s)) return __JSON.stringify(s);
  let out = '"';
  const n = s.length;
  for (let i = 0; i < n; i++) {
    const c = s.charCodeAt(i);
    if (c === 34) out += '\\"';
    else if (c === 92) out += "\\\\";
    else if (c < 32) { const k = __conc(c); out += __JSON.stringify(String.fromCharCode(k)).slice(1, -1); }
    else if (c >= 0xd800 && c <= 0xdfff) {
      if (c <= 0xdbff && i + 1 < n) { const d = s.charCodeAt(i + 1); if (d >= 0xdc00 && d <= 0xdfff) { out += s[i] + s[i + 1]; i++; continue; } }
      out += "\\u" + exports.hex4(c);
    } else out += s[i];
  }
  return out + '"';
};
exports.hex4 = function hex4(c) { let o = ""; for (let k = 3; k >= 0; k--) { const d = Math.floor(c / 16 ** k) % 16; o += d < 10 ? String.fromCharCode(48 + d) : String.fromCharCode(87 + d); } return o; };
exports.jsonStringify = function jsonStringify(value, replacer, space) {
  const indent = typeof space === "number" ? " ".repeat(Math.min(10, space)) : typeof space === "string" ? space.slice(0, 10) : "";
  const allow = Array.isArray(replacer) ? replacer.map(String) : undefined;
  const fn = typeof replacer === "function" ? replacer : undefined;
  const seen = [];
  function ser(holder, key, ind) {
    let v = holder[key];
    if (v !== null && typeof v === "object" && typeof v.toJSON === "function") v = v.toJSON(key);
    if (fn) v = fn.call(holder, key, v);
    if (v === null) return "null";
    const ty = typeof v;
    if (ty === "boolean") return v ? "true" : "false";
    if (ty === "string") return exports.jsonQuote(v);
    if (ty === "number") return Number.isFinite(v) ? String(v) : "null";
    if (ty === "bigint") throw new TypeError("Do not know how to serialize a BigInt");
    if (ty !== "object") return undefined;
    if (seen.includes(v)) throw new TypeError("Converting circular structure to JSON");
    seen.push(v);
    const inner = ind + indent;
    const parts = [];
    let out;
    if (Array.isArray(v)) {
      for (let i = 0; i < v.length; i++) { const p = ser(v, i, inner); parts.push(p === undefined ? "null" : p); }
      out = parts.length === 0 ? "[]" : indent ? "[\n" + inner + parts.join(",\n" + inner) + "\n" + ind + "]" : "[" + parts.join(",") + "]";
    } else {
      for (const k of allow ?? Object.keys(v)) { const p = ser(v, k, inner); if (p !== undefined) parts.push(exports.jsonQuote(k) + (indent ? ": " : ":") + p); }
      out = parts.length === 0 ? "{}" : indent ? "{\n" + inner + parts.join(",\n" + inner) + "\n" + ind + "}" : "{" + parts.join(",") + "}";
    }
    seen.pop();
    return out;
  }
  return ser({ "": value }, "", "");
};
exports.jsonParse = function jsonParse(text, reviver) {
  const s = String(text);
  if (__native(s)) return __JSON.parse(s, reviver);
  let i = 0;
  const fail = () => { throw new SyntaxError("Unexpected token in JSON at position " + i); };
  const ws = () => { while (i < s.length) { const c = s.charCodeAt(i); if (c === 32 || c === 9 || c === 10 || c === 13) i++; else break; } };
  function lit(w, v) { if (s.length - i >= w.length && s.slice(i, i + w.length) === w) { i += w.length; return v; } return fail(); }
  function str() {
    i++;
    let out = "";
    for (;;) {
      if (i >= s.length) fail();
      const c = s.charCodeAt(i);
      if (c === 34) { i++; return out; }
      if (c < 32) fail();
      if (c === 92) {
        i++;
        if (i >= s.length) fail();
        const e = s.charCodeAt(i);
        if (e === 34) out += '"'; else if (e === 92) out += "\\"; else if (e === 47) out += "/"; else if (e === 98) out += "\b"; else if (e === 102) out += "\f"; else if (e === 110) out += "\n"; else if (e === 114) out += "\r"; else if (e === 116) out += "\t";
        else if (e === 117) { let v = 0; for (let k = 1; k <= 4; k++) { if (i + k >= s.length) fail(); const d = exports.digit(s.charCodeAt(i + k)); if (d < 0 || d > 15) fail(); v = v * 16 + d; } i += 4; out += String.fromCharCode(v); }
        else fail();
        i++;
      } else { out += s[i]; i++; }
    }
  }
  function val() {
    ws();
    if (i >= s.length) fail();
    const c = s.charCodeAt(i);
    if (c === 123) {
      i++; const o = {}; ws();
      if (i < s.length && s.charCodeAt(i) === 125) { i++; return o; }
      for (;;) {
        ws(); if (i >= s.length || s.charCodeAt(i) !== 34) fail();
        const k = str(); ws(); if (i >= s.length || s.charCodeAt(i) !== 58) fail();
        i++; const v = val();
        if (__native(k) && k === "__proto__") Object.defineProperty(o, k, { value: v, enumerable: true, configurable: true, writable: true }); else o[k] = v;
        ws();
        if (i < s.length && s.charCodeAt(i) === 44) { i++; continue; }
        if (i < s.length && s.charCodeAt(i) === 125) { i++; return o; }
        fail();
      }
    }
    if (c === 91) {
      i++; const a = []; ws();
      if (i < s.length && s.charCodeAt(i) === 93) { i++; return a; }
      for (;;) { a.push(val()); ws(); if (i < s.length && s.charCodeAt(i) === 44) { i++; continue; } if (i < s.length && s.charCodeAt(i) === 93) { i++; return a; } fail(); }
    }
    if (c === 34) return str();
    if (c === 116) return lit("true", true);
    if (c === 102) return lit("false", false);
    if (c === 110) return lit("null", null);
    const st = i;
    if (c === 45) i++;
    if (i >= s.length) fail();
    let d = s.charCodeAt(i);
    if (d === 48) i++;
    else if (d >= 49 && d <= 57) { while (i < s.length) { d = s.charCodeAt(i); if (d >= 48 && d <= 57) i++; else break; } }
    else fail();
    if (i < s.length && s.charCodeAt(i) === 46) { i++; let k = 0; while (i < s.length) { d = s.charCodeAt(i); if (d >= 48 && d <= 57) { i++; k++; } else break; } if (k === 0) fail(); }
    if (i < s.length) { d = s.charCodeAt(i); if (d === 101 || d === 69) { i++; if (i < s.length) { d = s.charCodeAt(i); if (d === 43 || d === 45) i++; } let k = 0; while (i < s.length) { d = s.charCodeAt(i); if (d >= 48 && d <= 57) { i++; k++; } else break; } if (k === 0) fail(); } }
    return Number(s.slice(st, i));
  }
  const r = val();
  ws();
  if (i < s.length) fail();
  if (reviver) {
    const walk = (h, k) => { const v = h[k]; if (v !== null && typeof v === "object") for (const q of Object.keys(v)) { const n = walk(v, q); if (n === undefined) delete v[q]; else v[q] = n; } return reviver.call(h, k, v); };
    return walk({ "": r }, "");
  }
  return r;
};
exports.structuredClone = function structuredClone(v, seen) {
  seen = seen ?? new Map();
  if (typeof v === "function" || typeof v === "symbol") throw new DOMException("could not be cloned", "DataCloneError");
  if (v === null || typeof v !== "object") return v;
  if (seen.has(v)) return seen.get(v);
  if (Array.isArray(v)) { const a = []; seen.set(v, a); for (let i = 0; i < v.length; i++) if (i in v) a[i] = exports.structuredClone(v[i], seen); else a.length = i + 1; return a; }
  if (v instanceof Map) { const a = new Map(); seen.set(v, a); for (const [k, x] of v) a.set(exports.structuredClone(k, seen), exports.structuredClone(x, seen)); return a; }
  if (v instanceof Set) { const a = new Set(); seen.set(v, a); for (const x of v) a.add(exports.structuredClone(x, seen)); return a; }
  if (v instanceof Error || v instanceof Date || v instanceof RegExp || ArrayBuffer.isView(v) || v instanceof ArrayBuffer) return __structuredClone(v);
  const o = {};
  seen.set(v, o);
  for (const k of Object.keys(v)) o[k] = exports.structuredClone(v[k], seen);
  return o;
};
exports.deepEqual = function deepEqual(a, b) {
  if (a === b) return true;
  if (typeof a === "number" && typeof b === "number") return Number.isNaN(a) && Number.isNaN(b);
  if (a === null || b === null || typeof a !== "object" || typeof b !== "object") return false;
  if (Object.getPrototypeOf(a) !== Object.getPrototypeOf(b)) return false;
  if (Array.isArray(a)) { if (a.length !== b.length) return false; for (let i = 0; i < a.length; i++) if (!exports.deepEqual(a[i], b[i])) return false; return true; }
  if (a instanceof Map) { if (a.size !== b.size) return false; for (const [k, v] of a) if (!b.has(k) || !exports.deepEqual(v, b.get(k))) return false; return true; }
  if (a instanceof Set) { if (a.size !== b.size) return false; for (const k of a) if (!b.has(k)) return false; return true; }
  if (a instanceof Date) return a.getTime() === b.getTime();
  const ka = Object.keys(a), kb = Object.keys(b);
  if (ka.length !== kb.length) return false;
  for (const k of ka) { if (!Object.hasOwn(b, k)) return false; if (!exports.deepEqual(a[k], b[k])) return false; }
  return true;
};
exports.utf8Length = function utf8Length(s) {
  let n = 0;
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    n += c < 0x80 ? 1 : c < 0x800 ? 2 : 3;
    // a well-formed pair takes 4 bytes: 3 + 3 - 2
    if (i + 1 < s.length) { const d = s.charCodeAt(i + 1); n += c >= 0xd800 && c <= 0xdbff && d >= 0xdc00 && d <= 0xdfff ? -2 : 0; }
  }
  return n;
};
exports.utf8Bytes = function utf8Bytes(s) {
  const out = [];
  for (let i = 0; i < s.length; i++) {
    let c = s.charCodeAt(i);
    if (c < 0x80) out.push(c);
    else if (c < 0x800) out.push(192 + Math.floor(c / 64), 128 + (c % 64));
    else if (c >= 0xd800 && c <= 0xdfff) {
      let pair = false;
      if (c <= 0xdbff && i + 1 < s.length) { const d = s.charCodeAt(i + 1); if (d >= 0xdc00 && d <= 0xdfff) { const p = (c - 0xd800) * 1024 + (d - 0xdc00) + 0x10000; out.push(240 + Math.floor(p / 262144), 128 + (Math.floor(p / 4096) % 64), 128 + (Math.floor(p / 64) % 64), 128 + (p % 64)); i++; pair = true; } }
      if (!pair) out.push(0xef, 0xbf, 0xbd);
    } else out.push(224 + Math.floor(c / 4096), 128 + (Math.floor(c / 64) % 64), 128 + (c % 64));
  }
  return out;
};
// WHATWG utf-8 decoder (replacement mode)
exports.utf8Decode = function utf8Decode(b, start, end, stripBom) {
  let out = "", i = start;
  if (stripBom && end - i >= 3 && b[i] === 0xef && b[i + 1] === 0xbb && b[i + 2] === 0xbf) i += 3;
  while (i < end) {
    const c = b[i];
    if (c < 0x80) { out += String.fromCharCode(c); i++; continue; }
    let need = 0, lo = 0x80, hi = 0xbf, v = 0;
    if (c >= 0xc2 && c <= 0xdf) { need = 1; v = c - 0xc0; }
    else if (c >= 0xe0 && c <= 0xef) { need = 2; v = c - 0xe0; if (c === 0xe0) lo = 0xa0; else if (c === 0xed) hi = 0x9f; }
    else if (c >= 0xf0 && c <= 0xf4) { need = 3; v = c - 0xf0; if (c === 0xf0) lo = 0x90; else if (c === 0xf4) hi = 0x8f; }
    else { out += "\ufffd"; i++; continue; }
    i++;
    let ok = true;
    for (let k = 0; k < need; k++) {
      if (i >= end) { ok = false; break; }
      const d = b[i];
      if (d < lo || d > hi) { ok = false; break; }
      lo = 0x80; hi = 0xbf; v = v * 64 + (d - 0x80); i++;
    }
    if (!ok) out += "\ufffd";
    else if (v >= 0x10000) { const w = v - 0x10000; out += String.fromCharCode(0xd800 + Math.floor(w / 1024), 0xdc00 + (w % 1024)); }
    else out += String.fromCharCode(v);
  }
  return out;
};

exports.readUInt = function readUInt(b, o, n) { let v = 0, m = 1; for (let k = 0; k < n; k++) { v = v + b[o + k] * m; m = m * 256; } return v; };
