// JavaScript regular expressions over symbolic strings.
import * as T from "./term.mjs";
import { branch, unsupported } from "./engine.mjs";
import { units, mkStr, mkBool, inRanges, expandRepl, ut, SymStr, Sym, concNum } from "./rt.mjs";

const cache = new Map();
function parse(re) {
  const key = re.source + "/" + re.flags;
  let r = cache.get(key);
  if (!r) { r = new Parser(re).parse(); cache.set(key, r); }
  return r;
}
const classCache = new Map();
function classRanges(src, flags, astral) {
  const f = flags.replace(/[gyd]/g, "");
  const key = src + "/" + f + (astral ? "A" : "");
  let r = classCache.get(key);
  if (r) return r;
  const re = new RegExp("^(?:" + src + ")$", f.replace("m", ""));
  r = [];
  let st = -1;
  const lo = astral ? 0x10000 : 0, hi = astral ? 0x10ffff : 0xffff;
  for (let c = lo; c <= hi; c++) {
    const ok = re.test(astral ? String.fromCodePoint(c) : String.fromCharCode(c));
    if (ok && st < 0) st = c;
    if (!ok && st >= 0) { r.push([st, c - 1]); st = -1; }
  }
  if (st >= 0) r.push([st, hi]);
  classCache.set(key, r);
  return r;
}
class Parser {
  constructor(re) {
    this.s = re.source; this.i = 0; this.flags = re.flags; this.u = re.flags.includes("u") || re.flags.includes("v");
    this.ncap = 0; this.names = {};
    // named groups pre-scan
    let n = 0;
    for (let k = 0, cls = false; k < this.s.length; k++) {
      const c = this.s[k];
      if (c === "\\") { k++; continue; }
      if (c === "[") cls = true; else if (c === "]") cls = false;
      else if (c === "(" && !cls) {
        if (this.s[k + 1] !== "?") n++;
        else if (this.s[k + 2] === "<" && this.s[k + 3] !== "=" && this.s[k + 3] !== "!") { n++; this.names[this.s.slice(k + 3, this.s.indexOf(">", k))] = n; }
      }
    }
    this.total = n;
  }
  parse() {
    const node = this.alt();
    if (this.i < this.s.length) throw new Error("regex parse " + this.s + " at " + this.i);
    return { node, ncap: this.total, names: this.names, flags: this.flags, u: this.u, backrefs: this.hasBackref };
  }
  alt() {
    const alts = [this.seq()];
    while (this.s[this.i] === "|") { this.i++; alts.push(this.seq()); }
    return alts.length === 1 ? alts[0] : { k: "alt", alts };
  }
  seq() {
    const xs = [];
    while (this.i < this.s.length && this.s[this.i] !== "|" && this.s[this.i] !== ")") xs.push(this.term());
    return xs.length === 1 ? xs[0] : { k: "seq", xs };
  }
  cls(src) { return { k: "cls", src, flags: this.flags, u: this.u }; }
  term() {
    const s = this.s, st = this.i, c = s[st];
    let node;
    if (c === "^") { this.i++; return { k: "bol", m: this.flags.includes("m") }; }
    if (c === "$") { this.i++; return { k: "eol", m: this.flags.includes("m") }; }
    if (c === "(") {
      if (s.startsWith("(?:", st)) { this.i += 3; node = this.alt(); this.i++; }
      else if (s.startsWith("(?=", st) || s.startsWith("(?!", st)) { const neg = s[st + 2] === "!"; this.i += 3; const x = this.alt(); this.i++; node = { k: "look", x, neg }; }
      else if (s.startsWith("(?<=", st) || s.startsWith("(?<!", st)) { const neg = s[st + 3] === "!"; this.i += 4; const x = this.alt(); this.i++; node = { k: "behind", x, neg }; }
      else {
        const n = ++this.ncap;
        if (s.startsWith("(?<", st)) this.i = s.indexOf(">", st) + 1; else if (s[st + 1] === "?") throw new Error("regex group " + s); else this.i++;
        const x = this.alt(); this.i++;
        node = { k: "cap", n, x };
      }
    } else if (c === "[") {
      let j = st + 1, depth = 1;
      if (this.flags.includes("v")) { while (depth > 0) { if (s[j] === "\\") j++; else if (s[j] === "[") depth++; else if (s[j] === "]") depth--; j++; } }
      else { while (s[j] !== "]") { if (s[j] === "\\") j++; j++; } j++; }
      this.i = j; node = this.cls(s.slice(st, j));
    } else if (c === ".") { this.i++; node = this.cls("."); }
    else if (c === "\\") {
      const n = s[st + 1];
      if (n === "b" || n === "B") { this.i += 2; return { k: "wb", neg: n === "B", i: this.flags.includes("i") && this.u }; }
      if (/[1-9]/.test(n)) {
        let j = st + 1; while (/[0-9]/.test(s[j] ?? "")) j++;
        const num = Number(s.slice(st + 1, j));
        if (num <= this.total) { this.i = j; this.hasBackref = true; node = { k: "ref", n: num }; }
        else unsupported("octal escape in regex");
      } else if (n === "k" && Object.keys(this.names).length) { const e = s.indexOf(">", st); this.i = e + 1; this.hasBackref = true; node = { k: "ref", n: this.names[s.slice(st + 3, e)] }; }
      else {
        let l = 2;
        if (n === "x") l = 4;
        else if (n === "u") l = s[st + 2] === "{" ? s.indexOf("}", st) - st + 1 : 6;
        else if (n === "c") l = 3;
        else if ((n === "p" || n === "P") && this.u) l = s.indexOf("}", st) - st + 1;
        if (n === "u" && this.u && l === 6 && /^\\u[dD][89abAB]/.test(s.slice(st, st + 6)) && /^\\u[dD][c-fC-F]/.test(s.slice(st + 6, st + 12))) l = 12;
        this.i += l; node = this.cls(s.slice(st, st + l));
      }
    } else {
      const cp = this.u ? String.fromCodePoint(s.codePointAt(st)) : c;
      this.i += cp.length;
      node = this.cls(cp);
    }
    // quantifier
    for (;;) {
      const q = s[this.i];
      let min, max;
      if (q === "*") { min = 0; max = Infinity; this.i++; }
      else if (q === "+") { min = 1; max = Infinity; this.i++; }
      else if (q === "?") { min = 0; max = 1; this.i++; }
      else if (q === "{") {
        const mm = /^\{(\d+)(,(\d*))?\}/.exec(s.slice(this.i));
        if (!mm) break;
        min = Number(mm[1]); max = mm[2] === undefined ? min : mm[3] === "" ? Infinity : Number(mm[3]);
        this.i += mm[0].length;
      } else break;
      let lazy = false;
      if (s[this.i] === "?") { lazy = true; this.i++; }
      node = { k: "rep", x: node, min, max, lazy };
    }
    return node;
  }
}
const HI = [[0xd800, 0xdbff]], LO = [[0xdc00, 0xdfff]];
const WORD = [[48, 57], [65, 90], [95, 95], [97, 122]];
const LT = [[10, 10], [13, 13], [0x2028, 0x2029]];

// condition that class node matches at position i; yields [len, term] options
function clsOptions(node, u, i) {
  const out = [];
  if (i >= u.length) return out;
  const r = classRanges(node.src, node.flags, false);
  let pair = T.FALSE;
  if (node.u && i + 1 < u.length) pair = T.and(inRanges(u[i], HI), inRanges(u[i + 1], LO));
  const single = T.and(T.not(pair), inRanges(u[i], r));
  if (single !== T.FALSE) out.push([1, single]);
  if (pair !== T.FALSE) {
    const ar = classRanges(node.src, node.flags, true);
    let c;
    if (ar.length === 0) c = T.FALSE;
    else if (ar.length === 1 && ar[0][0] === 0x10000 && ar[0][1] === 0x10ffff) c = T.TRUE;
    else {
      const cp = T.add(T.add(T.mul(T.sub(ut(u[i]), T.num(0xd800)), T.num(1024)), T.sub(ut(u[i + 1]), T.num(0xdc00))), T.num(0x10000));
      c = inRanges(T.isConst(cp) ? cp.v : cp, ar);
    }
    const p = T.and(pair, c);
    if (p !== T.FALSE) out.push([2, p]);
  }
  return out;
}
function wbTerm(u, i) {
  const a = i > 0 ? inRanges(u[i - 1], WORD) : T.FALSE;
  const b = i < u.length ? inRanges(u[i], WORD) : T.FALSE;
  return T.not(T.eq(a, b));
}
const bolTerm = (n, u, i) => (i === 0 ? T.TRUE : n.m ? inRanges(u[i - 1], LT) : T.FALSE);
const eolTerm = (n, u, i) => (i === u.length ? T.TRUE : n.m ? inRanges(u[i], LT) : T.FALSE);

// ----- formula-based existence (no forks) : ends(node,i) -> Map end->term
function ends(node, u, i, memo) {
  let mm = memo.get(node);
  if (!mm) memo.set(node, (mm = new Map()));
  let r = mm.get(i);
  if (r) return r;
  r = new Map();
  const put = (e, c) => { if (c === T.FALSE) return; const o = r.get(e); r.set(e, o ? T.or(o, c) : c); };
  switch (node.k) {
    case "cls": for (const [l, c] of clsOptions(node, u, i)) put(i + l, c); break;
    case "bol": put(i, bolTerm(node, u, i)); break;
    case "eol": put(i, eolTerm(node, u, i)); break;
    case "wb": { const w = wbTerm(u, i); put(i, node.neg ? T.not(w) : w); break; }
    case "cap": for (const [e, c] of ends(node.x, u, i, memo)) put(e, c); break;
    case "alt": for (const a of node.alts) for (const [e, c] of ends(a, u, i, memo)) put(e, c); break;
    case "seq": {
      let cur = new Map([[i, T.TRUE]]);
      for (const x of node.xs) {
        const nx = new Map();
        for (const [e, c] of cur) for (const [e2, c2] of ends(x, u, e, memo)) { const cc = T.and(c, c2); if (cc === T.FALSE) continue; const o = nx.get(e2); nx.set(e2, o ? T.or(o, cc) : cc); }
        cur = nx;
        if (!cur.size) break;
      }
      for (const [e, c] of cur) put(e, c);
      break;
    }
    case "rep": {
      let cur = new Map([[i, T.TRUE]]);
      if (node.min === 0) put(i, T.TRUE);
      const lim = Math.min(node.max, node.min + u.length + 1);
      for (let n = 1; n <= lim && cur.size; n++) {
        const nx = new Map();
        for (const [e, c] of cur) for (const [e2, c2] of ends(node.x, u, e, memo)) {
          if (e2 === e && n > node.min) continue;
          const cc = T.and(c, c2); if (cc === T.FALSE) continue;
          const o = nx.get(e2); nx.set(e2, o ? T.or(o, cc) : cc);
        }
        cur = nx;
        if (n >= node.min) for (const [e, c] of cur) put(e, c);
      }
      break;
    }
    case "look": { let c = T.FALSE; for (const [, cc] of ends(node.x, u, i, memo)) c = T.or(c, cc); put(i, node.neg ? T.not(c) : c); break; }
    case "behind": {
      let c = T.FALSE;
      for (let st = 0; st <= i; st++) { const cc = ends(node.x, u, st, memo).get(i); if (cc) c = T.or(c, cc); }
      put(i, node.neg ? T.not(c) : c); break;
    }
    default: unsupported("regex node " + node.k);
  }
  mm.set(i, r);
  return r;
}
function existsAt(rx, u, i, memo) { let c = T.FALSE; for (const [, cc] of ends(rx.node, u, i, memo)) c = T.or(c, cc); return c; }

// ----- backtracking with forks (captures)
function bt(node, u, i, caps, k) {
  switch (node.k) {
    case "cls": {
      const os = clsOptions(node, u, i);
      for (const [l, c] of os) if (branch(c)) return k(i + l, caps);
      return null;
    }
    case "bol": return branch(bolTerm(node, u, i)) ? k(i, caps) : null;
    case "eol": return branch(eolTerm(node, u, i)) ? k(i, caps) : null;
    case "wb": { const w = wbTerm(u, i); return branch(node.neg ? T.not(w) : w) ? k(i, caps) : null; }
    case "cap": return bt(node.x, u, i, caps, (e, cs) => { const n = cs.slice(); n[node.n] = [i, e]; return k(e, n); });
    case "alt": for (const a of node.alts) { const r = bt(a, u, i, caps, k); if (r) return r; } return null;
    case "seq": {
      const go = (n, p, cs) => (n === node.xs.length ? k(p, cs) : bt(node.xs[n], u, p, cs, (e, c2) => go(n + 1, e, c2)));
      return go(0, i, caps);
    }
    case "rep": {
      const inner = capsIn(node.x);
      const go = (n, p, cs) => {
        const more = () => {
          if (n >= node.max) return null;
          let c0 = cs;
          if (inner.length) { c0 = cs.slice(); for (const q of inner) c0[q] = undefined; }
          return bt(node.x, u, p, c0, (e, c2) => (e === p && n >= node.min ? null : go(n + 1, e, c2)));
        };
        if (n < node.min) return more();
        if (node.lazy) return k(p, cs) ?? more();
        return more() ?? k(p, cs);
      };
      return go(0, i, caps);
    }
    case "look": {
      const r = bt(node.x, u, i, caps, (e, cs) => ({ cs }));
      if (node.neg) return r ? null : k(i, caps);
      return r ? k(i, r.cs) : null;
    }
    case "behind": {
      const memo = new Map();
      let c = T.FALSE;
      for (let st = 0; st <= i; st++) { const cc = ends(node.x, u, st, memo).get(i); if (cc) c = T.or(c, cc); }
      const ok = branch(c);
      return ok !== node.neg ? k(i, caps) : null;
    }
    case "ref": {
      const cp = caps[node.n];
      if (!cp) return k(i, caps);
      const l = cp[1] - cp[0];
      if (i + l > u.length) return null;
      for (let q = 0; q < l; q++) if (!branch(T.eq(ut(u[cp[0] + q]), ut(u[i + q])))) return null;
      return k(i + l, caps);
    }
  }
  return unsupported("regex " + node.k);
}
function capsIn(n, out = []) {
  if (n.k === "cap") out.push(n.n);
  for (const c of n.xs ?? n.alts ?? (n.x ? [n.x] : [])) capsIn(c, out);
  return out;
}
function matchFrom(rx, u, start, sticky) {
  const memo = new Map();
  for (let i = start; i <= u.length; i++) {
    if (!rx.backrefs) {
      const ex = existsAt(rx, u, i, memo);
      if (!branch(ex)) { if (sticky) return null; continue; }
    }
    const r = bt(rx.node, u, i, new Array(rx.ncap + 1).fill(undefined), (e, cs) => ({ e, cs }));
    if (r) return { index: i, end: r.e, caps: r.cs };
    if (sticky) return null;
  }
  return null;
}
function toResult(rx, s, u, m) {
  const out = [mkStr(u.slice(m.index, m.end))];
  for (let n = 1; n <= rx.ncap; n++) out.push(m.caps[n] ? mkStr(u.slice(m.caps[n][0], m.caps[n][1])) : undefined);
  out.index = m.index;
  out.input = s;
  out.groups = undefined;
  if (Object.keys(rx.names).length) { out.groups = Object.create(null); for (const [k, n] of Object.entries(rx.names)) out.groups[k] = out[n]; }
  return out;
}
const allConc = (u) => u.every((c) => typeof c === "number");
export const RX = {
  test(re, s) {
    const u = units(s);
    if (allConc(u)) return re.test(mkStr(u));
    const rx = parse(re);
    if (rx.backrefs || re.global || re.sticky) return RX.exec(re, s) !== null;
    const memo = new Map();
    let c = T.FALSE;
    for (let i = 0; i <= u.length; i++) { c = T.or(c, existsAt(rx, u, i, memo)); if (c === T.TRUE) break; }
    return mkBool(c);
  },
  exec(re, s) {
    const u = units(s);
    if (allConc(u)) return re.exec(mkStr(u));
    const rx = parse(re);
    const stateful = re.global || re.sticky;
    const start = stateful ? re.lastIndex : 0;
    if (start > u.length) { if (stateful) re.lastIndex = 0; return null; }
    const m = matchFrom(rx, u, start, re.sticky);
    if (!m) { if (stateful) re.lastIndex = 0; return null; }
    if (stateful) re.lastIndex = m.end;
    return toResult(rx, s, u, m);
  },
  all(re, s) {
    const u = units(s), rx = parse(re), out = [];
    let p = 0;
    while (p <= u.length) {
      const m = matchFrom(rx, u, p, re.sticky);
      if (!m) break;
      out.push(m);
      if (m.end === m.index) {
        p = m.end + 1;
        if (rx.u && m.end + 1 < u.length && branch(T.and(inRanges(u[m.end], HI), inRanges(u[m.end + 1], LO)))) p++;
      } else p = m.end;
    }
    return { u, rx, ms: out };
  },
  match(re, s) {
    if (!re.global) return RX.exec(re, s);
    const { u, ms } = RX.all(re, s);
    re.lastIndex = 0;
    return ms.length ? ms.map((m) => mkStr(u.slice(m.index, m.end))) : null;
  },
  *matchAll(re, s) {
    const u = units(s), rx = parse(re);
    let p = re.lastIndex;
    while (p <= u.length) {
      const m = matchFrom(rx, u, p, re.sticky);
      if (!m) return;
      p = m.end === m.index ? m.end + 1 : m.end;
      yield toResult(rx, s, u, m);
    }
  },
  replace(re, s, rep) {
    const u0 = units(s);
    if (allConc(u0) && typeof rep !== "function") return mkStr(u0).replace(re, rep);
    let ms, u, rx;
    if (re.global) { ({ u, rx, ms } = RX.all(re, s)); re.lastIndex = 0; }
    else { u = u0; rx = parse(re); const m = matchFrom(rx, u, re.sticky ? re.lastIndex : 0, re.sticky); ms = m ? [m] : []; }
    if (!ms.length) return s;
    let out = [], p = 0;
    for (const m of ms) {
      out = out.concat(u.slice(p, m.index));
      const r = toResult(rx, s, u, m);
      let rv;
      if (typeof rep === "function") rv = rep(...r, m.index, s, ...(r.groups ? [r.groups] : []));
      else rv = expandRepl(rep, r[0], r.slice(1), s, m.index, r.groups);
      out = out.concat(units(rv));
      p = m.end;
    }
    return mkStr(out.concat(u.slice(p)));
  },
  split(re, s, lim) {
    const u = units(s);
    const rx = parse(re), out = [];
    if (lim instanceof Sym) lim = concNum(lim);
    const max = lim === undefined ? Infinity : lim;
    if (max === 0) return [];
    if (u.length === 0) return matchFrom(rx, u, 0, true) ? [] : [s];
    let p = 0, q = 0;
    while (q < u.length) {
      const m = matchFrom(rx, u, q, true);
      if (!m || m.end === p) { q++; continue; }
      if (m.end > u.length) { q++; continue; }
      out.push(mkStr(u.slice(p, q)));
      if (out.length >= max) return out;
      for (let n = 1; n <= rx.ncap; n++) { out.push(m.caps[n] ? mkStr(u.slice(m.caps[n][0], m.caps[n][1])) : undefined); if (out.length >= max) return out; }
      p = m.end; q = p;
    }
    out.push(mkStr(u.slice(p)));
    return out;
  },
};
