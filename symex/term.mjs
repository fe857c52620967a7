// Hash-consed SMT terms (Bool / Int / Real) with light simplification, interval tracking,
// a concrete evaluator and an SMT-LIB printer.
let table = new Map();
let nextId = 1;
export const stats = { terms: 0 };

export class Term {
  constructor(op, args, sort, v, lo, hi) {
    this.id = nextId++;
    this.op = op;
    this.args = args;
    this.sort = sort;
    this.v = v;
    this.lo = lo;
    this.hi = hi;
    this._vars = undefined;
    stats.terms++;
  }
}

const NOARGS = [];
function mk(op, args, sort, v, lo, hi) {
  let key = op;
  if (v !== undefined) key += "#" + (Object.is(v, -0) ? "0" : String(v)) + sort;
  for (let i = 0; i < args.length; i++) key += "," + args[i].id;
  let t = table.get(key);
  if (t === undefined) {
    t = new Term(op, args, sort, v, lo, hi);
    table.set(key, t);
  }
  return t;
}

export const TRUE = mk("true", NOARGS, "B");
export const FALSE = mk("false", NOARGS, "B");
export const bool = (b) => (b ? TRUE : FALSE);
export function num(n) {
  if (Number.isInteger(n)) return mk("const", NOARGS, "I", n === 0 ? 0 : n, n, n);
  return mk("const", NOARGS, "R", n, n, n);
}
export function variable(name, sort, lo = -Infinity, hi = Infinity) {
  const key = `var#${name}#${sort}#${lo}#${hi}`;
  let t = table.get(key);
  if (t === undefined) { t = new Term("var", NOARGS, sort, name, lo, hi); table.set(key, t); }
  return t;
}
export const isConst = (t) => t.op === "const";

export function not(a) {
  if (a === TRUE) return FALSE;
  if (a === FALSE) return TRUE;
  if (a.op === "not") return a.args[0];
  if (a.op === "<") return le(a.args[1], a.args[0]);
  if (a.op === "<=") return lt(a.args[1], a.args[0]);
  return mk("not", [a], "B");
}
function flat(op, unit, zero, xs) {
  const seen = new Set();
  const out = [];
  const walk = (x) => {
    if (x === unit || seen.has(x)) return true;
    if (x === zero) return false;
    if (x.op === op) {
      for (const y of x.args) if (!walk(y)) return false;
      return true;
    }
    seen.add(x);
    if (x.op === "not" ? seen.has(x.args[0]) : false) return false;
    out.push(x);
    return true;
  };
  for (const x of xs) if (!walk(x)) return zero;
  for (const x of out) if (x.op === "not" && seen.has(x.args[0])) return zero;
  if (out.length === 0) return unit;
  if (out.length === 1) return out[0];
  out.sort((p, q) => p.id - q.id);
  return mk(op, out, "B");
}
export const and = (...xs) => flat("and", TRUE, FALSE, xs);
export const or = (...xs) => flat("or", FALSE, TRUE, xs);
export const implies = (a, b) => or(not(a), b);

export function ite(c, a, b) {
  if (c === TRUE) return a;
  if (c === FALSE) return b;
  if (a === b) return a;
  if (a.sort === "B") {
    if (a === TRUE) return or(c, b);
    if (a === FALSE) return and(not(c), b);
    if (b === TRUE) return or(not(c), a);
    if (b === FALSE) return and(c, a);
    return mk("ite", [c, a, b], "B");
  }
  [a, b] = unify(a, b);
  if (c.op === "not") return mk("ite", [c.args[0], b, a], a.sort, undefined, Math.min(a.lo, b.lo), Math.max(a.hi, b.hi));
  return mk("ite", [c, a, b], a.sort, undefined, Math.min(a.lo, b.lo), Math.max(a.hi, b.hi));
}
export function toReal(a) {
  if (a.sort === "R") return a;
  if (isConst(a)) return mk("const", NOARGS, "R", a.v, a.v, a.v);
  return mk("to_real", [a], "R", undefined, a.lo, a.hi);
}
function unify(a, b) {
  if (a.sort === b.sort) return [a, b];
  return [toReal(a), toReal(b)];
}
export function eq(a, b) {
  if (a === b) return TRUE;
  if (a.sort === "B") {
    if (a === TRUE) return b;
    if (b === TRUE) return a;
    if (a === FALSE) return not(b);
    if (b === FALSE) return not(a);
    return a.id < b.id ? mk("=", [a, b], "B") : mk("=", [b, a], "B");
  }
  [a, b] = unify(a, b);
  if (a === b) return TRUE;
  if (isConst(a) && isConst(b)) return bool(a.v === b.v);
  if (a.hi < b.lo || b.hi < a.lo) return FALSE;
  // (= (ite c k1 k2) k)
  if (isConst(b) && a.op === "ite" && (isConst(a.args[1]) || isConst(a.args[2]))) {
    return or(and(a.args[0], eq(a.args[1], b)), and(not(a.args[0]), eq(a.args[2], b)));
  }
  if (isConst(a) && b.op === "ite" && (isConst(b.args[1]) || isConst(b.args[2]))) return eq(b, a);
  // x + c = k
  if (isConst(b) && a.op === "+" && a.args.length === 2 && isConst(a.args[1])) return eq(a.args[0], sub(b, a.args[1]));
  if (isConst(a) && b.op === "+" && b.args.length === 2 && isConst(b.args[1])) return eq(b.args[0], sub(a, b.args[1]));
  return a.id < b.id ? mk("=", [a, b], "B") : mk("=", [b, a], "B");
}
export function lt(a, b) {
  [a, b] = unify(a, b);
  if (a === b) return FALSE;
  if (a.hi < b.lo) return TRUE;
  if (a.lo >= b.hi) return FALSE;
  if (isConst(b) && a.op === "ite" && isConst(a.args[1]) && isConst(a.args[2])) return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b));
  if (isConst(a) && b.op === "ite" && isConst(b.args[1]) && isConst(b.args[2])) return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]));
  return mk("<", [a, b], "B");
}
export function le(a, b) {
  [a, b] = unify(a, b);
  if (a === b) return TRUE;
  if (a.hi <= b.lo) return TRUE;
  if (a.lo > b.hi) return FALSE;
  if (isConst(b) && a.op === "ite" && isConst(a.args[1]) && isConst(a.args[2])) return ite(a.args[0], le(a.args[1], b), le(a.args[2], b));
  if (isConst(a) && b.op === "ite" && isConst(b.args[1]) && isConst(b.args[2])) return ite(b.args[0], le(a, b.args[1]), le(a, b.args[2]));
  return mk("<=", [a, b], "B");
}
const z = (n) => (Number.isNaN(n) ? 0 : n);
export function add(a, b) {
  [a, b] = unify(a, b);
  if (isConst(a) && isConst(b)) return cnum(a.v + b.v, a.sort);
  if (isConst(a)) [a, b] = [b, a];
  if (isConst(b)) {
    if (b.v === 0) return a;
    if (a.op === "+" && a.args.length === 2 && isConst(a.args[1])) return add(a.args[0], cnum(a.args[1].v + b.v, a.sort));
  }
  return mk("+", [a, b], a.sort, undefined, a.lo + b.lo, a.hi + b.hi);
}
function cnum(v, sort) {
  if (sort === "R") return mk("const", NOARGS, "R", v, v, v);
  return num(v);
}
export function neg(a) {
  if (isConst(a)) return cnum(-a.v, a.sort);
  if (a.op === "neg") return a.args[0];
  return mk("neg", [a], a.sort, undefined, -a.hi, -a.lo);
}
export function sub(a, b) {
  [a, b] = unify(a, b);
  if (a === b) return cnum(0, a.sort);
  if (isConst(b)) return add(a, cnum(-b.v, b.sort));
  if (isConst(a) && isConst(b)) return cnum(a.v - b.v, a.sort);
  return mk("-", [a, b], a.sort, undefined, a.lo - b.hi, a.hi - b.lo);
}
function im(x, y) {
  if (x === 0 || y === 0) return 0;
  return x * y;
}
export function mul(a, b) {
  [a, b] = unify(a, b);
  if (isConst(a) && isConst(b)) return cnum(a.v * b.v, a.sort);
  if (isConst(a)) [a, b] = [b, a];
  if (isConst(b)) {
    if (b.v === 0) return cnum(0, a.sort);
    if (b.v === 1) return a;
  }
  const c = [im(a.lo, b.lo), im(a.lo, b.hi), im(a.hi, b.lo), im(a.hi, b.hi)];
  return mk("*", [a, b], a.sort, undefined, Math.min(...c), Math.max(...c));
}
// exact real division
export function rdiv(a, b) {
  a = toReal(a);
  b = toReal(b);
  if (isConst(a) && isConst(b)) return cnum(a.v / b.v, "R");
  if (isConst(b) && b.v === 1) return a;
  let lo = -Infinity, hi = Infinity;
  if (b.lo > 0 || b.hi < 0) {
    const c = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi].map(z);
    lo = Math.min(...c); hi = Math.max(...c);
  }
  return mk("/", [a, b], "R", undefined, lo, hi);
}
// floor of a real term, as Int
export function floor(a) {
  if (a.sort === "I") return a;
  if (isConst(a)) return num(Math.floor(a.v));
  if (a.op === "to_real") return a.args[0];
  if (a.op === "/" && a.args[0].op === "to_real" && isConst(a.args[1]) && Number.isInteger(a.args[1].v) && a.args[1].v > 0)
    return idiv(a.args[0].args[0], num(a.args[1].v));
  return mk("to_int", [a], "I", undefined, Math.floor(a.lo), Math.floor(a.hi));
}
// Euclidean div/mod with positive constant divisor
export function idiv(a, b) {
  if (isConst(a) && isConst(b)) return num(Math.floor(a.v / b.v));
  if (b.v === 1) return a;
  return mk("div", [a, b], "I", undefined, Math.floor(a.lo / b.v), Math.floor(a.hi / b.v));
}
export function imod(a, b) {
  if (isConst(a) && isConst(b)) return num(((a.v % b.v) + b.v) % b.v);
  if (a.lo >= 0 && a.hi < b.v) return a;
  return mk("mod", [a, b], "I", undefined, 0, b.v - 1);
}

export function evaluate(t, model, memo) {
  switch (t.op) {
    case "true": return true;
    case "false": return false;
    case "const": return t.v;
    case "var": {
      const v = model.get(t.v);
      if (v !== undefined) return v;
      if (t.sort === "B") return false;
      return Number.isFinite(t.lo) ? t.lo : Number.isFinite(t.hi) && t.hi < 0 ? t.hi : 0;
    }
  }
  const c = memo.get(t.id);
  if (c !== undefined) return c;
  const a = t.args;
  let r;
  switch (t.op) {
    case "not": r = !evaluate(a[0], model, memo); break;
    case "and": r = true; for (const x of a) if (!evaluate(x, model, memo)) { r = false; break; } break;
    case "or": r = false; for (const x of a) if (evaluate(x, model, memo)) { r = true; break; } break;
    case "ite": r = evaluate(a[0], model, memo) ? evaluate(a[1], model, memo) : evaluate(a[2], model, memo); break;
    case "=": r = evaluate(a[0], model, memo) === evaluate(a[1], model, memo); break;
    case "<": r = evaluate(a[0], model, memo) < evaluate(a[1], model, memo); break;
    case "<=": r = evaluate(a[0], model, memo) <= evaluate(a[1], model, memo); break;
    case "+": r = evaluate(a[0], model, memo) + evaluate(a[1], model, memo); break;
    case "-": r = evaluate(a[0], model, memo) - evaluate(a[1], model, memo); break;
    case "neg": r = 0 - evaluate(a[0], model, memo); break;
    case "*": r = evaluate(a[0], model, memo) * evaluate(a[1], model, memo); if (r === 0) r = 0; break;
    case "/": r = evaluate(a[0], model, memo) / evaluate(a[1], model, memo); break;
    case "to_real": r = evaluate(a[0], model, memo); break;
    case "to_int": r = Math.floor(evaluate(a[0], model, memo)); break;
    case "div": r = Math.floor(evaluate(a[0], model, memo) / a[1].v); break;
    case "mod": { const q = evaluate(a[0], model, memo); const d = a[1].v; r = ((q % d) + d) % d; break; }
    default: throw new Error("eval " + t.op);
  }
  memo.set(t.id, r);
  return r;
}

function bigRat(x) {
  // exact rational of a double
  let d = 1n;
  let k = 0;
  while (!Number.isInteger(x)) { x *= 2; k++; if (k > 1100) throw new Error("rational"); }
  d = 1n << BigInt(k);
  return [BigInt(x), d];
}
export function printConst(t) {
  if (t.sort === "I") {
    const b = BigInt(t.v);
    return b < 0n ? `(- ${-b})` : String(b);
  }
  const [n, d] = bigRat(t.v);
  const s = n < 0n ? `(- ${-n}.0)` : `${n}.0`;
  return d === 1n ? s : `(/ ${s} ${d}.0)`;
}
export const SMT_SORT = { B: "Bool", I: "Int", R: "Real" };
const vname = (n) => "|" + n + "|";
export { vname };

// Emit definitions for t (and subterms) not yet in `defined`, return reference text.
export function emit(t, defined, out) {
  switch (t.op) {
    case "true": return "true";
    case "false": return "false";
    case "const": return printConst(t);
    case "var":
      if (!defined.has(t.v)) {
        defined.add(t.v);
        out.push(`(declare-const ${vname(t.v)} ${SMT_SORT[t.sort]})`);
      }
      return vname(t.v);
  }
  const name = "t" + t.id;
  if (defined.has(t.id)) return name;
  // iterative-safe enough: depth bounded by term depth
  const parts = [];
  for (const a of t.args) parts.push(emit(a, defined, out));
  const op = t.op === "neg" ? "-" : t.op;
  out.push(`(define-fun ${name} () ${SMT_SORT[t.sort]} (${op} ${parts.join(" ")}))`);
  defined.add(t.id);
  return name;
}
export function varsOf(t) {
  if (t._vars) return t._vars;
  const s = new Set();
  if (t.op === "var") s.add(t);
  else for (const a of t.args) for (const v of varsOf(a)) s.add(v);
  t._vars = s;
  return s;
}
export function resetTable() {
  table = new Map([["true", TRUE], ["false", FALSE]]);
}
export function show(t) {
  if (t.op === "const") return String(t.v);
  if (t.op === "var") return t.v;
  if (!t.args.length) return t.op;
  return `(${t.op} ${t.args.map(show).join(" ")})`;
}
