// Path engine: one path at a time, offline re-execution by decision prefix.
import * as T from "./term.mjs";
import { Solver } from "./solver.mjs";

export class PathAbort extends Error { constructor(kind, msg) { super(msg ?? kind); this.kind = kind; this.isPathAbort = true; } }
export class SpecAbort extends Error { constructor() { super("spec"); this.isSpecAbort = true; } }

export const E = {
  solver: null,
  pc: [], known: new Map(), model: new Map(), memo: new Map(),
  prefix: [], pos: 0, decisions: [],
  pending: [], spec: 0, aborted: null, steps: 0, epoch: 0,
  maxSteps: 3e6, maxDecisions: 20000,
  vars: new Map(), // name -> term on this path
  unknownOnPath: false,
  stats: { branches: 0, forks: 0, forced: 0, asserts: 0, assertsConcrete: 0, inexact: 0, unknown: 0, fns: new Map() },
  violations: [], covers: new Set(), notes: [],
};

export function initEngine(opts = {}) {
  E.solver = new Solver(opts);
  if (opts.maxSteps) E.maxSteps = opts.maxSteps;
}

export function startPath(item) {
  E.epoch++;
  E.pc = []; E.known = new Map(); E.model = item.model ? new Map(item.model) : new Map(); E.memo = new Map();
  E.modelOk = item.model !== null;
  E.prefix = item.prefix; E.pos = 0; E.decisions = [];
  E.aborted = null; E.steps = 0; E.spec = 0; E.vars = new Map(); E.notes = []; E.unknownOnPath = !!item.unknown;
  E.pathCovers = new Set();
}

export function abort(kind, msg) {
  if (E.spec > 0) throw new SpecAbort();
  const e = new PathAbort(kind, msg);
  if (!E.aborted) E.aborted = e;
  throw E.aborted;
}
export const unsupported = (msg) => abort("unsupported", "unsupported: " + msg);

export function step() {
  if (E.aborted) { throw E.aborted; }
  if (++E.steps > E.maxSteps) abort("steps", "step limit exceeded");
}

function addPc(t) {
  if (t.op === "and") { for (const x of t.args) addPc(x); E.known.set(t.id, true); return; }
  if (E.known.get(t.id) === true) return;
  E.pc.push(t);
  E.known.set(t.id, true);
  E.known.set(T.not(t).id, false);
}
function setModel(m) {
  if (!m) return;
  const nm = new Map(E.model);
  for (const [k, v] of m) nm.set(k, v);
  E.model = nm;
  E.memo = new Map();
}
export function evalTerm(t) { return T.evaluate(t, E.model, E.memo); }

export function declareVar(name, sort, lo, hi) {
  let n = name, k = 1;
  while (E.vars.has(n)) n = name + "~" + ++k;
  const v = T.variable(n, sort, lo, hi);
  E.vars.set(n, v);
  if (sort !== "B") {
    if (Number.isFinite(lo)) E.pc.push(T.le === undefined ? null : boundLe(T.num(lo), v));
    if (Number.isFinite(hi)) E.pc.push(boundLe(v, T.num(hi)));
    if (E.modelOk && !E.model.has(n)) { E.model.set(n, Number.isFinite(lo) ? lo : Number.isFinite(hi) && hi < 0 ? hi : 0); E.memo = new Map(); }
  }
  return v;
}
// raw bound term (T.le would simplify it away through the interval)
const boundCache = new Map();
function boundLe(a, b) {
  const key = a.id + "<=" + b.id;
  let t = boundCache.get(key);
  if (!t) { t = new T.Term("<=", [a, b], "B"); boundCache.set(key, t); }
  return t;
}
export function clearCaches() { boundCache.clear(); }

function pushPending(dec, model, unknown) {
  E.pending.push({ prefix: E.decisions.concat([dec]), model: model ? [...model] : model, unknown });
}
function merged(m) {
  const nm = new Map(E.model);
  for (const [k, v] of m) nm.set(k, v);
  return nm;
}
function refreshModel() {
  // model missing (resumed from an unknown); try to solve for one
  const r = E.solver.check(E.pc, undefined);
  if (r.r === "unsat") abort("infeasible");
  if (r.r === "unknown") abort("unknown", "solver unknown on path condition");
  E.modelOk = true;
  E.model = r.model; E.memo = new Map();
}

export function branch(cond) {
  if (cond === T.TRUE) return true;
  if (cond === T.FALSE) return false;
  const k = E.known.get(cond.id);
  if (k !== undefined) return k;
  if (cond.op === "and") { let all = true; for (const c of cond.args) { const kk = E.known.get(c.id); if (kk === false) return false; if (kk !== true) all = false; } if (all) return true; }
  if (cond.op === "or") { let all = true; for (const c of cond.args) { const kk = E.known.get(c.id); if (kk === true) return true; if (kk !== false) all = false; } if (all) return false; }
  if (E.spec > 0) throw new SpecAbort();
  step();
  E.stats.branches++;
  if (E.pos < E.prefix.length) {
    const d = E.prefix[E.pos++];
    E.decisions.push(d);
    const v = d === 1 || d === 3;
    if (d < 2) addPc(v ? cond : T.not(cond));
    else { E.known.set(cond.id, v); E.known.set(T.not(cond).id, !v); }
    return v;
  }
  if (E.decisions.length > E.maxDecisions) abort("depth", "decision depth exceeded");
  if (!E.modelOk) refreshModel();
  const v = !!evalTerm(cond);
  const other = v ? T.not(cond) : cond;
  const r = E.solver.check(E.pc, other);
  if (r.r === "unsat") {
    E.stats.forced++;
    E.decisions.push(v ? 3 : 2);
    E.known.set(cond.id, v); E.known.set(T.not(cond).id, !v);
    return v;
  }
  E.stats.forks++;
  if (r.r === "sat") pushPending(v ? 0 : 1, merged(r.model));
  else { E.stats.unknown++; pushPending(v ? 0 : 1, null, true); }
  E.decisions.push(v ? 1 : 0);
  addPc(v ? cond : T.not(cond));
  return v;
}

// Complete case split on an Int term; returns a concrete value.
export function concretize(t, limit = 400) {
  if (T.isConst(t)) return t.v;
  if (E.spec > 0) throw new SpecAbort();
  for (let n = 0; n < limit; n++) {
    step();
    if (E.pos < E.prefix.length) {
      const d = E.prefix[E.pos++];
      E.decisions.push(d);
      const c = T.eq(t, T.num(d.v));
      if (d.b === 1) { addPc(c); return d.v; }
      if (d.b === 3) { return d.v; }
      addPc(T.not(c));
      continue;
    }
    if (!E.modelOk) refreshModel();
    const v = evalTerm(t);
    const c = T.eq(t, T.num(v));
    const r = E.solver.check(E.pc, T.not(c));
    if (r.r === "unsat") { E.decisions.push({ v, b: 3 }); return v; }
    E.stats.forks++;
    if (r.r === "sat") pushPending({ v, b: 0 }, merged(r.model));
    else { E.stats.unknown++; pushPending({ v, b: 0 }, null, true); }
    E.decisions.push({ v, b: 1 });
    addPc(c);
    return v;
  }
  unsupported("concretization limit");
}

export function assume(cond) {
  if (cond === T.TRUE) return;
  if (cond === T.FALSE) abort("infeasible");
  if (E.known.get(cond.id) === true) return;
  if (E.known.get(cond.id) === false) abort("infeasible");
  if (E.spec > 0) throw new SpecAbort();
  if (E.pos < E.prefix.length || (E.modelOk && evalTerm(cond))) { addPc(cond); return; }
  const r = E.solver.check(E.pc, cond);
  if (r.r === "unsat") abort("infeasible");
  if (r.r === "unknown") { E.stats.unknown++; abort("unknown", "solver unknown on assumption"); }
  setModel(r.model); E.modelOk = true;
  addPc(cond);
}

export function assertTerm(cond, label) {
  E.stats.asserts++;
  if (cond === T.TRUE) { E.stats.assertsConcrete++; return; }
  if (E.pos < E.prefix.length && cond !== T.FALSE) {
    // already decided on the path this one was forked from, up to the shared prefix
    // (the pc at this point is a prefix of an explored pc) - the earlier query covered it.
    addPc(cond);
    return;
  }
  if (!E.modelOk) refreshModel();
  if (cond === T.FALSE || !evalTerm(cond)) {
    reportViolation(label, E.model);
    // continue with paths where it holds, if any
    if (cond === T.FALSE) abort("violation", label);
    const r = E.solver.check(E.pc, cond);
    if (r.r !== "sat") abort("violation", label);
    setModel(r.model); addPc(cond);
    return;
  }
  const r = E.solver.check(E.pc, T.not(cond));
  if (r.r === "sat") { reportViolation(label, merged(r.model)); }
  else if (r.r === "unknown") { E.stats.unknown++; E.unknownOnPath = true; }
  if (r.r !== "unsat") addPc(cond);
  else E.known.set(cond.id, true);
}

export function fullModel(model) {
  const o = {};
  for (const [n, t] of E.vars) o[n] = T.evaluate(t, model, new Map());
  return o;
}
export function reportViolation(label, model) {
  // vars created later on the path are unconstrained here: the replay picks their defaults
  const m = fullModel(model);
  for (const [k, v] of model) if (!(k in m)) m[k] = v;
  E.violations.push({ label, model: m });
}
