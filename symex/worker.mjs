// Explores chunks of paths; also used in-process by the coordinator.
import * as T from "./term.mjs";
import { E, initEngine, clearCaches, fullModel } from "./engine.mjs";
import { Session, concreteOf } from "./session.mjs";

export class Explorer {
  constructor(file, tier, opts) {
    this.opts = opts;
    initEngine({ timeoutMs: opts.solverTimeoutMs ?? 15000, maxSteps: opts.maxSteps });
    this.sym = new Session("sym", tier);
    this.sym.loadHarness(file);
    this.conc = new Session("conc", tier);
    this.conc.loadHarness(file);
    this.n = 0;
  }
  fresh() {
    return { paths: 0, kinds: {}, decisions: 0, covers: {}, violations: [], problems: [], samples: [], validated: 0, maxDepth: 0, steps: 0 };
  }
  // explore from the given items, until `budgetMs` or `maxPaths`; returns {result, left}
  async run(caseName, items, budgetMs, maxPaths) {
    const res = this.fresh();
    if (this.lastCase !== caseName) { this.lastCase = caseName; this.recycle(); }
    const t0 = performance.now();
    const stack = items.slice();
    while (stack.length && performance.now() - t0 < budgetMs && res.paths < maxPaths) {
      const item = stack.pop();
      if (++this.n % 400 === 0) this.recycle();
      E.pending = [];
      E.violations = [];
      const out = await this.sym.runPath(item, caseName);
      res.paths++;
      res.decisions += E.decisions.length - item.prefix.length;
      res.steps += E.steps;
      res.maxDepth = Math.max(res.maxDepth, E.decisions.length);
      for (const p of E.pending) stack.push(p);
      let kind = out.kind;
      const S = this.sym.S;
      const model = fullModel(E.model);
      if (kind === "throw") E.violations.push({ label: "uncaught: " + out.msg, model, stack: out.stack });
      if (kind === "hang") E.violations.push({ label: "did not terminate (no runnable task left)", model });
      if (kind === "ok" && E.unknownOnPath) { kind = "unknown"; }
      res.kinds[kind] = (res.kinds[kind] ?? 0) + 1;
      if (kind !== "infeasible") for (const c of S.covers) res.covers[c] = (res.covers[c] ?? 0) + 1;
      if (!["ok", "infeasible", "throw", "hang", "violation"].includes(kind) && res.problems.length < 20) res.problems.push({ kind, msg: out.msg, model });
      // confirm violations natively
      for (const v of E.violations) {
        const lim = res.violations.filter((x) => x.label === v.label);
        if (lim.length >= 3 && lim.some((x) => x.confirmed)) { res.violations.count = (res.violations.count ?? 0) + 1; continue; }
        const r = await this.conc.runConcrete(v.model, caseName);
        const confirmed = r.kind === "assert" || r.kind === "throw" || r.kind === "hang";
        res.violations.push({ case: caseName, label: v.label, model: v.model, confirmed, native: r, stack: v.stack });
      }
      // validate a sample of paths against the real code
      const every = this.opts.validateEvery ?? 1;
      if (kind === "ok" && E.violations.length === 0 && (this.n % every === 0 || res.validated < 5)) {
        const expect = S.notes.map((x) => JSON.stringify(concreteOf(x)));
        const r = await this.conc.runConcrete(model, caseName);
        const got = this.conc.S.notes.map((x) => JSON.stringify(concreteOf(x)));
        res.validated++;
        const covS = [...S.covers].sort().join(), covC = [...this.conc.S.covers].sort().join();
        if (r.kind !== "ok" || expect.join("\n") !== got.join("\n") || covS !== covC) {
          res.kinds.mismatch = (res.kinds.mismatch ?? 0) + 1;
          if (r.kind === "assert" || r.kind === "throw") { res.violations.push({ case: caseName, label: r.label ?? r.msg, model, confirmed: true, native: r, foundBy: "native replay of a path model" }); }
          if (res.problems.length < 20) res.problems.push({ kind: "mismatch", msg: JSON.stringify({ native: r, expect, got, covS, covC }).slice(0, 1500), model });
        }
        if (res.samples.length < 3) res.samples.push({ model: trim(model), notes: expect.slice(0, 3).map((x) => (x ?? "undefined").slice(0, 300)), decisions: E.decisions.length });
      } else if (!["ok", "infeasible", "violation", "throw", "hang"].includes(kind)) {
        // not decided symbolically: still run its model natively
        const r = await this.conc.runConcrete(model, caseName);
        if (r.kind === "assert" || r.kind === "throw") res.violations.push({ case: caseName, label: r.label ?? r.msg, model, confirmed: true, native: r, foundBy: "native replay of an undecided path" });
      }
    }
    return { result: res, left: stack };
  }
  recycle() {
    T.resetTable();
    clearCaches();
    E.solver.reset();
  }
  stats() {
    const s = E.solver;
    return { queries: s.queries, sat: s.sat, unsat: s.unsat, unknown: s.unknown, cacheHits: s.cacheHits, timeMs: s.timeMs, branches: E.stats.branches, forks: E.stats.forks, forced: E.stats.forced, asserts: E.stats.asserts, assertsConcrete: E.stats.assertsConcrete, inexact: E.stats.inexact, fns: [...E.stats.fns.keys()], files: [...this.sym.loader.usedFiles] };
  }
}
const trim = (m) => { const e = Object.entries(m); return Object.fromEntries(e.slice(0, 60)); };

if (process.send && process.env.SYMEX_WORKER) {
  let ex;
  process.on("message", async (msg) => {
    try {
      if (msg.t === "init") { ex = new Explorer(msg.file, msg.tier, msg.opts); process.send({ t: "ready" }); }
      else if (msg.t === "run") {
        const r = await ex.run(msg.case, msg.items, msg.budgetMs, msg.maxPaths);
        process.send({ t: "done", result: r.result, left: r.left });
      } else if (msg.t === "stop") { process.send({ t: "stats", stats: ex ? ex.stats() : null }, () => { ex?.conc; E.solver?.close(); process.exit(0); }); }
    } catch (e) { process.send({ t: "error", msg: String(e.stack ?? e) }); }
  });
  process.on("disconnect", () => { E.solver?.close(); process.exit(1); });
}
