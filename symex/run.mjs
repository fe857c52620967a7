// node symex/run.mjs <PROPERTY-ID> [--tier quick|thorough] [--case NAME] [--jobs N] [--replay FILE] [-v]
import { fork } from "node:child_process";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { Explorer } from "./worker.mjs";
import { E } from "./engine.mjs";
import { VERIF, REPO } from "./loader.mjs";
import { Session } from "./session.mjs";

const args = process.argv.slice(2);
const id = args.find((a) => !a.startsWith("-") && !["quick", "thorough"].includes(a));
const opt = (n, d) => { const i = args.indexOf("--" + n); return i >= 0 ? args[i + 1] : d; };
const tier = opt("tier", process.env.VERIF_TIER ?? "quick");
const verbose = args.includes("-v");
const jobs = Number(opt("jobs", Math.max(1, Math.min(8, os.cpus().length))));
const file = ["ts", "js"].map((x) => path.join(VERIF, "checks", `${id}.${x}`)).find((p) => fs.existsSync(p));
if (!file) { console.error("no check " + id); process.exit(2); }
const t00 = Date.now();
const die = (code) => { E.solver?.close(); process.exitCode = code; setTimeout(() => process.exit(code), 50); };

async function main() {
  process.chdir("/");
  const rp = opt("replay");
  if (rp) return replay(rp);
  const wopts = { solverTimeoutMs: tier === "thorough" ? 60000 : 15000, validateEvery: 1 };
  let ex;
  try { ex = new Explorer(file, tier, wopts); }
  catch (e) { console.error("CHECK-BROKEN: cannot load harness: " + (e.stack ?? e)); return die(2); }
  const meta = ex.sym.harness.meta ?? {};
  Object.assign(wopts, meta.opts ?? {});
  if (meta.opts?.maxSteps) E.maxSteps = meta.opts.maxSteps;
  ex.opts = wopts;
  const missing = missingImports(ex.conc, file);
  if (missing.length) { console.error("CHECK-BROKEN: names the harness needs are gone: " + missing.join(", ")); return die(2); }
  const only = opt("case");
  let cases = Object.keys(ex.sym.harness.cases).filter((c) => (!only || c === only) && !(tier === "quick" && ex.sym.harness.cases[c].thoroughOnly));
  const deadline = t00 + 1000 * Number(opt("deadline", tier === "thorough" ? meta.thoroughDeadline ?? 3600 : meta.deadline ?? 300));
  // pool
  const workers = [];
  let stopping = false;
  const wstats = [];
  const spawnWorkers = (n) => {
    while (workers.length < n) {
      const w = fork(path.join(path.dirname(fileURLToPath(import.meta.url)), "worker.mjs"), [], { env: { ...process.env, SYMEX_WORKER: "1" }, serialization: "advanced", execArgv: ["--stack-size=3900", "--max-old-space-size=3000"] });
      const rec = { w, busy: null, ready: false };
      w.send({ t: "init", file, tier, opts: wopts });
      workers.push(rec);
    }
  };
  const results = {};
  const total = { paths: 0, decisions: 0, validated: 0, kinds: {}, covers: {}, violations: [], problems: [], samples: [], maxDepth: 0, steps: 0 };
  let incomplete = [];
  for (const c of cases) {
    const tc = Date.now();
    const agg = ex.fresh();
    const mergeRes = (r) => {
      agg.paths += r.paths; agg.decisions += r.decisions; agg.validated += r.validated; agg.steps += r.steps; agg.maxDepth = Math.max(agg.maxDepth, r.maxDepth);
      for (const k in r.kinds) agg.kinds[k] = (agg.kinds[k] ?? 0) + r.kinds[k];
      for (const k in r.covers) agg.covers[k] = (agg.covers[k] ?? 0) + r.covers[k];
      agg.violations.push(...r.violations); agg.problems.push(...r.problems);
      if (agg.samples.length < 3) agg.samples.push(...r.samples.slice(0, 3 - agg.samples.length));
    };
    let queue = [{ prefix: [], model: [] }];
    // short in-process start
    const first = await ex.run(c, queue, jobs > 1 ? 1200 : Math.max(1000, deadline - Date.now()), Infinity);
    mergeRes(first.result);
    queue = first.left;
    const enough = () => agg.violations.filter((v) => v.confirmed).length >= 40;
    if (queue.length && jobs > 1 && !enough()) {
      spawnWorkers(jobs);
      await new Promise((resolve) => {
        let outstanding = 0;
        const give = () => {
          for (const rec of workers) {
            if (!rec.ready || rec.busy) continue;
            if (queue.length === 0) break;
            if (Date.now() > deadline || enough()) break;
            // shallow items first: they have the biggest subtrees
            queue.sort((a, b) => b.prefix.length - a.prefix.length);
            const idle = workers.filter((x) => !x.busy).length;
            const n = Math.max(1, Math.min(60, Math.floor(queue.length / Math.max(1, idle * 2))));
            const items = [];
            for (let k = 0; k < n && queue.length; k++) items.push(queue.pop());
            rec.busy = true; outstanding++;
            rec.w.send({ t: "run", case: c, items, budgetMs: queue.length < workers.length * 2 ? 250 : 1000, maxPaths: 1e9 });
          }
          if (outstanding === 0 && workers.every((r) => r.ready || r.dead)) { if (queue.length === 0 || Date.now() > deadline || enough()) resolve(); }
        };
        for (const rec of workers) {
          rec.w.removeAllListeners("message");
          rec.w.removeAllListeners("exit");
          rec.w.on("message", (m) => {
            if (m.t === "ready") rec.ready = true;
            else if (m.t === "done") { mergeRes(m.result); queue.push(...m.left); rec.busy = null; outstanding--; }
            else if (m.t === "error") { agg.problems.push({ kind: "worker", msg: m.msg }); agg.kinds.worker = (agg.kinds.worker ?? 0) + 1; if (rec.busy) { rec.busy = null; outstanding--; } else rec.dead = true; }
            give();
          });
          rec.w.on("exit", () => { rec.dead = true; rec.ready = false; agg.problems.push({ kind: "worker", msg: "worker died" }); agg.kinds.worker = (agg.kinds.worker ?? 0) + 1; if (rec.busy) { rec.busy = null; outstanding--; } give(); if (workers.every((x) => x.dead)) resolve(); });
        }
        give();
      });
    }
    if (queue.length) incomplete.push(`${c}: ${queue.length} path prefixes not explored within the time limit`);
    const bad = Object.entries(agg.kinds).filter(([k]) => !["ok", "infeasible", "violation", "throw", "hang"].includes(k));
    if (bad.length) incomplete.push(`${c}: ${bad.map(([k, n]) => n + " " + k).join(", ")}`);
    results[c] = { ...agg, seconds: (Date.now() - tc) / 1000 };
    total.paths += agg.paths; total.decisions += agg.decisions; total.validated += agg.validated; total.steps += agg.steps; total.maxDepth = Math.max(total.maxDepth, agg.maxDepth);
    for (const k in agg.kinds) total.kinds[k] = (total.kinds[k] ?? 0) + agg.kinds[k];
    for (const k in agg.covers) total.covers[c + ":" + k] = agg.covers[k];
    total.violations.push(...agg.violations); total.problems.push(...agg.problems.map((p) => ({ case: c, ...p })));
    for (const s of agg.samples.slice(0, 2)) total.samples.push({ case: c, ...s });
    console.log(`${id} ${c}: ${agg.paths} paths ${JSON.stringify(agg.kinds)} covers ${JSON.stringify(agg.covers)} validated ${agg.validated} depth ${agg.maxDepth} ${((Date.now() - tc) / 1000).toFixed(1)}s`);
    if (Date.now() > deadline) { const rest = cases.slice(cases.indexOf(c) + 1); if (rest.length) incomplete.push("not reached: " + rest.join(", ")); break; }
    if (enough()) break;
  }
  // stats
  wstats.push(ex.stats());
  await Promise.all(workers.filter((r) => !r.dead).map((rec) => new Promise((res) => {
    rec.w.removeAllListeners("message"); rec.w.removeAllListeners("exit");
    rec.w.on("message", (m) => { if (m.t === "stats" && m.stats) wstats.push(m.stats); });
    rec.w.on("exit", res);
    try { rec.w.send({ t: "stop" }); } catch { res(); }
    setTimeout(() => { try { rec.w.kill("SIGKILL"); } catch {} res(); }, 3000).unref();
  })));
  const st = {};
  const fns = new Set(), files = new Set();
  for (const s of wstats) { for (const k in s) if (typeof s[k] === "number") st[k] = (st[k] ?? 0) + s[k]; s.fns.forEach((f) => fns.add(f)); s.files.forEach((f) => files.add(f)); }
  const encoded = [...fns].filter((f) => f.startsWith("packages/")).sort();
  const uncovered = [];
  for (const c of cases) for (const l of ex.sym.harness.cases[c].covers ?? []) if (results[c] && !results[c].covers[l]) uncovered.push(`${c}:${l}`);
  // findings
  const known = readKnown();
  const confirmed = total.violations.filter((v) => v.confirmed);
  const spurious = total.violations.filter((v) => !v.confirmed);
  const isKnown = (v) => known.find((k) => k.property === id && k.status === "known" && k.case === v.case && k.label === v.label);
  const fresh = confirmed.filter((v) => !isKnown(v));
  const seenKnown = new Map();
  for (const v of confirmed) { const k = isKnown(v); if (k) seenKnown.set(k, (seenKnown.get(k) ?? 0) + 1); }
  let rc = 0;
  for (const k of known) if (k.property === id && k.status === "known") { if (seenKnown.has(k)) console.log(`KNOWN-FINDING: property=${id} ${k.what}`); else console.log(`note: listed finding no longer reproduces: ${k.what}`); }
  if (spurious.length) incomplete.push(`${spurious.length} solver counterexamples did not reproduce natively: ${[...new Set(spurious.map((v) => v.label))].slice(0, 5).join("; ")}`);
  let replayPath;
  if (fresh.length) {
    const dir = path.join(VERIF, "evidence", "replays");
    fs.mkdirSync(dir, { recursive: true });
    const byLabel = new Map();
    for (const v of fresh) if (!byLabel.has(v.case + v.label)) byLabel.set(v.case + v.label, v);
    let n = 0;
    for (const v of byLabel.values()) {
      if (n >= 5) break;
      replayPath = path.join(dir, `${id}-${n++}.json`);
      fs.writeFileSync(replayPath, JSON.stringify({ property: id, case: v.case, label: v.label, inputs: v.model, native: v.native, tier, foundBy: v.foundBy ?? "solver model, replayed on the uninstrumented code", how: `node ${path.join(VERIF, "symex/run.mjs")} ${id} --tier ${tier} --replay ${replayPath}` }, null, 1));
      console.log(`  ${v.case}: ${v.label}\n    inputs ${JSON.stringify(v.model).slice(0, 600)}\n    native ${JSON.stringify({ kind: v.native.kind, label: v.native.label, msg: v.native.msg })}`);
      console.log(`VIOLATION property=${id} replay=${replayPath}`);
    }
    rc = 1;
  }
  if (uncovered.length && rc === 0) { console.log("VACUOUS: never reached: " + uncovered.join(", ")); if (!only) rc = 2; }
  if (incomplete.length) for (const x of incomplete) console.log("INCOMPLETE: " + x);
  if (verbose || incomplete.length) for (const p of total.problems.slice(0, verbose ? 12 : 3)) console.log("  problem " + p.case + " " + p.kind + " " + p.msg + " " + JSON.stringify(p.model ?? {}).slice(0, 500));
  if (verbose) for (const v of spurious.slice(0, 5)) console.log("  spurious " + v.case + " " + v.label + " " + JSON.stringify(v.model).slice(0, 600) + " native " + JSON.stringify(v.native).slice(0, 300) + (v.stack ?? ""));
  if (verbose) console.log("encoded functions:\n  " + encoded.join("\n  "));
  console.log(`${id} ${tier}: ${total.paths} paths, ${st.queries} solver queries (${st.sat} sat, ${st.unsat} unsat, ${st.unknown} unknown; ${(st.timeMs / 1000).toFixed(1)}s solver), ${st.asserts} assertions, ${total.validated} native replays, ${encoded.length} functions, ${((Date.now() - t00) / 1000).toFixed(1)}s`);
  if (!only) {
    const evd = {
      property: id, level: "model_checking", technique: "symbolic execution of the repository's code, SMT (z3) decides every branch and assertion",
      tier, seed: Number(process.env.VERIF_SEED ?? 1), verdict: rc === 1 ? "violation" : rc === 0 ? (incomplete.length ? "held on everything explored (incomplete)" : "held for every value within the bounds") : "vacuous",
      wall_s: (Date.now() - t00) / 1000,
      coverage: {
        states: total.kinds.ok ?? 0, transitions: total.decisions, traces_validated_against_impl: total.validated,
        samples: total.samples.slice(0, 12),
        paths: total.paths, path_outcomes: total.kinds, forks: st.forks, branch_queries_forced: st.forced, max_path_depth: total.maxDepth,
        solver: { name: "z3 5.3.2 (z3-new)", queries: st.queries, sat: st.sat, unsat: st.unsat, unknown: st.unknown, cached: st.cacheHits, seconds: st.timeMs / 1000 },
        assertions_checked: st.asserts, assertions_closed_by_simplifier: st.assertsConcrete,
        functions_encoded: encoded, source_files: [...files].filter((f) => f.startsWith("packages/")).sort(),
        bounds: meta.bounds ?? [], outside_bounds: meta.outside ?? [], assumptions: meta.assumptions ?? [], cover_labels: total.covers, per_case_seconds: Object.fromEntries(Object.entries(results).map(([k, v]) => [k, v.seconds])),
        complete: incomplete.length === 0, incomplete,
      },
      known_findings: [...seenKnown.keys()].map((k) => k.what), violations: fresh.slice(0, 5).map((v) => ({ case: v.case, label: v.label, inputs: v.model })),
    };
    evd.result = rc === 1 ? "violation" : "pass";
    fs.mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
    fs.writeFileSync(path.join(VERIF, "evidence", id + ".json"), JSON.stringify(finishEvidence(evd), null, 1));
  }
  die(rc);
}
function finishEvidence(e) { return e; }
function readKnown() {
  const p = path.join(VERIF, "known-findings.jsonl");
  if (!fs.existsSync(p)) return [];
  return fs.readFileSync(p, "utf8").split("\n").filter((l) => l.trim().startsWith("{")).map((l) => JSON.parse(l));
}
function missingImports(sess, f) {
  const src = fs.readFileSync(f, "utf8");
  const out = [];
  for (const m of src.matchAll(/^import\s+(\{[^}]*\}|\*\s+as\s+\w+|\w+)\s+from\s+["']([^"']+)["']/gm)) {
    if (!m[1].startsWith("{") || m[2] === "symex" || m[2].startsWith(".")) continue;
    let mod;
    try { mod = sess.loader.forceRequire(m[2], f); } catch (e) { out.push(m[2] + " (" + e.message + ")"); continue; }
    for (const n of m[1].slice(1, -1).split(",").map((x) => x.trim().split(/\s+as\s+/)[0]).filter(Boolean)) { if (n.startsWith("type ")) continue; if (mod[n] === undefined) out.push(`${m[2]}#${n}`); }
  }
  return out;
}
async function replay(p) {
  const j = JSON.parse(fs.readFileSync(p, "utf8"));
  const s = new Session("conc", j.tier ?? tier);
  s.loadHarness(file);
  const r = await s.runConcrete(j.inputs, j.case);
  console.log(JSON.stringify({ ...r, notes: s.S.notes }, null, 1));
  process.exit(r.kind === "ok" ? 0 : 1);
}
main().catch((e) => { console.error("CHECK-BROKEN: " + (e.stack ?? e)); die(2); });
