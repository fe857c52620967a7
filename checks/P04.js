// Execution budgets: no tool call or provider request is admitted once a limit is reached, across attempts of one tree.
import { S } from "symex";
import { CapabilityGateway, budgetedTokens } from "@repo/packages/coding-agent/src/core/orchestration/capability-gateway.ts";
import { WorkerTreeBudgetCoordinator, collectWorkerTreeBudgetSeeds, workerTreeCanAdmitAttempt } from "@repo/packages/coding-agent/src/core/delegation/worker-tree-budget-coordinator.ts";
import { reconcileAttemptUsage, addAttemptUsage, validateAttemptUsageSnapshot } from "@repo/packages/coding-agent/src/core/orchestration/attempt-usage.ts";

export const meta = {
  bounds: ["a resumed attempt with symbolic prior usage, then up to 3 (thorough 4) steps, each a tool call, a usage report, or the clock advancing, all amounts symbolic (tokens 0..1000000, cost in quarters of a dollar, time 0..100000 ms)", "every subset of the four limits, limits symbolic", "two attempts of one worker tree reserving provider tokens, with usage, release and waiting in every order of up to 4 (thorough 5) steps"],
  outside: ["cache-read counts divisible by ten (there the product with 0.1 may round up by one token)", "floating point rounding of costs (amounts are multiples of 1/4)"],
  assumptions: [],
};
const N = 1000000;
const usage = (k) => ({ toolCalls: S.int(k + "calls", 0, 50), inputTokens: S.int(k + "in", 0, N), outputTokens: S.int(k + "out", 0, N), cacheReadTokens: S.int(k + "cr", 0, N / 10) * 10 + 5, cacheWriteTokens: 0, totalTokens: S.int(k + "tot", 0, 3 * N), costUsd: S.frac(k + "cost", 0, 100), activeWallClockMs: S.int(k + "ms", 0, 100000) });
// charged tokens: everything at face value, cache reads at a tenth, unattributed totals in full
const charged = (u) => { const d = u.inputTokens + u.outputTokens + u.cacheWriteTokens; return d + Math.max(0, u.totalTokens - d - u.cacheReadTokens) + Math.ceil(u.cacheReadTokens / 10); };
const man = { toolName: "task_steps", capabilities: ["workflow.plan"], roles: ["explorer"], enforcements: ["control-plane"] };
const grant = (budget, extra) => ({ schemaVersion: 1, grantId: "g", objectiveId: "o", taskId: "t", attemptId: "a", subjectId: "s", role: "explorer", capabilities: ["workflow.plan"], allowedTools: ["task_steps"], resources: [], readPaths: [], writePaths: [], deniedPaths: [], budget, policyVersion: "1", decisionTrace: [], issuedAt: "x", ...extra });
export const cases = {
  attempt: { covers: ["ran", "denied", "provider refused"], run(S) {
    let now = 1000000;
    const lim = S.pick("limits", [["maxToolCalls"], ["maxTokens"], ["maxCostUsd"], ["maxWallClockMs"], ["maxToolCalls", "maxTokens", "maxCostUsd", "maxWallClockMs"]]);
    const budget = {};
    for (const l of lim) budget[l] = l === "maxCostUsd" ? S.frac(l, 0, 100) : S.int(l, 0, l === "maxTokens" ? 4 * N : 200000);
    const u0 = usage("u");
    const gw = new CapabilityGateway({ grant: grant(budget, { expiresAt: new Date(1050000).toISOString() }), cwd: "/p", initialUsage: u0, now: () => now });
    const m = { ...u0 };
    const spent = () => (budget.maxToolCalls !== undefined && S.truth(m.toolCalls >= budget.maxToolCalls)) || (budget.maxTokens !== undefined && S.truth(charged(m) >= budget.maxTokens)) || (budget.maxCostUsd !== undefined && S.truth(m.costUsd >= budget.maxCostUsd)) || (budget.maxWallClockMs !== undefined && S.truth(m.activeWallClockMs >= budget.maxWallClockMs));
    const steps = S.thorough ? 4 : 3;
    for (let i = 0; i < steps; i++) {
      const op = S.pick("op" + i, ["call", "usage", "tick"]);
      if (op === "call") {
        let ran = false;
        const r = S.try(() => { gw.authorizeToolCall(man, "task_steps", {}); ran = true; });
        const bad = S.truth(now >= 1050000) || spent();
        if (ran) { S.cover("ran"); S.assert(!bad, "a call was admitted past a limit or past the grant's expiry"); m.toolCalls = m.toolCalls + 1; }
        else { S.cover("denied"); S.assert(bad, "a call within every limit was denied"); }
      } else if (op === "usage") {
        const d = { inputTokens: S.int("din" + i, 0, N), cacheReadTokens: S.int("dcr" + i, 0, N / 10) * 10, costUsd: S.frac("dc" + i, 0, 100) };
        gw.recordUsage(d);
        m.inputTokens = m.inputTokens + d.inputTokens; m.cacheReadTokens = m.cacheReadTokens + d.cacheReadTokens; m.totalTokens = m.totalTokens + d.inputTokens + d.cacheReadTokens; m.costUsd = m.costUsd + d.costUsd;
      } else { const dt = S.int("dt" + i, 0, 100000); now = now + dt; m.activeWallClockMs = m.activeWallClockMs + dt; }
    }
    const u = gw.getUsage();
    S.assert(u.toolCalls === m.toolCalls && u.inputTokens === m.inputTokens && u.cacheReadTokens === m.cacheReadTokens && u.totalTokens === m.totalTokens && u.costUsd === m.costUsd && u.wallClockMs === m.activeWallClockMs, "cumulative usage is the prior usage plus everything reported");
    const p = S.try(() => gw.assertBudgetAvailable());
    if (!p.ok) S.cover("provider refused");
    S.assert(p.ok === !spent(), "a provider request is admitted exactly while every limit has headroom");
    if (budget.maxTokens !== undefined) { const left = gw.remainingTokenBudget(); S.assert(left >= 0 && left <= Math.max(0, budget.maxTokens - charged(m)), "remaining tokens never exceed the limit minus what was charged"); }
  } },
  badUsage: { covers: ["refused", "kept"], run(S) {
    const gw = new CapabilityGateway({ grant: grant({ maxTokens: 10 }), cwd: "/p", now: () => 5 });
    const f = S.pick("f", ["inputTokens", "outputTokens", "cacheReadTokens", "cacheWriteTokens", "totalTokens", "costUsd"]);
    const v = S.flag("odd") ? S.pick("v", [NaN, Infinity, -Infinity, 2 ** 53]) : S.frac("n", -10, 10, 2);
    const r = S.try(() => gw.recordUsage({ [f]: v }));
    const ok = v >= 0 && v !== Infinity && (f === "costUsd" || Number.isSafeInteger(v));
    S.cover(r.ok ? "kept" : "refused");
    S.assert(r.ok === S.truth(ok), "only finite non-negative usage is recorded");
    const u = gw.getUsage();
    for (const k of ["inputTokens", "outputTokens", "cacheReadTokens", "totalTokens", "costUsd"]) S.assert(u[k] >= 0, "usage never goes backwards");
  } },
  tree: { covers: ["both reserved", "waited", "refused", "released"], async run(S) {
    const c = new WorkerTreeBudgetCoordinator();
    const max = S.int("max", 1, N);
    const zero = { toolCalls: 0, inputTokens: 0, outputTokens: 0, cacheReadTokens: 0, cacheWriteTokens: 0, totalTokens: 0, costUsd: 0, activeWallClockMs: 0 };
    const costLimited = S.flag("costLimited");
    const budget = { maxTokens: max, ...(costLimited ? { maxCostUsd: 50 } : {}) };
    const used = { a: S.int("usedA", 0, N), b: 0, old: S.int("old", 0, N) };
    const mk = (id) => c.createPort({ rootAgentId: "r", attemptId: id, budget, seeds: [{ attemptId: "old", usage: { ...zero, inputTokens: used.old, totalTokens: used.old } }], initialUsage: { ...zero, inputTokens: used[id], totalTokens: used[id] } });
    const ports = { a: mk("a"), b: mk("b") };
    const held = { a: null, b: null }, pend = { a: null, b: null };
    const total = () => used.a + used.b + used.old;
    const chk = () => {
      let open = 0; for (const k of ["a", "b"]) if (held[k]) open += held[k].left;
      // what is reserved never exceeds what is left
      if (held.a || held.b) S.assert(Math.max(0, open) <= Math.max(0, max - total()) || over, "reserved tokens exceed what the tree has left");
      const rem = ports.a.remainingTokens(); S.assert(rem >= 0 && rem <= Math.max(0, max - total()), "remaining tokens overstate the tree's budget");
      if (held.a && held.b) { S.cover("both reserved"); S.assert(!costLimited, "two requests in flight under a cost limit that neither can be charged against yet"); }
    };
    let over = false;
    const steps = S.thorough ? 5 : 4;
    for (let i = 0; i < steps; i++) {
      const k = i === 0 ? "a" : S.pick("who" + i, ["a", "b"]);
      const op = i === 0 ? "reserve" : S.pick("op" + i, ["reserve", "use", "release"]);
      if (op === "reserve" && !held[k] && !pend[k]) {
        const want = S.int("want" + i, 1, N);
        const p = { done: false }; pend[k] = p;
        ports[k].reserveProviderBudget(want, "x").then((r) => { held[k] = { r, left: r.maxTokens }; pend[k] = null; if (p.slow) S.cover("waited"); S.assert(r.maxTokens >= 1 && r.maxTokens <= want, "a reservation is positive and no larger than asked for"); }, (e) => { S.rethrow(e); pend[k] = null; S.cover("refused"); S.assert(S.truth(total() >= max), "a reservation was refused with tokens left"); });
      } else if (op === "use") {
        const d = S.int("use" + i, 0, N); used[k] = used[k] + d;
        if (held[k]) { if (S.truth(d > held[k].left)) over = true; held[k].left = Math.max(0, held[k].left - d); } else if (S.truth(d > 0)) over = true;
        ports[k].recordAttemptUsage({ ...zero, inputTokens: used[k], totalTokens: used[k], wallClockMs: 0 });
      } else if (op === "release" && held[k]) { held[k].r.release(); held[k].r.release(); held[k] = null; S.cover("released"); }
      await S.settle(2);
      for (const q of ["a", "b"]) if (pend[q]) pend[q].slow = true;
      chk();
    }
    // nobody is left waiting once the others have let go
    for (const k of ["a", "b"]) if (held[k]) { held[k].r.release(); held[k] = null; await S.settle(2); }
    for (const k of ["a", "b"]) if (held[k]) { held[k].r.release(); held[k] = null; await S.settle(2); }
    S.assert(!pend.a && !pend.b, "a waiting request is granted or refused once nothing is reserved");
  } },
  join: { covers: ["behind", "narrower"], run(S) {
    // later ports join with seeds that may be behind or ahead of what live attempts recorded
    const c = new WorkerTreeBudgetCoordinator();
    const zero = { toolCalls: 0, inputTokens: 0, outputTokens: 0, cacheReadTokens: 0, cacheWriteTokens: 0, totalTokens: 0, costUsd: 0, activeWallClockMs: 0 };
    const u = (n) => ({ ...zero, inputTokens: n, totalTokens: n }), g = (n) => ({ ...u(n), wallClockMs: 0 });
    const most = (...x) => x.reduce((m, y) => Math.max(m, y));
    const max1 = S.int("max1", 0, N), max2 = S.int("max2", 0, N);
    const a0 = S.int("a0", 0, N), a1 = S.int("a1", 0, N), sa = S.int("seedA", 0, N), sb = S.int("seedB", 0, N), b0 = S.int("b0", 0, N), so = S.int("other", 0, N);
    const again = S.flag("rejoin");
    const port = c.createPort({ rootAgentId: "r", attemptId: "a", budget: { maxTokens: max1 }, seeds: [], initialUsage: u(a0) });
    port.recordAttemptUsage(g(a1));
    S.assert(port.remainingTokens() === Math.max(0, max1 - most(a0, a1)), "recorded usage is not the most that was seen");
    const id = again ? "a" : "b";
    const two = c.createPort({ rootAgentId: "r", attemptId: id, budget: { maxTokens: max2 }, seeds: [{ attemptId: "a", usage: u(sa) }, { attemptId: "b", usage: u(sb) }, { attemptId: "o", usage: u(so) }], initialUsage: u(b0) });
    const ua = again ? most(a0, a1, sa, b0) : most(a0, a1, sa), ub = again ? sb : most(sb, b0);
    if (S.truth(sa < a1)) S.cover("behind");
    if (S.truth(max2 < max1)) S.cover("narrower");
    const left = Math.max(0, Math.min(max1, max2) - ua - ub - so);
    S.assert(two.remainingTokens() === left && port.remainingTokens() === left, "a worker that joined changed what the tree had spent or may spend");
    const other = c.createPort({ rootAgentId: "q", attemptId: "a", budget: { maxTokens: max1 }, seeds: [], initialUsage: zero });
    S.assert(other.remainingTokens() === max1, "one tree is charged for another's work");
  } },
  reconcile: { covers: ["seeded"], run(S) {
    const a = usage("a"), b = usage("b");
    const r = reconcileAttemptUsage(a, b);
    for (const k of Object.keys(a)) S.assert(r[k] >= a[k] && r[k] >= b[k] && (r[k] === a[k] || r[k] === b[k]), "recovered usage is at least both records and invents nothing");
    const s = addAttemptUsage(a, b);
    for (const k of Object.keys(a)) S.assert(s[k] === a[k] + b[k], "adding usage adds every field");
    S.assert(budgetedTokens(a) === charged(a), "charged tokens count all work at face value and cache reads at a tenth");
    const nMax = S.int("maxAttempts", 0, 5), n = S.int("n", 0, 6);
    S.assert(workerTreeCanAdmitAttempt(n, nMax) === n < nMax, "attempts are admitted below the limit only");
    const seeds = collectWorkerTreeBudgetSeeds({ agents: { w: { rootAgentId: "r" }, v: { rootAgentId: "q" } }, attempts: { 1: { attemptId: "1", agentId: "w", dispatch: {}, checkpointIds: ["c1", "c2"] }, 2: { attemptId: "2", dispatch: { logicalLaneId: "w" }, checkpointIds: [] }, 3: { attemptId: "3", agentId: "v", dispatch: {}, checkpointIds: ["c1"] } }, checkpoints: { c1: { usage: a }, ...(S.flag("late") ? { c2: { usage: b } } : { c2: {} }) } }, "r");
    S.cover("seeded");
    S.note(seeds);
    S.assert(seeds.length === 2 && seeds.some((x) => x.attemptId === "1") && seeds.some((x) => x.attemptId === "2"), "every attempt of the tree, and only those, is counted after a restart");
  } },
};
