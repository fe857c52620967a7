// Delegated work: a request is recorded once, conflicting requests are refused, and work interrupted by a restart is taken up once more.
import { S } from "symex";
import { DelegationOrchestrationLedger } from "@repo/packages/coding-agent/src/core/orchestration/delegation-ledger.ts";
import { createWorkerExecutionContract } from "@repo/packages/coding-agent/src/core/orchestration/worker-execution-contract.ts";

export const meta = {
  bounds: ["one session objective, an isolated lane, a lane that depends on it, a managed lane and one logical agent with mailbox turns", "from each of 20 life stages: every sequence of two (thorough three) steps of preparing (the same request, or one of 9 conflicting ones), starting, ending, cancelling, pausing, asking for approval, failing, taking turns and restarting", "a ledger opened anew from the log before any step or not"],
  outside: ["the transport of the work itself and its transcripts", "requests larger than the record limits", "verifier lanes (P29)"],
  assumptions: ["the event log keeps order and answers a repeated key with the first event (P28)", "one ledger of a session runs at a time"],
};
const T0 = 1e12, iso = (S) => new Date(T0 + S.now).toISOString(), clone = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));
const same = (a, b) => { if (a === b) return true; if (typeof a !== "object" || typeof b !== "object" || !a || !b || Array.isArray(a) !== Array.isArray(b)) return false; const k = Object.keys(a).filter((x) => a[x] !== undefined), l = Object.keys(b).filter((x) => b[x] !== undefined); return k.length === l.length && k.every((x) => same(a[x], b[x])); };
const memory = (S) => {
  const log = []; let n = 0;
  return { log, append(input, { expectedLastOrdinal, validateBeforeCommit } = {}) {
    const prior = input.idempotencyKey && log.find((e) => e.idempotencyKey === input.idempotencyKey);
    if (prior) { if (prior.type !== input.type || prior.aggregateId !== input.aggregateId || !same(prior.payload, clone(input.payload))) throw new Error("conflicting key"); return clone(prior); }
    if (expectedLastOrdinal !== undefined && expectedLastOrdinal !== log.length) throw new Error("position");
    const e = clone({ schemaVersion: 1, ordinal: log.length + 1, eventId: "e" + ++n, ...input, occurredAt: iso(S) }); validateBeforeCommit?.(clone(e)); log.push(e); return clone(e); },
  readAll: () => clone(log), readAfter: (n) => clone(log.slice(n)), readProjectionSnapshot: () => undefined, compactIfNeeded: () => false };
};
const profile = (o = {}) => ({ schemaVersion: 1, profileId: "p", description: "d", role: "implementer", modelPolicy: { mode: "fixed", candidates: [{ provider: "x", modelId: "m", thinkingLevel: "off" }] }, capabilityCeiling: ["filesystem.read"], toolNames: ["read"], resourceProfileNames: [], dispatchProfileIds: [], budget: { maxAttempts: 2 }, maxConcurrent: 1, leaseTtlMs: 60000, requireIndependentVerification: false, createdAt: "2026-01-01T00:00:00.000Z", updatedAt: "2026-01-01T00:00:00.000Z", ...o });
const contract = (p) => createWorkerExecutionContract({ worker: { profile: p, modelBinding: p.modelPolicy.candidates[0], authority: { capabilities: ["filesystem.read"], toolNames: ["read"], readPaths: ["/w"], writePaths: [], deniedPaths: [], budget: { ...p.budget } } } });
const fork = (digest) => ({ schemaVersion: 1, artifactId: "fork-" + digest, digest });
const base = () => ({ laneId: "l", instructions: " do it\n", executionContract: contract(profile()), requiredCapabilities: ["filesystem.read"] });
const ASK = { // requests for the lane: 'same' repeats the first one, every other is a different request
  same: () => base(), text: () => ({ ...base(), instructions: "do more" }), caps: () => ({ ...base(), requiredCapabilities: [] }), role: () => ({ ...base(), executionContract: contract(profile({ role: "explorer" })) }), budget: () => ({ ...base(), executionContract: contract(profile({ budget: { maxAttempts: 3 } })) }), owner: () => ({ ...base(), parentAgentId: "a" }), tools: () => ({ ...base(), executionContract: contract(profile({ description: "other" })) }), goal: () => ({ ...base(), goal: { goalId: "g", userGoal: "u", status: "active", requirements: [], evidence: [], events: [], createdAt: "c", updatedAt: "c", lastProgressAt: "c", stallTurns: 0 } }), deps: () => ({ ...base(), taskContext: { requirementIds: [], dependsOnTaskIds: ["k"], acceptanceCriterionIds: [], resourcePointerIds: [] } }), link: () => ({ ...base(), taskContext: { requirementIds: ["r"], dependsOnTaskIds: [], acceptanceCriterionIds: [], resourcePointerIds: ["x"] } }),
};
const TASK = new Set(["text", "caps", "role", "budget", "goal", "deps"]); // those that ask for another task, not just another way to run it
const LIVE = ["queued", "leased", "running", "suspended"], END = ["completed", "partial", "blocked", "failed", "cancelled", "expired"];
const grant = (S, st, a) => ({ schemaVersion: 1, grantId: "g-" + a.attemptId, objectiveId: st.tasks[a.taskId].task.objectiveId, taskId: a.taskId, attemptId: a.attemptId, subjectId: "s", role: st.tasks[a.taskId].task.role, capabilities: [], allowedTools: [], resources: [], readPaths: [], writePaths: [], deniedPaths: [], budget: {}, policyVersion: "1", decisionTrace: [], issuedAt: iso(S) });
const result = (S, st, a, status) => ({ schemaVersion: 1, resultId: "r-" + a.attemptId, objectiveId: st.tasks[a.taskId].task.objectiveId, taskId: a.taskId, attemptId: a.attemptId, leaseId: a.lease?.leaseId ?? "none", fencingToken: a.lease?.fencingToken ?? 1, status, reasonCode: "x", summary: "s", artifacts: [], evidence: [], errors: [], usage: { wallClockMs: 1, toolCalls: 0 }, createdAt: iso(S) });
const newest = (st, id) => st.attempts[st.tasks[id]?.attemptIds.at(-1)];
const begin = (S, x) => { x.store = memory(S); x.ids = 0; open(S, x); };
const open = (S, x) => { x.l = new DelegationOrchestrationLedger({ agentDir: "/a", sessionId: "s", now: () => T0 + S.now, store: x.store }); };
// the attempt a command aims at: of the lane, the managed lane (m:) or the agent's newest turn (a:)
const aim = (st, k) => (k === "m" ? newest(st, "m:turn:1") : k === "k" ? newest(st, "k") : k === "a" ? Object.values(st.attempts).filter((y) => y.dispatch.logicalLaneId === "a").at(-1) : newest(st, "l"));
const act = {
  start: (S, x, y, st) => { x.l.runtime.bindAttemptGrant(y.attemptId, grant(S, st, y)); return y.dispatch.logicalLaneId === "a" ? x.l.start(y.attemptId, 500, "w", "a") : x.l.start(y.attemptId, 500); },
  done: (S, x, y, st) => x.l.runtime.finishAttempt(result(S, st, y, "completed")), lost: (S, x, y, st) => x.l.runtime.finishAttempt(result(S, st, y, "failed")), cancel: (S, x, y) => x.l.cancel(y.attemptId, "why"), ask: (S, x, y, st) => x.l.runtime.requestApproval({ schemaVersion: 1, approvalId: "ap", objectiveId: "session:s", taskId: y.taskId, reasonCode: "x", summary: "s", requestedCapabilities: ["filesystem.read"], reversible: true, createdAt: iso(S) }),
};
const turn = (id, text, deps) => (S, x) => x.l.prepareAgentTurn({ agentId: "a", instructions: text, ...(id ? { controlMessageId: id } : {}), ...(deps ? { dependsOnTaskIds: deps } : {}) });
// what a request for the lane records
const wanted = (v) => { const r = ASK[v](); return { i: r.instructions, c: r.executionContract, p: r.parentAgentId, q: r.taskContext?.requirementIds ?? [], d: r.taskContext?.dependsOnTaskIds ?? [], n: r.requiredCapabilities, g: r.goal ? "goal:g" : "session:s" }; };
const shape = (y, b) => { const t = b.tasks[y.taskId].task; return { i: y.dispatch.instructions, c: y.dispatch.executionContract, p: y.dispatch.parentAgentId, q: y.dispatch.requirementIds, d: t.dependsOn, n: t.requiredCapabilities, g: t.objectiveId }; };
const isTask = (v, t) => { const r = wanted(v), x = t.task; return r.i.trim() === x.description && same(r.d, x.dependsOn) && same(r.n, x.requiredCapabilities) && r.g === x.objectiveId && r.c.worker.profile.role === x.role && same(clone(r.c.worker.profile.budget), x.riskBudget); };
const managed = (o = {}) => (S, x) => x.l.prepareManaged({ laneId: "m", dispatchSequence: 1, instructions: "run", profileId: "q", provider: "x", authorizationId: "z", role: "implementer", riskBudget: { maxAttempts: 1 }, ...o });
const words = {
  ...Object.fromEntries(Object.keys(ASK).map((k) => ["prep-" + k, (S, x) => x.l.prepare(ASK[k]())])), other: (S, x) => x.l.prepare({ ...base(), laneId: "k" }), managed: managed(), managedElse: managed({ instructions: "else" }), agent: (S, x) => { x.l.prepare({ ...base(), laneId: "a", instructions: "be" }); x.l.runtime.registerAgent({ agentId: "a", role: "implementer", resumeContext: { provider: "pi", sessionId: "s-a", cwd: "/w", resourceProfileNames: [], contextPointers: [] } }); },
  turn1: turn("m1", "first"), turn1else: turn("m1", "altered"), turn2: turn("m2", "second"), turnFree: turn(undefined, "free"), turnDeps: turn("m1", "first", ["l"]), later: (S) => { S.now += 1000; },
  restart: (S, x) => { open(S, x); return x.l.recoverQueuedDispatches(); }, recover: (S, x) => x.l.recoverQueuedDispatches(), pause: (S, x) => x.l.runtime.pauseObjective("session:s"), go: (S, x) => x.l.runtime.resumeObjective("session:s"), stop: (S, x) => x.l.runtime.cancelObjective("session:s"), expire: (S, x) => x.l.runtime.expireLeases(), yes: (S, x) => x.l.runtime.resolveApproval("ap", "approved", "ok"), fail: (S, x) => x.l.runtime.failTask("l", "f"),
};
for (const w of Object.keys(act)) for (const k of ["l", "m", "a", "k"]) if (!(w === "ask" && k !== "l")) words[k === "l" ? w : k + ":" + w] = (S, x) => { const st = x.l.runtime.getSnapshot(), y = aim(st, k); if (!y) throw Object.assign(new Error("none"), { none: true }); return act[w](S, x, y, st); };
const STAGES = ["", "prep-same", "prep-same start", "prep-same start done", "prep-same start lost", "prep-same cancel", "prep-same start later expire", "prep-same start restart", "prep-same start restart start", "prep-same start pause", "prep-same start ask", "prep-same start restart cancel", "prep-same start later expire prep-same start done", "prep-same start other k:start", "managed m:start", "managed m:start m:done", "agent a:start", "agent a:start a:done", "agent a:start a:done turn1", "agent a:start a:done turn1 a:start a:done", "prep-same start other k:start pause", "prep-same start managed m:start"];
const STEPS = Object.keys(words).filter((w) => !["k:ask"].includes(w));
const step = (S, w, x) => {
  const st = x.l.runtime.getSnapshot(), n = x.store.log.length, t = S.try(() => words[w](S, x)); if (!t.ok && t.error?.none) return "none";
  const q = S.try(() => x.l.runtime.getSnapshot()); S.assert(q.ok, "after a step the state cannot be read"); const b = q.value, quiet = x.store.log.length === n; S.cover(w + (t.ok ? "" : " refused"));
  const fresh = S.try(() => new DelegationOrchestrationLedger({ agentDir: "/a", sessionId: "s", now: () => T0 + S.now, store: x.store }).runtime.getSnapshot()); S.assert(fresh.ok && same(fresh.value, b), "a ledger opened anew has another state");
  if (!t.ok && !w.includes("start")) { S.assert(t.error?.name === "DurableTaskRuntimeError", "a refusal is not a reasoned one"); S.assert(w === "agent" || quiet, "a refused request changes something"); }
  for (const y of Object.values(st.attempts)) { const z = b.attempts[y.attemptId]; S.assert(z && same(y.dispatch, z.dispatch), "a recorded request changes"); if (END.includes(y.status)) S.assert(z.status === y.status, "an attempt that had ended changes"); }
  for (const y of Object.values(b.tasks)) S.assert(y.attemptIds.filter((id) => LIVE.includes(b.attempts[id].status)).length <= 1 && y.attemptIds.length <= (y.task.riskBudget.maxAttempts ?? 99), "a task has two live attempts, or more than its budget");
  const o = st.objectives["session:s"]?.objective.status, pend = Object.values(st.approvals).some((p) => p.status === "pending");
  if (w.startsWith("prep-")) {
    const v = w.slice(5), task = st.tasks.l, y = newest(st, "l"), live = y && LIVE.includes(y.status);
    const cur = y && Object.keys(ASK).find((k) => same(clone(shape(y, b)), clone(wanted(k)))), made = task && Object.keys(ASK).find((k) => TASK.has(k) && isTask(k, task)); if (y) S.assert(cur !== undefined, "a recorded request is not one that was made");
    if (task && (live ? v !== cur : TASK.has(v) ? v !== made : made !== undefined)) S.assert(!t.ok, "a request that differs from the recorded one is taken for it");
    else if (v === "deps" && !task) S.assert(t.ok === (st.tasks.k !== undefined && o === "active"), "a request that depends on unknown work is taken, or one on known work refused");
    else if (live) { S.assert(t.ok && quiet && t.value.attemptId === y.attemptId, "repeating a request under way does not return it"); }
    else { const may = (v === "goal" || o === undefined || o === "active") && (!task || (["ready", "blocked", "failed"].includes(task.task.status) && task.attemptIds.length < (task.task.riskBudget.maxAttempts ?? 99) && !pend)); S.assert(t.ok === may, may ? "a request that can be queued is refused" : "a request is queued under a closed objective, for finished work or beyond its budget"); if (t.ok) { const z = newest(b, "l"); S.assert(same(clone(shape(z, b)), clone(wanted(v))), "a request is not queued as asked"); S.assert(z.attemptId === t.value.attemptId && z.attemptId !== y?.attemptId && z.status === "queued" && same(z, t.value), "a request is not queued as asked"); } }
  } else if (w === "managed" || w === "managedElse") { const y = newest(st, "m:turn:1"); if (y && LIVE.includes(y.status)) S.assert((w === "managed") === (y.dispatch.instructions === "run") ? t.ok && quiet && t.value.attemptId === y.attemptId : !t.ok, "a managed request is not recorded once"); else if (y) S.assert(!t.ok, "a finished managed request runs again"); }
  else if (w.startsWith("turn")) {
    const g = st.agents.a, [id, text] = { turn1: ["m1", "first"], turn1else: ["m1", "altered"], turn2: ["m2", "second"], turnFree: [undefined, "free"], turnDeps: ["m1", "first"] }[w], mine = Object.values(st.attempts).filter((y) => id && y.dispatch.controlMessageId === id), was = mine.at(-1), alike = was && was.dispatch.instructions === text && (w === "turnDeps") === (st.tasks[was.taskId].task.dependsOn.length > 0);
    if (!g) S.assert(!t.ok, "an unknown agent is given a turn"); else if (was && !alike) S.assert(!t.ok, "a message is taken for another"); else if (was) S.assert(t.ok && quiet && t.value.attemptId === was.attemptId, "repeating a message makes new work");
    else if (t.ok) { const y = t.value; S.assert(g.status === "registered", "an agent that is busy is given a turn"); S.assert(y.status === "queued" && y.dispatch.logicalLaneId === "a" && same(y.dispatch.executionContract, clone(contract(profile()))) && !st.attempts[y.attemptId], "a turn is not queued under the agent's contract"); if (w === "turnDeps") S.assert(st.tasks.l, "a turn depends on unknown work"); }
    else S.assert(o !== "active" || g.status !== "registered" || (w === "turnDeps" && st.tasks.l?.task.objectiveId !== "session:s") || pend || Object.values(st.attempts).some((y) => y.dispatch.logicalLaneId === "a" && LIVE.includes(y.status)), "an idle agent is refused a turn");
  } else if (w === "restart" || w === "recover") {
    S.assert(t.ok, "taking up interrupted work fails"); for (const y of Object.values(st.attempts)) { const z = b.attempts[y.attemptId], cut = !y.agentId && y.dispatch.executionKind !== "managed-process" && (y.status === "leased" || y.status === "running"); S.assert(z.status === (cut ? "expired" : y.status), cut ? "interrupted work is still shown as running" : "taking up interrupted work disturbs other work"); }
    for (const y of Object.values(b.tasks)) {
      const was = st.tasks[y.task.taskId], cut = was && newest(st, y.task.taskId), open = was.attemptIds.some((id) => LIVE.includes(b.attempts[id].status)), lost = cut && b.attempts[cut.attemptId].status === "expired"; const fresh = y.attemptIds.filter((id) => !st.attempts[id]), can = lost && !open && b.objectives[y.task.objectiveId].objective.status === "active" && !Object.values(b.approvals).some((p) => p.status === "pending" && (!p.request.taskId || p.request.taskId === y.task.taskId)) && ["running", "ready"].includes(was.task.status), left = was.attemptIds.length < (y.task.riskBudget.maxAttempts ?? 99);
      S.assert(fresh.length === (can && left ? 1 : 0), can && left ? "interrupted work is not taken up again" : "work is taken up that was not interrupted, or twice"); if (fresh.length) S.assert(same(b.attempts[fresh[0]].dispatch, cut.dispatch), "work is taken up with another request"); if (can && !left) S.assert(y.task.status === "failed", "work interrupted on its last attempt is left open");
    }
    S.assert(same(t.value.map((y) => y.attemptId).sort(), Object.values(b.attempts).filter((y) => y.status === "queued" && y.dispatch.executionKind !== "managed-process").map((y) => y.attemptId).sort()), "taking up interrupted work does not return what is queued");
    const m = x.store.log.length, again = S.try(() => x.l.recoverQueuedDispatches()); S.assert(again.ok && x.store.log.length === m && same(again.value, t.value), "taking up interrupted work twice makes more work");
  }
  return t.ok && !(quiet && w !== "later") ? "on" : "end";
};
export const cases = {
  life: { covers: ["prep-same", "prep-text refused", "prep-owner", "managed", "managedElse refused", "turn1", "turn1else refused", "turn2", "turnFree", "turnDeps", "restart", "recover", "start", "a:start", "fail"], run(S) {
    const x = {}; begin(S, x); for (const w of S.pick("stage", STAGES).split(" ").filter(Boolean)) { S.now += 1; words[w](S, x); }
    const N = S.thorough ? 3 : 2; for (let i = 0; i < N; i++) { S.now += 1; if (step(S, S.pick("w" + i, STEPS), x) !== "on") break; }
  } },
};
