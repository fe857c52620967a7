// The durable task runtime: objectives, tasks, attempts, leases, agents, approvals and verification, after any step, reload or change of clock.
import { S } from "symex";
import { DurableTaskRuntime } from "@repo/packages/coding-agent/src/core/orchestration/task-runtime.ts";
import { projectionFromSnapshot } from "@repo/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts";
import { OrchestrationEventStore } from "@repo/packages/coding-agent/src/core/orchestration/event-store.ts";

export const meta = {
  bounds: ["one objective with one required criterion, a task of two attempts, a task that depends on it and its verifier task, one agent and its child", "from each of 16 life stages: every sequence of two (thorough three, and from 20 further stages) steps, and one step from each of the 20 others, out of all commands, valid, stale, repeated or out of turn, with time standing still, passing every lease and retry delay, or set back", "after each step: reload from the event log, reload from a snapshot, and a second runtime on the same log", "the same from every stage with the real event store and a snapshot after every event (one step)"],
  outside: ["the limits on the number and size of records", "identifiers named like properties of every object", "evaluation of grants by the policy compiler (P03) and tool calls under them (P02)"],
  assumptions: ["commands of one runtime run one at a time, as they are synchronous; several runtimes share the log through P28's store"],
};
const T0 = 1e12;
const at = (S) => new Date(T0 + S.now).toISOString(), clone = (x) => JSON.parse(JSON.stringify(x));
const same = (a, b) => { if (a === b) return true; if (typeof a !== "object" || typeof b !== "object" || !a || !b || Array.isArray(a) !== Array.isArray(b)) return false; const k = Object.keys(a).filter((x) => a[x] !== undefined), l = Object.keys(b).filter((x) => b[x] !== undefined); return k.length === l.length && k.every((x) => same(a[x], b[x])); };
const memory = (S) => { // the event log as P28 shows it to be: ordered, consecutive, repeats answered with the first event
  const log = []; let n = 0;
  return { log, append(input, { expectedLastOrdinal, validateBeforeCommit } = {}) {
    const prior = input.idempotencyKey && log.find((e) => e.idempotencyKey === input.idempotencyKey);
    if (prior) { if (prior.type !== input.type || prior.aggregateId !== input.aggregateId || !same(prior.payload, clone(input.payload))) throw new Error("conflicting key"); return clone(prior); }
    if (expectedLastOrdinal !== undefined && expectedLastOrdinal !== log.length) throw new Error("position");
    const e = clone({ schemaVersion: 1, ordinal: log.length + 1, eventId: "e" + ++n, ...input, occurredAt: at(S) }); validateBeforeCommit?.(clone(e)); log.push(e); return clone(e); },
  readAll: () => clone(log), readAfter: (n) => clone(log.slice(n)), readProjectionSnapshot: () => undefined, compactIfNeeded: () => false };
};
const make = (S, store) => { let ids = 0; return new DurableTaskRuntime({ store, now: () => T0 + S.now, createId: () => "" + ++ids + (S.tag ?? "") }); };
const ROLE = { t: "implementer", u: "implementer", v: "verifier" };
const dispatch = (k) => ({ taskId: k, profileId: "p", instructions: "do", resourcePointerIds: [] });
const context = (id) => ({ provider: "pi", sessionId: "s-" + id, cwd: "/w", resourceProfileNames: [], contextPointers: [] });
const objective = (criteria) => ({ objectiveId: "o", title: "T", description: "D", acceptanceCriteria: criteria });
const C1 = [{ id: "c1", description: "c", required: true }];
const ev = (S, o = {}) => ({ evidenceId: "ev1", criterionId: "c1", kind: "test", summary: "s", artifactIds: [], trusted: true, createdAt: at(S), ...o });
const review = (S, verdict) => ({ evidenceId: "rv", kind: "review", summary: "s", artifactIds: [], trusted: true, createdAt: at(S), metadata: { subjectTaskId: "t", verdict } });
const last = (st, k) => st.attempts[st.tasks[k]?.attemptIds.at(-1)];
const result = (S, a, status, evidence) => ({ schemaVersion: 1, resultId: "r-" + a.attemptId, objectiveId: "o", taskId: a.taskId, attemptId: a.attemptId, leaseId: a.lease?.leaseId ?? "none", fencingToken: a.lease?.fencingToken ?? 1, status, reasonCode: "x", summary: "s", artifacts: [], evidence, errors: [], usage: { wallClockMs: 1, toolCalls: 0 }, createdAt: at(S) });
const grant = (S, a) => ({ schemaVersion: 1, grantId: "g-" + a.attemptId, objectiveId: "o", taskId: a.taskId, attemptId: a.attemptId, subjectId: "s", role: ROLE[a.taskId], capabilities: [], allowedTools: [], resources: [], readPaths: [], writePaths: [], deniedPaths: [], budget: {}, policyVersion: "1", decisionTrace: [], issuedAt: at(S) });
const approval = (S, id, more) => ({ schemaVersion: 1, approvalId: id, objectiveId: "o", reasonCode: "x", summary: "s", requestedCapabilities: ["filesystem.read"], reversible: true, createdAt: at(S), ...more });
const NEVER = { attemptId: "attempt-none", taskId: "t" };
// every command, aimed at the newest attempt of task k
const steps = {
  queue: (rt, k) => rt.queueAttempt(k, dispatch(k)), grant: (rt, k, a, S) => rt.bindAttemptGrant(a.attemptId, grant(S, a)), lease: (rt, k, a) => rt.leaseAttempt(a.attemptId, "w", 100), leaseA: (rt, k, a) => rt.leaseAttempt(a.attemptId, "w", 100, "a"),
  start: (rt, k, a) => rt.startAttempt(a.attemptId, a.lease?.leaseId ?? "none", a.lease?.fencingToken ?? 1), renew: (rt, k, a) => rt.renewAttemptLease(a.attemptId, a.lease?.leaseId ?? "none", a.lease?.fencingToken ?? 1, 500), check: (rt, k, a) => rt.checkpointAttempt({ attemptId: a.attemptId, leaseId: a.lease?.leaseId ?? "none", fencingToken: a.lease?.fencingToken ?? 1, summary: "s" }),
  done: (rt, k, a, S) => rt.finishAttempt(result(S, a, "completed", k === "v" ? [review(S, "accepted")] : [ev(S)])), deny: (rt, k, a, S) => rt.finishAttempt(result(S, a, "completed", k === "v" ? [review(S, "rejected")] : [ev(S, { kind: "external" })])), bare: (rt, k, a, S) => rt.finishAttempt(result(S, a, "completed", k === "v" ? [] : [ev(S, { trusted: false })])), part: (rt, k, a, S) => rt.finishAttempt(result(S, a, "partial", [])), lost: (rt, k, a, S) => rt.finishAttempt(result(S, a, "failed", [])), stale: (rt, k, a, S) => rt.finishAttempt({ ...result(S, a, "completed", [ev(S)]), fencingToken: (a.lease?.fencingToken ?? 1) + 1 }),
  cancel: (rt, k, a) => rt.cancelAttempt(a.attemptId, "why"), cancelLong: (rt, k, a) => rt.cancelAttempt(a.attemptId, "w".repeat(600)), suspend: (rt, k, a) => rt.suspendBoundAttempt({ attemptId: a.attemptId, ownerId: "w", leaseId: a.lease?.leaseId ?? "none", fencingToken: a.lease?.fencingToken ?? 1, reasonCode: "y" }), retry: (rt, k, a, S) => rt.suspendBoundAttempt({ attemptId: a.attemptId, ownerId: "w", leaseId: a.lease?.leaseId ?? "none", fencingToken: a.lease?.fencingToken ?? 1, reasonCode: "y", retry: { retriesUsed: (a.retry?.retriesUsed ?? 0) + 1, notBefore: new Date(T0 + S.now + 700).toISOString() } }),
  ask: (rt, k, a) => rt.requestAgentResume("a", a.attemptId), resume: (rt, k, a) => rt.resumeAttempt(a.attemptId, "a", 100, "w"), approve: (rt, k, a, S) => rt.requestApproval(approval(S, "ap-" + a.attemptId, { taskId: k, attemptId: a.attemptId })), yes: (rt, k, a) => rt.resolveApproval("ap-" + a.attemptId, "approved", "ok"), no: (rt, k, a) => rt.resolveApproval("ap-" + a.attemptId, "rejected", "no"), fail: (rt, k) => rt.failTask(k, "f"), note: (rt, k, a) => rt.enqueueNotification({ notificationId: "n", objectiveId: "o", attemptId: a.attemptId, message: "m" }), noteLong: (rt) => rt.enqueueNotification({ notificationId: "nl", objectiveId: "o", message: "m".repeat(5000) }),
  accept: (rt, k, a) => rt.finishVerification({ taskId: "t", verifierTaskId: "v", verifierAttemptId: a.attemptId, verdict: "accepted", reasonCode: "x" }), reject: (rt, k, a) => rt.finishVerification({ taskId: "t", verifierTaskId: "v", verifierAttemptId: a.attemptId, verdict: "rejected", reasonCode: "x" }), unsure: (rt, k, a) => rt.finishVerification({ taskId: "t", verifierTaskId: "v", verifierAttemptId: a.attemptId, verdict: "inconclusive", reasonCode: "x" }),
};
const plain = { // commands that aim at no attempt
  recover: (rt) => rt.recoverInterruptedUnboundAttempts(), expire: (rt) => rt.expireLeases(), pause: (rt) => rt.pauseObjective("o"), go: (rt) => rt.resumeObjective("o"), stop: (rt) => rt.cancelObjective("o"), reopen: (rt) => rt.reopenObjective("o"), finish: (rt) => rt.completeObjective("o"), owner: (rt) => rt.completeObjectiveFromOwner("o", false), override: (rt) => rt.completeObjectiveFromOwner("o", true),
  record: (rt, S) => rt.recordObjectiveEvidence("o", ev(S, { evidenceId: "own", createdAt: new Date(T0).toISOString() })), drop: (rt) => rt.ensureObjective(objective([])), prepare: (rt) => rt.prepareTaskAttempt({ taskId: "x", objectiveId: "o", title: "T", description: "D", role: "implementer" }, dispatch("x")), wide: (rt, S) => rt.requestApproval(approval(S, "ap-o", {})), wideYes: (rt) => rt.resolveApproval("ap-o", "approved", "ok"), retire: (rt) => rt.retireAgent("a"), child: (rt) => rt.registerAgent({ agentId: "b", parentAgentId: "a", role: "implementer", resumeContext: context("b") }), retireB: (rt) => rt.retireAgent("b"), told: (rt) => rt.markNotificationDelivered("n"),
};
// life stages: words are commands, task:command aims at another task than t, 'criterion' makes t prove c1
const STAGES = ["", "queue", "queue grant", "queue grant lease", "queue grant lease start", "queue grant leaseA", "queue grant leaseA start", "queue grant leaseA start check", "queue grant leaseA start suspend", "queue grant leaseA start retry", "queue grant leaseA start suspend ask", "queue grant leaseA start suspend ask resume", "queue grant leaseA start part", "queue grant lease start done", "queue grant lease start lost", "queue grant lease start part fail", "queue grant lease start part queue", "queue cancel", "queue grant lease recover", "queue approve", "queue approve yes", "queue approve no", "queue grant lease start pause", "u:queue u:grant", "u:queue u:grant queue grant lease start", "queue grant lease start done u:queue u:grant", "queue grant lease start stop", "queue grant lease start part v:queue v:grant v:lease v:start", "queue grant lease start part v:queue v:grant v:lease v:start v:done", "queue grant lease start part v:queue v:grant v:lease v:start v:bare", "queue grant lease start part v:queue v:grant v:lease v:start v:deny", "queue grant lease start part v:queue v:grant v:lease v:start v:done queue grant lease start part", "queue grant lease start part fail queue grant lease start part", "record", "wide", "child"];
const DEEP = new Set(["", "queue grant lease start", "queue grant leaseA start", "queue grant leaseA start retry", "queue grant leaseA start suspend ask", "queue grant leaseA start part", "queue grant lease start lost", "queue approve", "queue grant lease start pause", "u:queue u:grant queue grant lease start", "queue grant lease start part v:queue v:grant v:lease v:start", "queue grant lease start part v:queue v:grant v:lease v:start v:done", "queue grant lease start part fail queue grant lease start part", "wide", "child", "queue grant lease start stop"]);
const LIVE = ["leased", "running", "suspended"], END = ["completed", "partial", "blocked", "failed", "cancelled", "expired"];
const run = (rt, word, S) => { const [k, w] = word.includes(":") ? word.split(":") : ["t", word]; return plain[w] ? plain[w](rt, S) : steps[w](rt, k, last(rt.getSnapshot(), k) ?? { ...NEVER, taskId: k }, S); };
const begin = (S, rt, stage) => {
  const proves = stage.endsWith("record") || stage.includes("done") ? ["c1"] : [];
  rt.registerAgent({ agentId: "a", role: "implementer", resumeContext: context("a") }); rt.createObjective(objective(C1));
  rt.createTask({ taskId: "t", objectiveId: "o", title: "T", description: "D", role: "implementer", acceptanceCriterionIds: proves, riskBudget: { maxAttempts: 3 } }); rt.createTask({ taskId: "u", objectiveId: "o", title: "T", description: "D", role: "implementer", dependsOn: ["t"] }); rt.createTask({ taskId: "v", objectiveId: "o", title: "T", description: "D", role: "verifier", verificationOfTaskId: "t" });
  for (const w of stage.split(" ").filter(Boolean)) { S.now += 1; run(rt, w, S); }
};
// what must be true of every state
const sound = (S, st) => {
  const o = st.objectives.o.objective, open = o.status === "active" || o.status === "paused";
  for (const t of Object.values(st.tasks)) {
    const live = t.attemptIds.map((x) => st.attempts[x]).filter((x) => !END.includes(x.status)); S.assert(live.length <= 1, "a task has two live attempts"); const running = live.some((x) => LIVE.includes(x.status));
    S.assert(running === (t.task.status === "running"), "a task is shown running without a running attempt, or not shown running with one"); if (!open) S.assert(live.length === 0 && END.includes(t.task.status), "a closed objective has open work");
    if (t.task.status === "completed" && t.verification === undefined) { const r = last(st, t.task.taskId).result; S.assert(r?.status === "completed" && t.task.acceptanceCriterionIds.every((c) => r.evidence.some((e) => e.trusted && e.criterionId === c)), "a task is completed without a completed result and the proof it requires"); }
    S.assert(t.attemptIds.length <= (t.task.riskBudget.maxAttempts ?? 99), "a task has more attempts than its budget");
  }
  for (const g of Object.values(st.agents)) { const held = Object.values(st.attempts).filter((x) => x.agentId === g.agentId && LIVE.includes(x.status)); S.assert(held.length <= 1, "an agent has two live attempts"); S.assert(held.length === 0 ? ["registered", "retired"].includes(g.status) && g.activeAttemptId === undefined : g.activeAttemptId === held[0].attemptId && (held[0].status === "suspended" ? ["suspended", "resuming"] : ["active"]).includes(g.status), "an agent's state does not fit its attempt"); }
  for (const x of Object.values(st.attempts)) if (LIVE.includes(x.status)) S.assert(x.lease && x.grantId, "a live attempt has no lease or grant");
};
// what may change in one step
const moved = (S, a, b, w) => {
  for (const x of Object.values(a.attempts)) {
    const y = b.attempts[x.attemptId]; S.assert(y !== undefined, "an attempt is lost"); if (END.includes(x.status)) { S.assert(same(x, y), "an attempt that had ended changes"); continue; }
    if (x.lease) S.assert(y.lease && y.lease.fencingToken >= x.lease.fencingToken && (y.lease.fencingToken > x.lease.fencingToken || y.lease.leaseId === x.lease.leaseId), "a fencing token is reused or goes back");
    const o = b.objectives.o.objective.status, t = b.tasks[x.taskId].task;
    if (y.status === "leased" && x.status !== "leased") { const ap = Object.values(b.approvals).filter((p) => p.request.attemptId === x.attemptId); S.assert(o === "active", "work is leased under an objective that is not active"); S.assert(y.grantId && ap.every((p) => p.status === "approved"), "work is leased without a grant or approval"); S.assert(t.dependsOn.every((d) => ["completed", "blocked"].includes(b.tasks[d].task.status)), "work is leased before what it depends on"); if (x.retry) S.assert(Date.parse(x.retry.notBefore) <= T0 + S.now, "a retry starts before its delay"); if (y.agentId) S.assert(b.agents[y.agentId].role === t.role, "an agent is given work of another role"); S.assert(Date.parse(y.lease.expiresAt) > T0 + S.now, "a lease is over when it begins"); }
    if ((y.status === "running" && x.status !== "running") || y.result || y.checkpointIds.length > x.checkpointIds.length || (y.lease && x.lease && y.lease.leaseId === x.lease.leaseId && y.lease.expiresAt !== x.lease.expiresAt)) S.assert(x.lease && Date.parse(x.lease.expiresAt) > T0 + S.now, "a lease that is over is used");
    if (y.status === "running" && x.status === "leased") S.assert(o === "active", "work starts under an objective that is not active"); if (y.status === "expired") S.assert(!x.agentId, "an attempt of an agent is given up instead of suspended");
    if (y.retry && y.retry.retriesUsed !== x.retry?.retriesUsed) S.assert(y.retry.retriesUsed === (x.retry?.retriesUsed ?? 0) + 1, "retries are miscounted");
  }
  for (const id of Object.keys(b.attempts)) if (!a.attempts[id]) { const y = b.attempts[id], pend = Object.values(b.approvals).filter((p) => p.status === "pending" && p.request.attemptId === undefined && (p.request.taskId === undefined || p.request.taskId === y.taskId)); S.assert(b.objectives.o.objective.status === "active" && pend.length === 0 && y.status === "queued", "an attempt is queued under a closed objective or a pending approval"); if (a.tasks[y.taskId]) S.assert(["pending", "ready", "blocked", "failed"].includes(a.tasks[y.taskId].task.status), "an attempt is queued for a task that is done or running"); }
  for (const t of Object.values(a.tasks)) { const n = b.tasks[t.task.taskId]; S.assert(n !== undefined, "a task is lost"); if (t.task.status === "completed") S.assert(n.task.status === "completed", "a completed task is reopened"); if (n.task.status === "completed" && t.task.status === "blocked") { const q = b.attempts[n.verification?.verifierAttemptId]; S.assert(n.verification?.verdict === "accepted" && q?.status === "completed" && q.result.evidence.some((e) => e.trusted && e.kind === "review" && e.metadata?.subjectTaskId === "t" && e.metadata.verdict === "accepted"), "a task is accepted without a matching trusted review"); } }
  const x = a.objectives.o.objective.status, y = b.objectives.o.objective.status; if (["completed", "cancelled"].includes(x) && w !== "reopen") S.assert(x === y, "a closed objective is reopened");
  for (const p of Object.values(a.approvals)) { const q = b.approvals[p.request.approvalId]; S.assert(q && same(p.request, q.request) && (p.status === "pending" || same(p, q)), "a decided approval changes"); }
  for (const g of Object.values(a.agents)) if (g.status === "retired") S.assert(same(g, b.agents[g.agentId]), "a retired agent changes");
};
// what an accepted command must have done
const did = (S, w, k, id, b, before, value) => {
  const t = b.tasks[k], a = b.attempts[id], o = b.objectives.o.objective.status;
  const want = { queue: () => last(b, k)?.status === "queued" && last(b, k).attemptId !== id, grant: () => a.grantId === "g-" + id, lease: () => a.status === "leased" && !a.agentId, leaseA: () => a.status === "leased" && a.agentId === "a", start: () => a.status === "running", renew: () => Date.parse(a.lease.expiresAt) >= T0 + S.now + 500, check: () => a.checkpointIds.length > 0 && b.checkpoints[a.checkpointIds.at(-1)], done: () => a.status === "completed" && t.task.status === "completed", deny: () => a.status === "completed", bare: () => a.status === "completed", part: () => a.status === "partial" && t.task.status === "blocked", lost: () => a.status === "failed" && t.task.status === "failed", stale: () => false, cancel: () => END.includes(a.status), cancelLong: () => END.includes(a.status), suspend: () => a.status === "suspended", retry: () => a.status === "suspended" && a.retry, ask: () => b.agents.a.status === "resuming", resume: () => a.status === "leased", approve: () => b.approvals["ap-" + id], yes: () => b.approvals["ap-" + id].status === "approved", no: () => b.approvals["ap-" + id].status === "rejected" && END.includes(a.status), fail: () => ["completed", "failed", "cancelled"].includes(t.task.status), note: () => b.notifications.n, noteLong: () => b.notifications.nl,
    accept: () => b.tasks.t.verification?.verdict === "accepted" && b.tasks.t.task.status === "completed", reject: () => b.tasks.t.verification?.verdict === "rejected" && b.tasks.t.task.status === "blocked", unsure: () => b.tasks.t.verification?.verdict === "inconclusive",
    recover: () => Object.values(b.attempts).every((x) => x.agentId || !["leased", "running"].includes(x.status)), expire: () => Object.values(b.attempts).every((x) => !["leased", "running"].includes(x.status) || Date.parse(x.lease.expiresAt) > T0 + S.now), pause: () => o === "paused", go: () => o === "active", stop: () => o === "cancelled", reopen: () => o === "active", finish: () => o === "completed" && (before.objectives.o.objective.status === "completed" || (Object.values(b.tasks).every((x) => x.task.status === "completed") && proven(b, true))), owner: () => o === "completed" && (before.objectives.o.objective.status === "completed" || proven(b, false)), override: () => o === "completed", record: () => b.objectives.o.evidence.some((e) => e.evidenceId === "own"), drop: () => b.objectives.o.objective.acceptanceCriteria.length === 0 && Object.values(b.tasks).every((x) => x.task.acceptanceCriterionIds.length === 0), prepare: () => b.tasks.x && last(b, "x").status === "queued", wide: () => b.approvals["ap-o"], wideYes: () => b.approvals["ap-o"].status === "approved", retire: () => b.agents.a.status === "retired" && (!b.agents.b || b.agents.b.status === "retired"), child: () => b.agents.b.depth === 1 && b.agents.b.rootAgentId === "a" && before.agents.a.status !== "retired", retireB: () => b.agents.b.status === "retired", told: () => b.notifications.n.status === "delivered" };
  S.assert(want[w](), "a command that reports success did not do what it says");
};
const proven = (st, tasks) => st.objectives.o.objective.acceptanceCriteria.every((c) => !c.required || [...st.objectives.o.evidence, ...(tasks ? Object.values(st.attempts).flatMap((x) => x.result?.evidence ?? []) : [])].some((e) => e.trusted && e.criterionId === c.id));
// commands that must be accepted where they are plainly in turn
const due = (w, k, a, st, now) => { const o = st.objectives.o.objective.status, free = !Object.values(st.approvals).some((p) => p.status === "pending"); const held = a.lease && Date.parse(a.lease.expiresAt) > now; return w === "stop" || w === "override" ? o === "active" || o === "paused" : w === "pause" ? o === "active" : w === "go" ? o === "paused" : w === "cancel" ? a.status !== undefined : w === "check" ? a.status === "running" && held : w === "done" ? a.status === "running" && held : w === "part" ? a.status === "running" && held : w === "suspend" ? a.agentId === "a" && a.lease.ownerId === "w" && ["leased", "running"].includes(a.status) : w === "queue" ? o === "active" && free && ["pending", "ready", "blocked", "failed"].includes(st.tasks[k].task.status) && st.tasks[k].attemptIds.length < 3 && (!a.status || END.includes(a.status)) : w === "yes" || w === "no" ? st.approvals["ap-" + a.attemptId]?.status === "pending" : w === "expire" || w === "recover" || w === "record" ? w !== "record" || st.objectives.o.objective.acceptanceCriteria.length > 0 || st.objectives.o.evidence.length > 0 : false; };
const words = [...Object.keys(steps), ...Object.keys(plain)];
const step = (S, n, w, rt, store, fresh) => {
  const before = rt.getSnapshot(), aims = ["t", "u", "v"].filter((k) => before.tasks[k].attemptIds.length);
  const k = plain[w] ? "t" : ["accept", "reject", "unsure"].includes(w) ? "v" : w === "queue" ? S.pick("k" + n, ["t", "u", "v"]) : aims.length > 1 ? S.pick("k" + n, aims) : (aims[0] ?? "t"), a = last(before, k) ?? { ...NEVER, taskId: k };
  const log = store.log?.length, r = S.try(() => plain[w] ? plain[w](rt, S) : steps[w](rt, k, a, S)); S.cover(w + (r.ok ? "" : " refused"));
  const got = S.try(() => rt.getSnapshot()); S.assert(got.ok, "after a step the state cannot be read"); const st = got.value;
  if (!r.ok) { S.assert(r.error?.name === "DurableTaskRuntimeError", "a refusal is not a reasoned one"); S.assert(same(before, st) && (log === undefined || store.log.length === log), "a refused command changes something"); S.assert(!due(w, k, a, before, T0 + S.now), "a command that is in turn is refused"); return false; }
  moved(S, before, st, w); sound(S, st); did(S, w, k, a.attemptId, st, before, r.value); fresh(st); return !same({ ...before, lastOrdinal: 0 }, { ...st, lastOrdinal: 0 });
};
const TIMED = new Set(["lease", "leaseA", "start", "renew", "check", "done", "lost", "suspend", "retry", "ask", "resume", "expire", "cancel", "told", "yes", "retire"]);
const memory2 = (s) => ({ ...s });
export const cases = {
  life: { covers: ["accept", "reject", "unsure", "ask", "resume", "retire", "finish", "owner", "fail", "drop", "prepare", "yes", "no", "told", "retry"], run(S) {
    const store = memory(S), rt = make(S, store), stage = S.pick("stage", STAGES); begin(S, rt, stage); S.tag = "z"; const peer = make(S, store); S.tag = "";
    const fresh = (st) => {
      const r = S.try(() => make(S, memory2(store)).getSnapshot()); S.assert(r.ok && same(r.value, st), "replaying the log gives another state"); const q = S.try(() => peer.getSnapshot()); S.assert(q.ok && same(q.value, st), "a second runtime sees another state");
      const p = S.try(() => projectionFromSnapshot(clone(st), st.lastOrdinal)); S.assert(p.ok, "a state that was reached cannot be loaded from its snapshot"); S.assert(same(p.value, st), "a snapshot loads as another state");
    };
    const N = S.thorough ? 3 : DEEP.has(stage) ? 2 : 1; for (let n = 0; n < N; n++) { const w = S.pick("w" + n, words); S.now += n === N - 1 && TIMED.has(w) ? S.pick("d", [1, 1000, -50]) : 1; if (!step(S, n, w, rt, store, fresh)) break; }
  } },
  // the same with the real event store, a snapshot after every event and every store opened anew
  stored: { covers: ["accept", "queue", "stop", "expire"], run(S) {
    const open = () => new OrchestrationEventStore({ agentDir: "/agent", sessionId: "s", now: () => at(S), createEventId: (() => { let n = 0; return () => "e" + S.now + "-" + ++n; })(), maxTailEvents: 1 });
    const store = open(), rt = make(S, store), stage = S.pick("stage", STAGES); begin(S, rt, stage); const w = S.pick("w0", words); S.now += 1;
    step(S, 0, w, rt, store, (st) => { const r = S.try(() => make(S, open()).getSnapshot()); S.assert(r.ok, "a session's tasks cannot be opened again"); S.assert(same(r.value, st), "a session's tasks are opened in another state"); });
  } },
};
