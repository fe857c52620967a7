// Goals: what completes one, how its journal is read back, and how the work delegated under it follows it.
import { S } from "symex";
import { applyGoalAction, completeGoalManually } from "@repo/packages/coding-agent/src/core/goals/goal-tool-core.ts";
import { applyGoalEvent, createGoalState, parseGoalState, serializeGoalState } from "@repo/packages/coding-agent/src/core/goals/goal-state.ts";
import { cancelPersistedGoal, clearPersistedGoal, editPersistedGoal, getGoalStateRevision, pausePersistedGoal, replaceGoal, resumePersistedGoal, stopGoalFromSystem } from "@repo/packages/coding-agent/src/core/goals/goal-lifecycle.ts";
import { GoalSessionController } from "@repo/packages/coding-agent/src/core/goals/goal-session-controller.ts";
import { getLatestGoalStateSnapshot } from "@repo/packages/coding-agent/src/core/goals/session-goal-state.ts";
import { DelegationOrchestrationLedger } from "@repo/packages/coding-agent/src/core/orchestration/delegation-ledger.ts";

export const meta = {
  bounds: ["from each of 18 life stages of a goal: every sequence of two (thorough three) steps out of 30 agent, owner and system actions, valid or out of turn, on a goal of at most two requirements and three pieces of evidence", "the real goal journal, session controller and durable task runtime, read back by a fresh reader after every step", "completion: two requirements of any status, each citing any of three pieces of evidence of any kind and standing, with any mix of open steps, lanes, background tasks and pipeline", "the newest journal entry damaged in eight ways"],
  outside: ["goals with more requirements or evidence than the listed", "the continuation loop's scheduling and prompts", "natural-language goal recognition"],
  assumptions: ["the session manager stores custom entries as JSON and finds the latest on the branch (P17)"],
};
const T0 = 1e12, iso = (S) => new Date(T0 + S.now).toISOString(), clone = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));
const same = (a, b) => { if (a === b) return true; if (typeof a !== "object" || typeof b !== "object" || !a || !b || Array.isArray(a) !== Array.isArray(b)) return false; const k = Object.keys(a).filter((x) => a[x] !== undefined), l = Object.keys(b).filter((x) => b[x] !== undefined); return k.length === l.length && k.every((x) => same(a[x], b[x])); };
const memory = (S) => {
  const log = []; let n = 0;
  return { log, append(input, { expectedLastOrdinal, validateBeforeCommit } = {}) {
    const prior = input.idempotencyKey && log.find((e) => e.idempotencyKey === input.idempotencyKey);
    if (prior) { if (prior.type !== input.type || prior.aggregateId !== input.aggregateId || !same(prior.payload, clone(input.payload))) throw new Error("conflicting key"); return clone(prior); }
    if (expectedLastOrdinal !== undefined && expectedLastOrdinal !== log.length) throw new Error("position");
    const e = clone({ schemaVersion: 1, ordinal: log.length + 1, eventId: "e" + ++n, ...input, occurredAt: iso(S) }); validateBeforeCommit?.(clone(e)); log.push(e); return clone(e); },
  readAll: () => clone(log), readAfter: (n) => clone(log.slice(n)), readProjectionSnapshot: () => undefined, compactIfNeeded: () => false };
};
const session = () => { const list = []; const sm = { list, appendCustomEntry(customType, data) { const e = { id: "n" + list.length, parentId: list.length ? "n" + (list.length - 1) : null, type: "custom", customType, data: clone(data) }; list.push(e); return e.id; }, getLatestCustomEntryOnBranch(t, from) { let i = from === undefined ? list.length - 1 : list.findIndex((e) => e.id === from); for (; i >= 0; i--) if (list[i].customType === t) return list[i]; }, getBranch: () => list, getEntryCount: () => list.length, visitEntries: (a) => a }; return sm; };
const again = (sm) => { const n = session(); n.list.push(...sm.list); return n; };
const WANT = { active: "active", paused: "paused", blocked: "paused", usage_limited: "paused", budget_limited: "paused", cancelled: "cancelled", completed: "completed" };
const trusted = (e) => e.kind === "user" || e.verified === true;
const proven = (g, r) => g.evidence.some((e) => r.evidenceIds.includes(e.id) && trusted(e));
const agent = (a, o) => (h, g, S) => { const r = applyGoalAction(g, a, iso(S), o); if (r.ok) h.saveGoalStateSnapshot(r.state, g ? getGoalStateRevision(g) : undefined); return r; };
const sys = (status) => (h, g, S) => { const r = stopGoalFromSystem(g, { status, reason: "x" }, iso(S)); if (r.ok) h.saveGoalStateSnapshot(r.state, getGoalStateRevision(g)); return r; };
const words = {
  start: agent({ action: "start", goalId: "g1", userGoal: " do it " }), other: agent({ action: "start", goalId: "g2", userGoal: "other", tokenBudget: 5000 }),
  req: agent({ action: "add_requirement", requirementId: " r1", text: " text " }), req2: agent({ action: "add_requirement", requirementId: "r2", text: "more", dependencies: ["r1"] }),
  user: agent({ action: "add_evidence", evidenceId: "e1", kind: "user", summary: " seen\n" }), tool: agent({ action: "add_evidence", evidenceId: "e2", kind: "tool", summary: "ran", uri: " call-1 ", verified: true }), claim: agent({ action: "add_evidence", evidenceId: "e1", kind: "finding", summary: "so I say" }),
  sat: agent({ action: "satisfy_requirement", requirementId: "r1", evidenceIds: ["e1"] }), satAll: agent({ action: "satisfy_requirement", requirementId: "r1", evidenceIds: ["e2", "e1"] }), bare: agent({ action: "satisfy_requirement", requirementId: "r1" }), sat2: agent({ action: "satisfy_requirement", requirementId: "r2", evidenceIds: ["e2"] }),
  stuck: agent({ action: "block_requirement", requirementId: "r1", reason: "no" }), unstuck: agent({ action: "reopen_requirement", requirementId: "r1" }), bind: agent({ action: "dispatch_worker", requirementId: "r1", instructions: "go", laneId: "l" }), idle: agent({ action: "no_progress" }), progress: agent({ action: "progress" }), increment: agent({ action: "increment" }), complete: agent({ action: "complete" }), lax: agent({ action: "complete" }, { requireVerifiedEvidenceForCompletion: false }), giveUp: agent({ action: "block_goal", reason: "no" }),
  pause: (h, g, S) => pausePersistedGoal(h, iso(S)), resume: (h, g, S) => resumePersistedGoal(h, iso(S)), edit: (h, g, S) => editPersistedGoal(h, { userGoal: "new text " }, iso(S)), budget: (h, g, S) => editPersistedGoal(h, { userGoal: "do it", tokenBudget: 9000 }, iso(S)), cancel: (h, g, S) => cancelPersistedGoal(h, iso(S)), clear: (h, g, S) => clearPersistedGoal(h, iso(S)),
  manual: (h, g, S) => { const r = completeGoalManually(g, iso(S)); if (r.ok) h.saveGoalStateSnapshot(r.state, getGoalStateRevision(g)); return r; }, override: (h, g, S) => { const r = replaceGoal({ goalId: "g3", userGoal: "instead" }, iso(S)); h.saveGoalStateSnapshot(r.state, g ? getGoalStateRevision(g) : undefined); return r; },
  block: sys("blocked"), usage: sys("usage_limited"), broke: sys("budget_limited"),
};
const AGENT = ["req", "req2", "user", "tool", "claim", "sat", "satAll", "bare", "sat2", "stuck", "unstuck", "bind", "idle", "progress", "increment", "complete", "lax", "giveUp"];
const STAGES = ["", "start", "start req", "start req user", "start req claim sat", "start req user sat", "start req user tool satAll work", "start req req2 user tool sat sat2", "start req user sat complete", "start work", "start work pause", "start work block", "start req work broke", "start work manual", "start work cancel", "start req lax idle idle idle", "start req claim sat lax", "start req user sat complete start req user"];
const work = (S, l, g, id) => l.prepareManaged({ laneId: id, dispatchSequence: 1, instructions: "go", profileId: "p", provider: "x", authorizationId: "a", role: "implementer", riskBudget: { maxAttempts: 1 }, goal: g });
const LIVE = ["queued", "leased", "running", "suspended"];
const world = (S) => {
  const sm = session(), store = memory(S), warned = [], ledger = new DelegationOrchestrationLedger({ agentDir: "/a", sessionId: "s", now: () => T0 + S.now, store });
  const c = new GoalSessionController({ getSessionManager: () => sm, getModelProvider: () => undefined, getLaneRecords: () => [], getTaskRuntimeSnapshot: () => undefined, getBackgroundToolTasks: () => [], synchronizeGoalState: (g) => ledger.synchronizeGoalState(g), scheduleGoalAutoContinueFromIdle() {}, prompt: async () => {}, emitWarning: (m) => warned.push(m) });
  const host = { getGoalStateSnapshot: () => c.getState(), saveGoalStateSnapshot: (s, e) => c.saveState(s, e), clearGoalStateSnapshot: (s, n) => c.clearState(s, n) };
  return { sm, store, warned, ledger, c, host, n: 0 };
};
const doWord = (S, w, x) => { S.now += 1; const g = x.c.getState(); if (w === "work") { const r = S.try(() => work(S, x.ledger, g, "lane" + ++x.n)); return { ok: r.ok, value: r }; } return words[w](x.host, g, S); };
export const cases = {
  life: { covers: ["complete", "lax", "manual", "override", "clear", "cancel", "edit", "work", "increment", "giveUp refused", "resume", "satAll", "start"], run(S) {
    const x = world(S), stage = S.pick("stage", STAGES); for (const w of stage.split(" ").filter(Boolean)) doWord(S, w, x);
    const N = S.thorough ? 3 : 2;
    for (let i = 0; i < N; i++) {
      const w = S.pick("w" + i, [...Object.keys(words), "work"]), g = x.c.getState(), len = x.sm.list.length, ev = x.store.log.length, before = x.ledger.runtime.getSnapshot();
      if (w === "work" && !g) break;
      const t = S.try(() => doWord(S, w, x)); S.assert(t.ok, "an action on the goal fails outright"); const r = t.value, h = x.c.getState(); S.cover(w + (r.ok ? "" : " refused"));
      S.assert(x.warned.length === 0, "delegated work no longer follows the goal");
      const fresh = S.try(() => getLatestGoalStateSnapshot(again(x.sm))); S.assert(fresh.ok && same(fresh.value, h), "the goal read back from the session is another one");
      if (h) { const p = parseGoalState(serializeGoalState(h)); S.assert(same(p, h), "a goal written out is not the goal read in"); }
      if (w === "work") { S.assert(r.ok === (g.status === "active"), "work is delegated under a goal that is not active, or refused under one that is"); S.assert(same(g, h), "delegating work changes the goal"); if (!r.ok) break; continue; }
      if (!r.ok) { S.assert(x.sm.list.length === len && x.store.log.length === ev, "a refused action changes something"); due(S, w, g); break; }
      if (w === "clear") { S.assert(h === undefined, "a cleared goal is still there"); if (g) ended(S, x, g.goalId); break; }
      S.assert(h !== undefined && x.sm.list.length === len + 1 && (h.goalId !== g?.goalId || h.revision === 0 || h.revision === (g.revision ?? 0) + 1), "an action is not journalled once");
      const d = x.ledger.runtime.getSnapshot(), o = d.objectives["goal:" + h.goalId]; S.assert(o && o.objective.status === WANT[h.status], "delegated work is not in the state of its goal");
      S.assert(o.objective.description === h.userGoal.trim() && same(o.objective.acceptanceCriteria.map((y) => y.id), h.requirements.map((y) => y.id)), "delegated work has another objective than its goal");
      for (const q of h.requirements) for (const e of h.evidence) if (q.evidenceIds.includes(e.id) && trusted(e)) S.assert(o.evidence.some((y) => y.criterionId === q.id && y.metadata.sourceGoalEvidenceId === e.id), "proof recorded for the goal is missing from its delegated work");
      if (g && h.goalId !== g.goalId) ended(S, x, g.goalId); if (h.status === "cancelled" || h.status === "completed") ended(S, x, h.goalId);
      if (g && g.goalId === h.goalId && AGENT.includes(w)) { S.assert(g.status === "active", "the agent acts on a goal the owner has stopped"); S.assert(h.userGoal === g.userGoal && h.tokenBudget === g.tokenBudget, "the agent changes what was asked for"); S.assert(h.status === "active" || w === "complete" || w === "lax" || w === "increment" || w === "giveUp", "an action ends the goal"); if (w === "giveUp") S.assert(g.stallTurns >= 3, "a goal is given up too early"); }
      if (h.status === "completed" && (g?.status !== "completed" || g.goalId !== h.goalId)) S.assert(w === "manual" || (h.requirements.every((q) => q.status === "satisfied") && (w === "lax" || h.requirements.every((q) => proven(h, q)))), "a goal is completed unproven");
      if (h.status === "active" && g && g.goalId === h.goalId && g.status !== "active") S.assert(w === "resume" || (w === "edit" && g.status === "completed") || (w === "budget" && ["completed", "budget_limited"].includes(g.status)) || w === "start", "a stopped goal starts again by itself");
      for (const q of h.requirements) if (q.status === "satisfied" && g?.requirements.find((y) => y.id === q.id)?.status !== "satisfied") S.assert(["sat", "satAll", "bare", "sat2", "increment"].includes(w), "a requirement is met by itself");
      const k = Object.keys(before.attempts).filter((id) => d.attempts[id].status !== before.attempts[id].status); S.assert(h.status !== "active" || (g && g.goalId !== h.goalId) || k.length === 0, "an action on an active goal disturbs its work");
    }
  } },
  // when the agent may complete a goal
  gate: { covers: ["completed", "refused", "one short"], run(S) {
    const KINDS = ["user", "tool", "finding"], ev = [0, 1].map((i) => ({ id: "e" + i, kind: S.enum("kind" + i, KINDS), summary: "s", verified: S.pick("ver" + i, [true, undefined]), uri: i ? "task-9" : undefined, createdAt: "c" }));
    const reqs = ["r1", "r2"].map((id) => ({ id, text: "t", status: S.enum("st" + id, ["satisfied", "open", "blocked"]), evidenceIds: S.pick("ids" + id, [[], ["e0"], ["e1"], ["e0", "e1"]]), createdAt: "c", updatedAt: "c" }));
    const g = { ...createGoalState({ goalId: "g", userGoal: "u", now: "c" }), requirements: reqs, evidence: ev };
    const strict = S.flag("strict"), extra = S.pick("extra", ["none", "step", "lane", "owned", "cited", "pipeline", "other"]), task = S.pick("task", ["running", "completed", "failed"]);
    const o = { ...(strict ? {} : { requireVerifiedEvidenceForCompletion: false }), openTaskSteps: extra === "step" ? [{ id: "1", content: "x" }] : [], activeGoalLaneIds: extra === "lane" ? ["l"] : [], backgroundToolTasks: extra === "owned" ? [{ taskId: "t1", goalId: "g", status: task }] : extra === "cited" ? [{ taskId: "task-9", status: task }] : extra === "other" ? [{ taskId: "t2", goalId: "h", status: "running" }] : [], ...(extra === "pipeline" ? { activePipeline: { runId: "p", pipelineName: "p", status: task === "running" ? "active" : "completed" } } : {}) };
    const r = S.try(() => applyGoalAction(g, { action: "complete" }, "n", o)); S.assert(r.ok, "completing fails outright");
    const met = reqs.every((q) => q.status === "satisfied"), shown = reqs.every((q) => ev.some((e) => q.evidenceIds.includes(e.id) && trusted(e)));
    const busy = extra === "step" || extra === "lane" || (extra === "owned" && task === "running") || (extra === "cited" && ev[1].kind === "tool" && task !== "completed") || (extra === "pipeline" && task === "running");
    const may = met && !busy && (shown || !strict); S.cover(may ? "completed" : "refused"); if (met && !busy && !shown) S.cover("one short");
    S.assert(r.value.ok === may, may ? "a goal whose every requirement is proven cannot be completed" : "a goal is completed while work is open or proof is missing"); if (may) S.assert(r.value.state.status === "completed" && g.status === "active", "completing does not complete");
  } },
  // a journal whose newest entry is damaged never brings an older goal back
  journal: { covers: ["closed", "kept"], run(S) {
    const x = world(S), stage = S.pick("stage", STAGES.filter((s) => s !== "")); for (const w of stage.split(" ")) doWord(S, w, x); doWord(S, S.pick("w", ["pause", "cancel", "manual", "progress", "clear", "override"]), x);
    const last = x.sm.list.at(-1), good = clone(last.data), h = S.pick("harm", ["none", "null", "version", "kind", "goal", "base", "events", "type"]);
    if (h === "null") last.data = null; else if (h === "version") last.data.version = 3; else if (h === "kind") last.data.kind = "else"; else if (h === "goal") { if (good.kind === "events") last.data.goalId = "zz"; } else if (h === "base") { if (good.kind === "events") last.data.baseRevision += 1; } else if (h === "events") { if (good.kind === "events") last.data.events = []; } else if (h === "type") { if (good.kind === "events") last.data.events[0].type = "else"; }
    const changed = !same(good, last.data), y = S.try(() => getLatestGoalStateSnapshot(again(x.sm))); S.assert(y.ok, "a damaged journal fails outright");
    if (changed) { S.cover("closed"); S.assert(y.value === undefined, "a damaged journal brings an older goal back"); } else { S.cover("kept"); S.assert(same(y.value, x.c.getState()), "a whole journal is read as another goal"); }
  } },
  // an action based on an outdated view of the goal is refused
  stale: { covers: ["refused"], run(S) {
    const x = world(S); for (const w of S.pick("stage", ["start", "start req", "start pause"]).split(" ")) doWord(S, w, x); const old = x.c.getState(), first = S.pick("first", ["idle", "pause", "resume", "edit", "override", "manual", "cancel"]); const r = doWord(S, first, x); if (!r.ok) return;
    const now = x.c.getState(), len = x.sm.list.length, mine = applyGoalEvent(old, { type: "resume_goal", now: iso(S) }), t = S.try(() => x.c.saveState(mine, getGoalStateRevision(old))); S.cover("refused"); S.assert(!t.ok && x.sm.list.length === len && same(x.c.getState(), now), "a change based on an outdated goal overwrites a newer one");
    const u = S.try(() => x.c.clearState(old, iso(S))); S.assert(!u.ok && x.sm.list.length === len, "a goal that has changed since is cleared");
  } },
};
const ended = (S, x, id) => { const d = x.ledger.runtime.getSnapshot(), o = d.objectives["goal:" + id]; S.assert(o && ["cancelled", "completed"].includes(o.objective.status), "a goal that is over still has an open objective"); S.assert(Object.values(d.attempts).every((y) => d.tasks[y.taskId].task.objectiveId !== "goal:" + id || !LIVE.includes(y.status)), "work goes on for a goal that is over"); };
// actions that must be accepted where they are in turn
const due = (S, w, g) => { const st = g?.status, r1 = g?.requirements.find((q) => q.id === "r1"), has = (id) => g.evidence.some((e) => e.id === id); S.assert(!(w === "pause" ? st === "active" : w === "resume" ? ["paused", "blocked", "usage_limited"].includes(st) : w === "cancel" ? ["active", "paused", "blocked", "usage_limited"].includes(st) : w === "manual" ? g && st !== "completed" && st !== "cancelled" : w === "edit" ? g && st !== "cancelled" : w === "start" || w === "other" ? !g || ["completed", "cancelled", "budget_limited"].includes(st) : w === "override" ? true : st !== "active" ? false : w === "req" ? !r1 : w === "user" || w === "claim" ? !has("e1") : w === "tool" ? !has("e2") : w === "bare" || w === "stuck" ? r1 : w === "sat" ? r1 && has("e1") : w === "unstuck" ? r1?.status === "blocked" : w === "complete" ? g.requirements.every((q) => q.status === "satisfied" && proven(g, q)) : w === "lax" ? g.requirements.every((q) => q.status === "satisfied") : w === "progress" || w === "idle" || w === "block" || w === "usage" || w === "broke"), "an action that is in turn is refused"); };
