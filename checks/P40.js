// The session's checklist: every change against a reference list, read back from the session after each one.
import { S } from "symex";
import { getLatestTaskStepsStateSnapshot, appendTaskStepsStateSnapshot, TASK_STEPS_STATE_CUSTOM_TYPE } from "@repo/packages/coding-agent/src/core/tasks/session-task-state.ts";
import { formatTaskStepsContext, resolveTaskStepSelector, updateTaskStep, createTaskStepsState } from "@repo/packages/coding-agent/src/core/tasks/task-state.ts";
import { parseTaskCommand } from "@repo/packages/coding-agent/src/core/tasks/task-command.ts";
import { checkTaskStepsContract, INITIAL_TASK_CONTRACT_STREAK } from "@repo/packages/coding-agent/src/core/tasks/task-contract-monitor.ts";
import { projectOpenTaskSteps, resolveTaskStepRequirementIds } from "@repo/packages/coding-agent/src/core/tasks/task-projection.ts";

export const meta = {
  bounds: ["every sequence of 2 (thorough 3) of 34 calls of the task_steps tool from 5 lists, read back from the session after each", "selectors: 5 lists against 20 selectors", "links: every pairing of run, stage and clearing, given or kept, with the run active, another or none", "limits: texts, notes, evidence, owners and steps at and past each limit", "snapshots: up to 4 entries whole or damaged in 12 ways", "commands: 29 texts", "turns: every sequence of 6 (thorough 8) turns of 4 kinds"],
  outside: ["the drawing of the checklist"],
  assumptions: ["the session stores custom entries as JSON and finds the latest on the branch (P17)"],
};
const clone = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));
const session = () => { const list = []; return { list, appendCustomEntry(customType, data) { list.push({ id: "n" + list.length, parentId: list.length ? "n" + (list.length - 1) : null, type: "custom", customType, data: clone(data) }); return list.at(-1).id; }, getLatestCustomEntryOnBranch(t, from) { let i = from === undefined ? list.length - 1 : list.findIndex((e) => e.id === from); for (; i >= 0; i--) if (list[i].customType === t) return list[i]; } }; };
const load = async (S, scope) => {
  S.stub("packages/coding-agent/src/core/tools/orchestration-panel.ts", { emptyOrchestrationCall() {}, OrchestrationPanelComponent: class {}, taskStepPanelRow() {} });
  const { createTaskStepsToolDefinition } = await import("@repo/packages/coding-agent/src/core/tools/task-steps.ts"), sm = session(); let saves = 0, tick = 0;
  const tool = createTaskStepsToolDefinition({ getTaskStepsState: () => getLatestTaskStepsStateSnapshot(sm), saveTaskStepsState: (s) => { saves++; appendTaskStepsStateSnapshot(sm, s); }, now: () => "T" + tick++, getActivePipelineScope: () => scope?.value });
  return { sm, state: () => getLatestTaskStepsStateSnapshot(sm), saves: () => saves, do: async (input) => tool.execute("c", input) };
};
const low = (t) => t.trim().toLowerCase(), open = (s) => s.status !== "completed" && s.status !== "cancelled";
const find = (list, sel) => { const n = low(sel); if (!n) return; if (n === "current" || n === "active") return list.find((s) => s.status === "in_progress"); const one = (l) => (l.length === 1 ? l[0] : undefined), id = list.find((s) => s.id === n); if (id) return id; const pre = list.filter((s) => s.id.startsWith(n)); if (pre.length) return one(pre); const same = list.filter((s) => low(s.content) === n); if (same.length) return one(same); return one(list.filter((s) => low(s.content).includes(n))); };
const fresh = (id, i) => ({ id, content: i.content.trim(), status: i.status ?? "pending", priority: i.priority, owner: i.owner?.trim() || undefined, requirementIds: [...new Set((i.requirementIds ?? []).map((x) => x.trim()))], notes: i.note?.trim() ? [i.note.trim()] : [], evidence: [...new Set((i.evidence ?? []).map((x) => x.trim()))], activeForm: i.activeForm?.trim() || undefined });
// the reference: a list, a counter, an archive; each call returns false if it is to be refused, "same" if nothing changes
const only = (m, s) => { for (const x of m.steps) if (x !== s && x.status === "in_progress") x.status = "pending"; };
const STEP = {
  set(m, c) { const old = [...m.steps], steps = c.steps.map((i) => { const k = old.findIndex((s) => low(s.content) === low(i.content)), was = k < 0 ? undefined : old.splice(k, 1)[0]; if (!was) return fresh("step-" + m.next++, i); const f = fresh(was.id, i); return { ...was, content: f.content, ...(i.status ? { status: i.status } : {}), ...(i.priority ? { priority: i.priority } : {}), ...(i.owner !== undefined ? { owner: f.owner } : {}), ...(i.activeForm !== undefined ? { activeForm: f.activeForm } : {}), ...(i.requirementIds ? { requirementIds: f.requirementIds } : {}), ...(i.note !== undefined ? { notes: f.notes } : {}), ...(i.evidence ? { evidence: f.evidence } : {}) }; }); m.steps = steps; const asked = c.steps.map((i, k) => (i.status === "in_progress" ? steps[k] : undefined)).filter(Boolean), act = asked.at(-1) ?? steps.filter((s) => s.status === "in_progress").at(-1); if (act) only(m, act); },
  add(m, c) { if (m.steps.some((s) => open(s) && low(s.content) === low(c.content))) return "same"; const s = fresh("step-" + m.next++, c); m.steps.push(s); if (s.status === "in_progress") only(m, s); },
  update(m, c) { const s = c.id && find(m.steps, c.id); if (!s) return false; if (c.status) s.status = c.status; if (c.content) s.content = c.content.trim(); if (c.priority) s.priority = c.priority; if (c.owner !== undefined) s.owner = c.owner.trim() || undefined; if (c.activeForm !== undefined) s.activeForm = c.activeForm.trim() || undefined; if (c.requirementIds) s.requirementIds = [...new Set(c.requirementIds)]; if (c.note?.trim() && !s.notes.includes(c.note.trim())) s.notes.push(c.note.trim()); for (const e of c.evidence ?? []) if (!s.evidence.includes(e.trim())) s.evidence.push(e.trim()); if (s.status === "in_progress") only(m, s); },
  clear(m) { m.steps = []; m.done = 0; m.dropped = 0; }, compact(m) { m.done += m.steps.filter((s) => s.status === "completed").length; m.dropped += m.steps.filter((s) => s.status === "cancelled").length; m.steps = m.steps.filter(open); },
  advance(m) { const s = m.steps.find((x) => x.status === "in_progress") ?? m.steps.find((x) => x.status === "pending"); if (!s) return "same"; s.status = "completed"; const n = m.steps.find((x) => x.status === "pending"); if (n) n.status = "in_progress"; },
  list(m, c) { if (c.clearCompleted) STEP.compact(m); else return "same"; },
};
STEP.intake = STEP.set;
const KEYS = ["id", "content", "status", "priority", "owner", "activeForm", "requirementIds", "notes", "evidence"];
const flat = (s) => KEYS.map((k) => JSON.stringify(s[k])).join("|");
const STARTS = {
  none: [], two: [{ content: "Alpha" }, { content: "Beta" }], busy: [{ content: "Alpha", status: "in_progress", note: "n", evidence: ["e1"], requirementIds: ["r1"], owner: "me", priority: "high", activeForm: "Doing" }, { content: "Beta" }, { content: "alpha", status: "completed" }],
  over: [{ content: "Alpha", status: "completed", evidence: ["e"] }, { content: "Beta", status: "cancelled" }], stuck: [{ content: "Alpha", status: "blocked" }, { content: "alphabet", status: "completed" }, { content: "Beta", status: "in_progress" }],
};
const CALLS = {
  set0: { action: "set", steps: [] }, setAB: { action: "set", steps: [{ content: "alpha" }, { content: " Beta " }] }, setNew: { action: "set", steps: [{ content: "Gamma", status: "in_progress" }, { content: "Alpha" }] }, setBusyFirst: { action: "intake", steps: [{ content: "beta", status: "in_progress" }, { content: "alpha" }, { content: "ALPHA" }] }, setTwoBusy: { action: "set", steps: [{ content: "Alpha", status: "in_progress" }, { content: "Beta", status: "in_progress" }] }, setFields: { action: "set", steps: [{ content: "alpha", owner: " ", note: " new ", evidence: ["e2", " e2 "], requirementIds: [], priority: "low", activeForm: "" }] }, setDone: { action: "intake", steps: [{ content: "alpha", status: "completed" }] }, setBad: { action: "set", steps: [{ content: "Gamma" }, { content: "  " }] }, setNone: { action: "set" },
  addA: { action: "add", content: " ALPHA " }, addBusy: { action: "add", content: "Delta", status: "in_progress", evidence: ["x"] }, addDone: { action: "add", content: "beta", status: "completed" }, addEmpty: { action: "add", content: " " },
  start1: { action: "update", id: "step-1", status: "in_progress" }, start2: { action: "update", id: "STEP-2", status: "in_progress" }, doneA: { action: "update", id: "alpha", status: "completed", evidence: ["e1", "e3"] }, doneCur: { action: "update", id: " current ", status: "completed" }, blockCur: { action: "update", id: "active", status: "blocked", note: "why" }, cancelB: { action: "update", id: "bet", status: "cancelled" }, pend1: { action: "update", id: "step-1", status: "pending", note: "n" }, rename: { action: "update", id: "step-1", content: " Beta ", owner: "you", requirementIds: ["r2"] }, prefix: { action: "update", id: "step", status: "completed" }, ghost: { action: "update", id: "omega", status: "completed" }, noId: { action: "update", status: "completed" }, badText: { action: "update", id: "step-1", content: "  ", status: "completed" }, late: { action: "update", id: "step-3", priority: "low", activeForm: " Now " },
  clear: { action: "clear" }, compact: { action: "compact" }, advance: { action: "advance" }, list: { action: "list" }, listAll: { action: "list", showCompleted: true }, listClear: { action: "list", clearCompleted: true }, addGamma: { action: "add", content: "gamma" }, reopen: { action: "update", id: "step-2", status: "pending" },
};
const refused = (name) => name === "setBad" || name === "setNone" || name === "addEmpty" || name === "noId";
export const cases = {
  history: { covers: ["changed", "refused", "no change", "demoted", "compacted", "advanced"], async run(S) {
    const t = await load(S), start = STARTS[S.pick("start", Object.keys(STARTS))], m = { steps: [], next: 1, done: 0, dropped: 0 }; if (start.length) { STEP.set(m, { steps: start }); await t.do({ action: "set", steps: start }); } const n = S.thorough ? 3 : 2; let revision = t.state()?.revision ?? 0;
    for (let i = 0; i < n; i++) {
      const name = S.pick("call" + i, Object.keys(CALLS)), c = CALLS[name], before = clone(m), stored = JSON.stringify(t.state()), saves = t.saves(), back = clone(m); let out = refused(name) ? false : STEP[c.action](m, c); if (out !== false && name === "badText") out = false; if (out === false) Object.assign(m, back); const r = await t.do(clone(c)), now = t.state(), busy = m.steps.filter((s) => s.status === "in_progress");
      S.assert(busy.length <= 1, "reference"); S.assert(r.details.applied === (out !== false) && !!r.isError === (out === false), "a call is accepted or refused wrongly"); S.assert((now?.steps ?? []).map(flat).join("\n") === m.steps.map(flat).join("\n"), "the checklist read back is not what was asked for"); if (out !== "same" || c.action !== "advance") S.assert(t.saves() === saves + (out === undefined ? 1 : 0), "a call that changes nothing is stored, or one that changes something is not");
      if (out !== undefined) { S.assert(c.action === "advance" || JSON.stringify(now) === stored, "a refused call changes the checklist"); S.cover(out === false ? "refused" : "no change"); } else { S.assert(now.revision > revision && now.nextStepNumber === m.next && now.archive.completed === m.done && now.archive.cancelled === m.dropped, "what was done and archived is miscounted, or a number is given twice"); revision = now.revision; S.cover("changed"); if (m.done + m.dropped) S.cover("compacted"); if (c.action === "advance" && before.steps.some((s) => s.status === "pending")) S.cover("advanced"); }
      const was = before.steps.find((s) => s.status === "in_progress"), then = was && m.steps.find((s) => s.id === was.id), asked = then && (c.action === "update" ? find(before.steps, c.id ?? "")?.id === was.id : (c.action === "set" || c.action === "intake") && c.steps?.[m.steps.indexOf(then)]?.status !== undefined); const demoted = then?.status === "pending" && !asked && out === undefined && c.action !== "advance"; if (out === undefined && c.action !== "add") { S.assert(JSON.stringify(r.details.demotedStepIds ?? []) === JSON.stringify(demoted ? [was.id] : []), "a step put back is not told"); if (demoted) S.cover("demoted"); }
      if (out !== false) { const shown = r.content[0].text, vis = m.steps.filter((s) => c.showCompleted || open(s)); S.assert(vis.every((s) => shown.includes(s.id)) && r.details.stepCount === m.steps.length && r.details.openStepCount === m.steps.filter(open).length && r.details.verificationNudgeNeeded === m.steps.some((s) => s.status === "completed" && !s.evidence.length), "what is shown is not the checklist"); if (out === "same" && c.action === "add") S.assert(r.details.duplicateOfStepId === m.steps.find((s) => open(s) && low(s.content) === low(c.content)).id, "the step already there is not named"); }
      if (now) { const text = formatTaskStepsContext(now), o = m.steps.filter(open); S.assert(o.length ? text && o.every((s) => text.includes(s.activeForm || s.content)) && (busy[0] ? text.includes("continue in_progress step: " + (busy[0].activeForm || busy[0].content)) : text.includes("Start first")) : text === undefined, "the context does not tell what is open or what to continue"); S.assert(projectOpenTaskSteps(now).map((s) => s.id + s.status).join() === o.map((s) => s.id + s.status).join(), "the open steps are not those open"); }
    }
  } },
  selectors: { covers: ["one", "none"], run(S) {
    const LISTS = [["step-1 Alpha", "step-2 alpha beta", "step-10 gamma"], ["step-10 one", "step-11 two"], ["step-3 Same", "step-4 same", "step-5 other same"], ["step-1 step-2", "step-2 current"], ["step-7 Fix the login", "step-12 fix"]], words = ["step-1", "STEP-1", "step-10", "step-", "step-2", "step-", "s", "alpha", "ALPHA", "bet", "gamma", "same", "other", "fix", "login", "current", "active", " step-12 ", "", "2"];
    const list = S.pick("list", LISTS).map((x, i) => ({ id: x.split(" ")[0], content: x.slice(x.indexOf(" ") + 1), status: "pending", notes: [], evidence: [], createdAt: "T", updatedAt: "T" })), busy = S.upto("busy", list.length); if (busy < list.length) list[busy].status = "in_progress"; const sel = S.pick("selector", words), want = find(list, sel), r = S.try(() => resolveTaskStepSelector(list, sel));
    S.assert(r.ok === !!want && (!want || r.value.id === want.id), "a selector selects a step it does not name alone"); S.cover(want ? "one" : "none"); const st = { ...createTaskStepsState("T"), steps: list, nextStepNumber: 20 }, before = JSON.stringify(st), u = S.try(() => updateTaskStep(st, sel, { status: "completed" }, "U")); S.assert(JSON.stringify(st) === before, "a state is changed in place"); S.assert(u.ok === !!want, "a change goes to a step not named"); if (want) u.value.steps.forEach((s, i) => S.assert(s.id === list[i].id && (s.id === want.id ? s.status === "completed" : JSON.stringify(s) === JSON.stringify({ ...list[i], requirementIds: [] }) || same(s, list[i])), "another step is changed"));
  } },
  links: { covers: ["linked", "kept", "cleared", "refused"], async run(S) {
    const scope = { value: { runId: "run-1", stageIds: ["01_a", "02_b"] } }, t = await load(S, scope), had = S.flag("had"), A = ["update", "set", "add"], action = S.pick("action", A), run = S.pick("run", [undefined, "run-1", "run-2", " "]), stage = S.pick("stage", [undefined, "01_a", "02_b", "03_c", " run"]), clearing = S.pick("clearing", [undefined, true, false]);
    await t.do({ action: "add", content: "Alpha", ...(had ? { pipelineRunId: "run-1", pipelineStageId: "01_a" } : {}) }); S.assert(!had || t.state().steps[0].pipelineRunId === "run-1", "a link is lost"); const active = S.pick("active", ["same", "none", "other"]); scope.value = active === "none" ? undefined : active === "other" ? { runId: "run-2", stageIds: ["02_b"] } : scope.value;
    const fields = { ...(run !== undefined ? { pipelineRunId: run } : {}), ...(stage !== undefined ? { pipelineStageId: stage } : {}), ...(clearing !== undefined ? { clearPipelineLink: clearing } : {}) }, r = await t.do(action === "update" ? { action, id: "step-1", ...fields } : action === "set" ? { action, steps: [{ content: "Alpha", ...fields }] } : { action, content: "Beta", ...fields }), s = t.state().steps[action === "add" ? 1 : 0] ?? {}, link = (x) => (x.pipelineRunId ?? "") + "/" + (x.pipelineStageId ?? ""), old = action !== "add" && had ? "run-1/01_a" : "/";
    if (clearing) { const ok = run === undefined && stage === undefined; S.assert(r.details.applied === ok, "a link is cleared and given at once"); if (ok) { S.assert(link(s) === "/", "a link is not cleared"); S.cover("cleared"); } else S.cover("refused"); return; }
    if (run === undefined && stage === undefined) { S.assert(r.details.applied && link(s) === old, "a link not spoken of is changed"); S.cover("kept"); return; }
    const given = (x, d) => (x === undefined ? d : x.trim()), inherits = action === "update", wr = given(run, inherits && had ? "run-1" : ""), ws = given(stage, inherits && had ? "01_a" : ""), ok = r.details.applied; S.assert(/^\/$|^.+\/.+$/.test(link(s)), "half a link is kept"); if (link(s) !== "/" && link(s) !== old) S.assert(ok && scope.value && s.pipelineRunId === scope.value.runId && scope.value.stageIds.includes(s.pipelineStageId), "a step is linked to a run or stage that is not active");
    if (!wr !== !ws) S.assert(!ok, "half a link is accepted"); else if (wr && ws) { const good = scope.value?.runId === wr && scope.value.stageIds.includes(ws); S.assert(ok === good && (!good || link(s) === wr + "/" + ws), "a link is accepted or refused wrongly"); } else if (ok) S.assert(link(s) === "/" || link(s) === old, "a link is made up"); if (!ok) S.assert(link(t.state().steps[0]) === (had ? "run-1/01_a" : "/") && t.state().steps.length === 1, "a refused link changes the checklist"); S.cover(ok ? "linked" : "refused");
  } },
  limits: { covers: ["within", "past"], async run(S) {
    const t = await load(S), LIM = { content: 2000, activeForm: 2000, owner: 200, note: 4000, evidence: 2000, requirement: 200, evidenceCount: 32, notes: 32, steps: 100, requirements: 32, merged: 32, addFull: 100 }, what = S.pick("what", Object.keys(LIM)), past = S.flag("past"), spaces = S.flag("spaces"), n = LIM[what] + (past ? 1 : 0), text = (spaces ? "  " : "") + "x".repeat(n) + (spaces ? " " : ""), many = (p) => Array.from({ length: n }, (_, i) => p + i), first = { action: "add", content: "first" }; await t.do(first); const before = JSON.stringify(t.state()); let r;
    if (what === "content") r = await t.do({ action: S.pick("how", ["add", "update"]), id: "step-1", content: text }); else if (what === "steps") r = await t.do({ action: "set", steps: many("s").map((content) => ({ content })) }); else if (what === "addFull") { await t.do({ action: "set", steps: many("s").slice(0, past ? 100 : 99).map((content) => ({ content })) }); const dup = await t.do({ action: "add", content: "S5" }); S.assert(dup.details.duplicateOfStepId, "a step already there is refused"); r = await t.do({ action: "add", content: "last" }); S.assert(t.state().steps.length === 100, "a full list grows or a free place is not used"); }
    else if (what === "notes") { for (let i = 0; i < n; i++) r = await t.do({ action: "update", id: "step-1", note: "n" + i }); } else if (what === "merged") { await t.do({ action: "update", id: "step-1", evidence: many("e").slice(0, 31) }); r = await t.do({ action: "update", id: "step-1", evidence: ["e1", ...many("e").slice(31)] }); } else { const f = what === "evidence" ? { evidence: [text] } : what === "requirement" ? { requirementIds: [text] } : what === "evidenceCount" ? { evidence: many("e") } : what === "requirements" ? { requirementIds: many("r") } : { [what]: text }; r = await t.do(S.flag("set") ? { action: "set", steps: [{ content: "first", ...f }] } : { action: "update", id: "step-1", ...f }); }
    S.assert(r.details.applied === !past, "a limit is not kept, or refuses what is within it"); if (past && what !== "notes" && what !== "merged" && what !== "addFull") S.assert(JSON.stringify(t.state()) === before, "a refused call changes the checklist"); S.assert(t.state().steps.length > 0 && (past || r.details.state && JSON.stringify(t.state()) === JSON.stringify(clone(r.details.state))), "a checklist that is stored cannot be read back"); S.cover(past ? "past" : "within"); if (what === "notes") S.assert(t.state().steps[0].notes.length === 32 && t.state().steps[0].notes[31] === "n31", "a note is lost");
  } },
  snapshots: { covers: ["latest", "older", "nothing"], run(S) {
    const sm = session(), n = S.upto("entries", 4), step = (id, status, extra) => ({ id, content: "c " + id, status, notes: [], evidence: [], createdAt: "T", updatedAt: "T", ...extra }), good = (k) => ({ version: 1, revision: k, nextStepNumber: 5, steps: [step("step-1", "in_progress"), step("step-2", "completed", { pipelineRunId: "r", pipelineStageId: "s" })], archive: { completed: 0, cancelled: 0 }, createdAt: "T", updatedAt: "T" });
    const BAD = { none: null, version: { version: 2 }, revision: { revision: -1 }, next: { nextStepNumber: 0 }, twoBusy: { steps: [step("step-1", "in_progress"), step("step-2", "in_progress")] }, sameId: { steps: [step("step-1", "pending"), step("step-1", "pending")] }, id: { steps: [step("step-0", "pending")] }, status: { steps: [step("step-1", "done")] }, half: { steps: [step("step-1", "pending", { pipelineRunId: "r" })] }, blank: { steps: [step("step-1", "pending", { content: "" })] }, archive: { archive: { completed: -1, cancelled: 0 } }, notes: { steps: [step("step-1", "pending", { notes: undefined })] } }; let want;
    for (let i = 0; i < n; i++) { const how = i < n - 2 ? S.pick("entry" + i, ["good", "half"]) : S.pick("entry" + i, ["good", "other", ...Object.keys(BAD)]); if (how === "other") { sm.appendCustomEntry("goal_state", { version: 1, state: good(90 + i) }); continue; } if (how === "good") { want = good(i); appendTaskStepsStateSnapshot(sm, want); } else sm.appendCustomEntry(TASK_STEPS_STATE_CUSTOM_TYPE, { version: 1, ...(BAD[how] ? { state: { ...good(50 + i), ...BAD[how] } } : {}) }); if (how !== "good") S.cover("older"); }
    const got = getLatestTaskStepsStateSnapshot(sm); S.assert(got?.revision === want?.revision && same(got, want), "the latest whole checklist is not the one in force"); S.cover(want ? "latest" : "nothing"); if (got) { got.steps[0].notes.push("x"); S.assert(!getLatestTaskStepsStateSnapshot(sm).steps[0].notes.length, "a checklist given out is the one stored"); }
  } },
  commands: { covers: ["understood", "refused"], run(S) {
    const up = (selector, status, extra) => ({ type: "update", selector, status, ...extra }), T = [["/task", { type: "list", includeTerminal: false }], ["/task list", { type: "list", includeTerminal: false }], ["/steps all", { type: "list", includeTerminal: true }], ["/task list --all", { type: "list", includeTerminal: true }], ["/task clear", { type: "clear" }], ["/task compact", { type: "compact" }], ["/task clear the table", { type: "add", content: "clear the table" }], ["/task compactor", { type: "add", content: "compactor" }], ["/tasklist", { type: "add", content: "/tasklist" }], ["/task add  Write tests ", { type: "add", content: "Write tests" }], ["/task add", null], ["/task start step-1", up("step-1", "in_progress")], ["/task start", null], ["/task done", null], ["/task done step-2", up("step-2", "completed")], ["/task done step-2 all green", up("step-2", "completed", { evidence: "all green" })], ["/task done fix the login -- see log -- here", up("fix the login", "completed", { evidence: "see log -- here" })], ["/task done current ok", up("current", "completed", { evidence: "ok" })], ["/task done fix the login", up("fix the login", "completed")], ["/task block step-1", null], ["/task block step-1 -- waits", up("step-1", "blocked", { note: "waits" })], ["/task block active waits long", up("active", "blocked", { note: "waits long" })], ["/task block  -- waits", null], ["/task cancel beta -- gone", up("beta", "cancelled", { note: "gone" })], ["/task cancel step-0 x", up("step-0 x", "cancelled")], ["/task reopen step-3", up("step-3", "pending")], ["/task run it", { type: "retired_execution", operation: "run" }], ["/task runner", { type: "add", content: "runner" }], ["/task doneness", { type: "add", content: "doneness" }]];
    const [text, want] = S.pick("text", T), r = parseTaskCommand(text); S.assert(r.ok === !!want, "a command is refused or accepted wrongly"); if (want) { S.assert(same(r.command, want), "a command is read as another one"); S.cover("understood"); } else { S.assert(r.error.length > 0, "a refusal gives no reason"); S.cover("refused"); }
  } },
  turns: { covers: ["told", "quiet"], run(S) {
    const n = S.thorough ? 8 : 6, step = (status, i) => ({ id: "step-" + (i + 1), content: "c", status, notes: [], evidence: [], createdAt: "T", updatedAt: "T" }), KINDS = { none: undefined, busy: ["pending", "in_progress"], idle: ["completed", "pending"], over: ["completed", "cancelled"] }; let streak = INITIAL_TASK_CONTRACT_STREAK, bad = 0;
    for (let i = 0; i < n; i++) { const kind = S.pick("turn" + i, Object.keys(KINDS)), r = checkTaskStepsContract(KINDS[kind] && { ...createTaskStepsState("T"), steps: KINDS[kind].map(step) }, streak); streak = r.streak; bad = kind === "idle" ? bad + 1 : 0; S.assert(!!r.note === (bad === 3), "the note of a neglected list is not given once, at the third turn"); S.cover(r.note ? "told" : "quiet"); }
  } },
  requirements: { covers: ["explicit", "by name", "unknown"], run(S) {
    const REQ = [{ id: "r1", text: "log in with a key" }, { id: "r10", text: "short" }, { id: "a.b", text: "other thing here" }], ids = S.pick("ids", [[], ["r1"], ["r1", "r9", "r1"], ["zz"]]), content = S.pick("content", ["do r1 now", "do r10", "R10!", "xr1", "a.b", "axb", "Log in with a KEY today", "short", "none"]), r = resolveTaskStepRequirementIds({ content, requirementIds: ids }, REQ);
    const named = { "do r1 now": ["r1"], "do r10": ["r10"], "R10!": ["r10"], "a.b": ["a.b"], "Log in with a KEY today": ["r1"] }[content] ?? []; const known = [...new Set(ids)].filter((i) => REQ.some((q) => q.id === i)), un = [...new Set(ids)].filter((i) => !REQ.some((q) => q.id === i)); S.assert(same(r, { matchedIds: ids.length ? known : named, unknownIds: un }), "a step is counted for a requirement it does not name"); S.cover(un.length ? "unknown" : ids.length ? "explicit" : "by name");
  } },
};
function same(a, b) { if (a === b) return true; if (typeof a !== "object" || typeof b !== "object" || !a || !b || Array.isArray(a) !== Array.isArray(b)) return false; const drop = (o) => Object.keys(o).filter((k) => o[k] !== undefined && !(k === "requirementIds" && o[k].length === 0)), k = drop(a), l = drop(b); return k.length === l.length && k.every((x) => same(a[x], b[x])); }
