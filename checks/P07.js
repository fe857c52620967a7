// Worker mutation journal: a model-emitted write or edit is executed at most once across crashes and retries.
import { S } from "symex";
import fs from "node:fs";
import { crash } from "./lib/fault.js";
import { WorkerActionJournal } from "@repo/packages/coding-agent/src/core/delegation/worker-action-journal.ts";

export const meta = {
  bounds: ["up to 4 (thorough 5) begin / outcome steps by attempts with symbolic identity and fencing token (1..3) over two targets and three payloads", "a crash at every operation of any one begin or receipt, then a later attempt", "journals damaged by truncation or by symbolic field values"],
  outside: ["the mutation itself, which the permit's holder performs", "digest collisions of SHA-256"],
  assumptions: ["one journal object per attempt over one agent directory", "proper-lockfile is replaced by a model of its lock directory"],
};
const J = (attempt, fence, task = "t") => new WorkerActionJournal({ agentDir: "/agent", parentSessionId: "s", taskId: task, attemptId: attempt, fencingToken: fence });
const ACTS = [
  { op: "write", path: "f", content: "A" }, { op: "write", path: "f", content: "B" }, { op: "edit", path: "f", old: "A", new: "B" },
];
const TG = ["/w/f", "/w/g"];
export const cases = {
  once: { covers: ["granted", "inspected", "succeeded", "failed"], run(S) {
    fs.mkdirSync("/agent", { recursive: true });
    const n = S.thorough ? 4 : 3;
    const state = new Map();
    for (let i = 0; i < n; i++) {
      const [attempt, fence, idx] = S.pick("who" + i, [["a1", 1, 0], ["a1", 2, 1], ["a2", 1, 1]].slice(0, i === 0 ? 1 : 3));
      const [act, tg] = S.pick("act" + i, [[0, 0], [2, 0], [0, 1], [1, 0]].slice(0, i === 0 ? 2 : i === 1 ? 4 : 3));
      const j = J(attempt, fence), key = act + ":" + tg;
      const r = j.begin({ index: idx, action: ACTS[act], targetPath: i === n - 1 ? "/w/x/.." + TG[tg].slice(2) : TG[tg] });
      if (!state.has(key)) {
        S.assert(r.kind === "execute", "a mutation that was never begun got no permit");
        S.cover("granted");
        const how = S.pick("out" + i, ["lost", "ok", "bad"]);
        if (how === "ok") { j.recordSucceeded(r); S.cover("succeeded"); } else if (how === "bad") { j.recordFailed(r, "why"); S.cover("failed"); }
        state.set(key, how);
        if (how !== "lost") S.assert(!S.try(() => j.recordFailed(r, "again")).ok && !S.try(() => j.recordSucceeded(r)).ok, "a terminal receipt was overwritten");
        S.assert(j.inspect(r.actionId).state === { lost: "unknown", ok: "succeeded", bad: "failed" }[how], "the journal does not report the recorded outcome");
      } else {
        S.cover("inspected");
        S.assert(r.kind === "inspection_required", "a mutation got a second execution permit");
        S.assert(r.state === { lost: "unknown", ok: "succeeded", bad: "failed" }[state.get(key)], "a repeated mutation reports another outcome than the recorded one");
      }
    }
  } },
  crash: { covers: ["died", "completed"], run(S) {
    fs.mkdirSync("/agent", { recursive: true });
    const pre = S.flag("pre");
    if (pre) { const j = J("a0", 1); j.recordSucceeded(j.begin({ index: 0, action: ACTS[1], targetPath: TG[1] })); }
    const j = J("a1", 1), in1 = { index: 1, action: ACTS[0], targetPath: TG[0] };
    const step = S.pick("step", ["begin", "success", "failure"]);
    let permit = step === "begin" ? undefined : j.begin(in1);
    const c = crash(S, 9, { cuts: true });
    const r = S.try(() => (step === "begin" ? (permit = j.begin(in1)) : step === "success" ? j.recordSucceeded(permit) : j.recordFailed(permit, "why")));
    const died = c.end();
    S.cover(died ? "died" : "completed");
    // the executor may only have run the mutation when it was handed a permit
    const mayHaveRun = permit !== undefined;
    const next = J(S.pick("att", ["a1", "a2"]), S.upto("fence", 2, 1)).begin({ ...in1, index: S.upto("idx", 1) });
    if (mayHaveRun) S.assert(next.kind === "inspection_required", "after a crash a mutation that may have run got another permit");
    if (mayHaveRun && !died) S.assert(next.state === { begin: "unknown", success: "succeeded", failure: "failed" }[step], "a completed receipt is not what the journal reports");
    if (next.kind === "inspection_required") { const ok = { begin: ["unknown"], success: ["unknown", "succeeded"], failure: ["unknown", "failed"] }[step]; S.assert(ok.includes(next.state), "a crash made the journal report an outcome that never happened"); }
    if (pre) S.assert(J("a9", 1).begin({ index: 0, action: ACTS[1], targetPath: TG[1] }).state === "succeeded", "a crash damaged an earlier receipt");
    if (!died) S.assert(r.ok, "a journal step without a fault failed");
  } },
  receipts: { covers: ["accepted", "refused"], run(S) {
    fs.mkdirSync("/agent", { recursive: true });
    const f1 = S.int("f1", 1, 3), f2 = S.int("f2", 1, 3);
    const owner = J("a1", f1), p = owner.begin({ index: 0, action: ACTS[0], targetPath: TG[0] });
    const att = S.str("att", { len: 2, of: "a12" });
    const forged = S.pick("forged", [{}, { actionDigest: "x" }, { normalizedTarget: TG[1] }, { actionId: "x" }]);
    const other = J(att, f2);
    const r = S.try(() => other.recordSucceeded({ ...p, ...forged }));
    const legit = att === "a1" && f1 === f2 && Object.keys(forged).length === 0;
    S.cover(r.ok ? "accepted" : "refused");
    S.assert(r.ok === legit, "a receipt from another attempt, fence or action was accepted, or the owner's refused");
    S.assert(owner.inspect(p.actionId).state === (legit ? "succeeded" : "unknown"), "a refused receipt changed the journal");
  } },
  damaged: { covers: ["refused"], run(S) {
    fs.mkdirSync("/agent", { recursive: true });
    const j = J("a1", 1), p = j.begin({ index: 0, action: ACTS[0], targetPath: TG[0] });
    const text = fs.readFileSync(j.filePath, "utf8"), kind = S.pick("damage", ["cut", "schema", "scope", "status", "dup", "many", "field"]);
    if (kind === "cut") fs.writeFileSync(j.filePath, text.slice(0, S.pick("at", [0, 1, 30, text.length - 2])));
    else {
      const d = JSON.parse(text), e = d.entries[0];
      if (kind === "schema") d.schemaVersion = S.int("v", 2, 99);
      if (kind === "scope") d.scope.taskId = S.str("task", { len: 1, of: "uvw" });
      if (kind === "status") e.status = S.str("status", { len: 2, of: "abt" });
      if (kind === "dup") d.entries.push({ ...e });
      if (kind === "many") for (let i = 0; i < 64; i++) d.entries.push({ ...e, actionId: "x" + i });
      if (kind === "field") e[S.pick("f", ["fencingToken", "index", "actionDigest", "normalizedTarget", "attemptId"])] = S.pick("v", [-1, null, ""]);
      fs.writeFileSync(j.filePath, JSON.stringify(d));
    }
    S.cover("refused");
    const other = J("a2", 2);
    S.assert(!S.try(() => other.begin({ index: 0, action: ACTS[0], targetPath: TG[0] })).ok, "a permit was issued over a damaged journal");
    S.assert(!S.try(() => j.recordSucceeded(p)).ok, "a receipt was written over a damaged journal");
  } },
  secrecy: { covers: ["checked"], run(S) {
    fs.mkdirSync("/agent", { recursive: true });
    const j = J("a1", 1);
    const act = S.flag("edit") ? { op: "edit", path: "f", old: "SECRET-old", new: "SECRET-new" } : { op: "write", path: "f", content: "SECRET-content" };
    const p = j.begin({ index: S.upto("idx", 2), action: act, targetPath: TG[0] });
    if (S.flag("done")) j.recordSucceeded(p);
    S.cover("checked");
    S.assert(!fs.readFileSync(j.filePath, "utf8").includes("SECRET"), "a mutation's payload is in the journal file");
    S.assert((fs.statSync(j.filePath).mode & 0o077) === 0, "the journal is readable by others");
  } },
};
