// Worker results: what a worker wrote or claims is applied and accepted only inside its grant.
import { S } from "symex";
import fs from "node:fs";
import path from "node:path";
import { validateWorkerClaim, normalizeWorkerClaimForHost, requiresParentReview, reviewManagedLaneChangedFiles } from "@repo/packages/coding-agent/src/core/delegation/worker-claim.ts";
import { applyWorkerActions, parseWorkerActions } from "@repo/packages/coding-agent/src/core/delegation/worker-actions.ts";
import { WorkerActionJournal } from "@repo/packages/coding-agent/src/core/delegation/worker-action-journal.ts";
import { fault } from "./lib/fault.js";

export const meta = {
  bounds: ["claims with every status, a usage report or none, blockers or none, and one changed file whose path is any string of up to 3 (thorough 5) characters over '/.psd' beside an admissible one", "write and edit actions over a tree with a link leaving the workspace, payloads of up to 3 characters, and one file-system fault at any operation"],
  outside: ["the execution grant's own decision (P03, P04)", "links replaced between the check and the access"],
  assumptions: ["the grant is stood in for by one that admits what is lexically in the workspace"],
};
const REQ = (e) => ({ id: "r", instructions: "", route: {}, envelope: { id: "e", capabilities: ["filesystem.write"], ...e } });
const inside = (raw) => { const a = path.resolve("/p", raw); return (a === "/p/s" || a.startsWith("/p/s/")) && !(a === "/p/s/d" || a.startsWith("/p/s/d/")); };
export const cases = {
  claim: { covers: ["allow", "ask-user", "block"], run(S) {
    for (const d of ["/p/s/d", "/o"]) fs.mkdirSync(d, { recursive: true });
    const status = S.pick("status", ["completed", "partial", "failed", "cancelled", "bogus"]);
    const raw = S.flag("changed") ? S.str("file", { min: 1, max: S.thorough ? 5 : 3, of: S.thorough ? "/.psd" : "/.sd" }) : undefined;
    const two = raw !== undefined && S.flag("beside");
    const files = raw === undefined ? [] : two ? ["s/ok", "s/" + raw] : [raw];
    const claim = { requestId: S.pick("rid", status === "completed" ? ["r", "q"] : ["r"]), status, summary: "x", changedFiles: files, ...(S.flag("usage") ? { usageReportId: "u" } : {}), ...(S.flag("blocked") ? { blockers: ["b"] } : {}) };
    const scope = S.pick("scope", [{ allowedPaths: ["s"], deniedPaths: ["s/d"] }, {}, { allowedPaths: [] }]);
    const g = validateWorkerClaim({ request: REQ(scope), claim, cwd: "/p" });
    S.cover(g.outcome);
    const ok = files.every((f) => inside(f)) && (files.length === 0 || (scope.allowedPaths ?? []).length > 0);
    if (g.outcome === "allow") S.assert(status === "completed" && files.length === 0 && claim.usageReportId && !claim.blockers && claim.requestId === "r", "a claim that needs review, or is not a completed one for this request, was accepted outright");
    if (files.length > 0 && !ok && status === "completed" && !claim.blockers) S.assert(g.outcome === "block", "changed files outside the grant were not blocked");
    if (status === "completed" && claim.requestId === "r" && claim.usageReportId && !claim.blockers) S.assert(g.outcome === (files.length === 0 ? "allow" : ok ? "ask-user" : "block"), "a well-formed completed claim got another verdict than its files deserve");
    const n = S.try(() => normalizeWorkerClaimForHost(claim));
    S.assert(n.ok === (status !== "bogus"), "a malformed claim passed host normalisation, or a sound one did not");
    if (n.ok) S.assert(requiresParentReview(n.value) === (status !== "completed" || !!claim.blockers || files.length > 0), "the parent-review marker is wrong");
  } },
  lane: { covers: ["review", "none"], run(S) {
    for (const d of ["/p/s/d", "/o"]) fs.mkdirSync(d, { recursive: true });
    fs.symlinkSync("/o", "/p/s/l");
    const raw = S.str("file", { min: 0, max: S.thorough ? 5 : 4, of: "/.psdl" });
    const r = S.try(() => reviewManagedLaneChangedFiles({ changedFiles: raw.length === 0 ? [] : [raw], envelope: { allowedPaths: ["/p/s"], deniedPaths: ["/p/s/d"] }, cwd: "/p" }));
    if (!r.ok) { S.cover("rejected"); return; }
    S.cover(r.value.reviewRequired ? "review" : "none");
    S.assert(r.value.reviewRequired === raw.length > 0, "self-reported file changes escape review");
    if (raw.length > 0) { const a = path.resolve("/p", raw), link = a === "/p/s/l" || a.startsWith("/p/s/l/"); S.assert((r.value.reasonCode === "parent_review_required") === (inside(raw) && !link), "a change outside the lane's scope is reported as inside it"); }
  } },
  actions: { covers: ["changed", "refused", "failed", "unknown"], run(S) {
    fs.mkdirSync("/p/s", { recursive: true }); fs.mkdirSync("/o"); fs.mkdirSync("/agent");
    const body = S.str("body", { min: S.thorough ? 0 : 2, max: S.thorough ? 3 : 2, of: "ab$" });
    fs.writeFileSync("/p/s/f", body); fs.writeFileSync("/o/f", "keep");
    const op = S.pick("op", ["write", "edit"]), target = S.pick("target", ["s/f", "s/new", "../o/f", "s/deep/er", "."]);
    const old = S.str("old", { min: 1, max: 1, of: "ab$" }), nu = S.str("new", { min: S.thorough ? 0 : 2, max: 2, of: "a$&" });
    const action = op === "write" ? { op, path: target, content: nu } : { op, path: target, old, new: nu };
    const denied = new Set();
    const gateway = { authorizeToolCall(m, name, a) { const abs = path.resolve("/p", a.path); if (!(abs === "/p" || abs.startsWith("/p/")) || name !== op) { denied.add(a.path); const { CapabilityGatewayDeniedError } = gw; throw new CapabilityGatewayDeniedError("path_outside", "outside"); } } };
    const journal = new WorkerActionJournal({ agentDir: "/agent", parentSessionId: "s", taskId: "t", attemptId: "a", fencingToken: 1 });
    const manifest = target !== "s/f" || S.flag("manifest") ? [{ toolName: op }] : [];
    const f = fault(S, S.thorough ? 3 : 2, ["EIO"], { only: (o, p) => p.startsWith("/p") && (o === "mkdir" || o === "write" || o.startsWith("open:")) });
    const r = applyWorkerActions({ actions: [action], gateway, toolManifests: manifest, cwd: "/p", actionJournal: journal });
    f.end();
    const abs = path.resolve("/p", target);
    S.assert(fs.readFileSync("/o/f", "utf8") === "keep", "an action outside the grant changed a file");
    const outs = r.changedFiles.length + r.refused.length + r.failed.length + r.inspectionRequired.length;
    S.assert(outs >= 1, "an action was dropped silently");
    if (manifest.length === 0 || denied.size > 0) { S.cover("refused"); S.assert(r.refused.length === 1 && outs === 1, "a refused action is not reported as refused"); }
    else if (r.changedFiles.length && !r.inspectionRequired.length) {
      S.cover("changed"); S.assert(!r.failed.length && r.changedFiles[0] === target, "a change is reported for another file");
      const want = op === "write" ? nu : body.slice(0, body.indexOf(old)) + nu + body.slice(body.indexOf(old) + 1);
      S.assert(fs.readFileSync(abs, "utf8") === want, "an applied action left other content than it asked for");
    } else if (r.inspectionRequired.length) S.cover("unknown");
    else { S.cover("failed"); S.assert(fs.readFileSync("/p/s/f", "utf8") === body && !fs.existsSync("/p/s/new"), "an action reported as failed changed a file"); }
    // replaying the same attempt never applies it again
    if (manifest.length && denied.size === 0) {
      const before = fs.existsSync(abs) && fs.statSync(abs).isFile() ? fs.readFileSync(abs, "utf8") : null;
      const again = applyWorkerActions({ actions: [action], gateway, toolManifests: manifest, cwd: "/p", actionJournal: new WorkerActionJournal({ agentDir: "/agent", parentSessionId: "s", taskId: "t", attemptId: "b", fencingToken: 2 }) });
      S.assert(again.changedFiles.length === 0 && again.inspectionRequired.length === 1, "a replayed action was applied again");
      S.assert((fs.existsSync(abs) && fs.statSync(abs).isFile() ? fs.readFileSync(abs, "utf8") : null) === before, "a replayed action changed the file");
    }
  } },
  parse: { covers: ["accepted", "rejected"], run(S) {
    const good = { op: "write", path: "f", content: "x" };
    const kind = S.pick("kind", ["good", "extra", "op", "missing", "type", "emptyOld", "emptyPath", "many", "nul", "undefined", "object"]);
    const bad = { extra: { ...good, x: 1 }, op: { ...good, op: S.str("op", { len: 2, of: "wed" }) }, missing: { op: "write", path: "f" }, type: { ...good, content: [1] }, emptyOld: { op: "edit", path: "f", old: "", new: "x" }, emptyPath: { ...good, path: "" }, nul: null }[kind];
    const raw = kind === "good" ? [good] : kind === "many" ? Array.from({ length: S.upto("n", 22, 19) }, () => good) : kind === "undefined" ? undefined : kind === "object" ? { a: 1 } : S.flag("after") ? [good, bad] : [bad, good];
    const r = parseWorkerActions(raw);
    S.cover(r.kind);
    const ok = kind === "good" || kind === "undefined" || (kind === "many" && raw.length <= 20);
    S.assert((r.kind === "accepted") === ok, "a malformed action batch was accepted, or a sound one rejected");
    if (ok && raw) S.assert(r.actions.length === raw.length, "an accepted batch lost actions");
  } },
};
import * as gw from "@repo/packages/coding-agent/src/core/orchestration/capability-gateway.ts";
