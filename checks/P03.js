// Compiled execution grants never exceed the role ceiling, the owner's authority, or either budget.
import { S } from "symex";
import { ExecutionPolicyCompiler } from "@repo/packages/coding-agent/src/core/orchestration/policy-compiler.ts";
import { intersectRiskBudgets, exceededRiskBudgetFields, parseRiskBudget } from "@repo/packages/coding-agent/src/core/orchestration/risk-budget.ts";

export const meta = {
  bounds: ["two capabilities (file read, process execution) each independently required / requested / authorised / within the role ceiling, a third never authorised", "up to two requested tools from five manifests (sound, capability too wide, wrong role, enforcement missing, unknown)", "12 capabilities against 7 sets of enforcements, three tools with a policy of their own and one without, path scopes present or absent", "budgets: each limit absent or any integer 0..1000 on both sides (cost in quarters of a dollar)"],
  outside: ["how the grant is stored (see the task runtime properties)"],
  assumptions: [],
};
const CAPS = ["filesystem.read", "process.exec"];
const man = (toolName, capabilities, roles, enforcements) => ({ toolName, capabilities, roles, enforcements });
const MANS = [
  man("read", ["filesystem.read"], ["explorer"], ["path-scope"]),
  man("bash", ["process.exec"], ["explorer"], ["process-launcher"]),
  man("wide", ["filesystem.read", "process.exec"], ["explorer"], ["path-scope", "process-launcher"]),
  man("wrongrole", ["filesystem.read"], ["planner"], ["path-scope"]),
  man("grep", ["filesystem.read"], ["explorer"], ["control-plane"]),
];
const NAMES = ["read", "bash", "wide", "wrongrole", "grep", "ghost"];
const base = { objectiveId: "o", taskId: "t", attemptId: "a", subjectId: "s", role: "explorer", policyVersion: "1" };
export const cases = {
  authority: { covers: ["allow", "deny", "approval-required"], run(S) {
    const sub = (k, l = CAPS) => l.filter((c) => S.flag(k + c));
    const required = sub("req"), requested = S.flag("asks") ? sub("ask") : undefined, authority = sub("auth"), ceiling = sub("ceil");
    if (requested && S.flag("extra")) requested.push("network.http");
    const tools = S.flag("hasTool") ? [S.pick("tool", NAMES)] : [];
    if (tools.length && S.flag("hasTool2")) tools.push(S.pick("tool2", S.thorough ? NAMES : ["bash", "ghost"]));
    const paths = S.flag("paths") ? ["/p"] : [];
    const all = ["orchestrator", "planner", "explorer", "implementer", "operator", "verifier", "database"];
    const comp = new ExecutionPolicyCompiler({ roleCapabilityCeilings: Object.fromEntries(all.map((r) => [r, r === "explorer" ? ceiling : ["filesystem.read", "process.exec", "network.http"]])) });
    const r = comp.compile({ ...base, requiredCapabilities: required, ...(requested ? { requestedCapabilities: requested } : {}), authorityCapabilities: authority, requestedTools: tools, toolManifests: MANS, readPaths: paths });
    S.cover(r.outcome); S.note([r.outcome, r.reasonCodes, r.grant?.capabilities, r.grant?.allowedTools]);
    const okCap = (c) => authority.includes(c) && ceiling.includes(c);
    if (r.outcome === "allow") {
      const g = r.grant;
      for (const c of g.capabilities) S.assert(okCap(c) && (required.includes(c) || (requested ?? []).includes(c)), "a granted capability was not requested, not authorised or above the role ceiling");
      for (const c of required) S.assert(g.capabilities.includes(c), "an allowed attempt lacks a capability it requires");
      for (const t of g.allowedTools) { const m = MANS.find((x) => x.toolName === t); S.assert(tools.includes(t) && m !== undefined && m.roles.includes("explorer") && m.capabilities.every((c) => g.capabilities.includes(c)) && t !== "grep", "a granted tool is unknown, of another role, lacks its enforcement or needs more than was granted"); }
      for (const t of tools) S.assert(g.allowedTools.includes(t), "a requested tool silently vanished from the grant");
      if (g.capabilities.includes("filesystem.read")) S.assert(g.readPaths.length > 0, "a read capability without a positive path scope");
      S.assert(Object.isFrozen(g) && Object.isFrozen(g.capabilities) && Object.isFrozen(g.allowedTools) && Object.isFrozen(g.budget) && Object.isFrozen(g.readPaths), "a grant cannot be widened after it is issued");
    } else if (r.outcome === "approval-required") {
      S.assert(required.some((c) => !authority.includes(c)) && required.every((c) => ceiling.includes(c)), "approval is asked for required capabilities without authority only");
      for (const c of required) if (!authority.includes(c)) S.assert(r.approval.requestedCapabilities.includes(c), "the approval request names every missing capability");
    } else {
      const bad = required.some((c) => !ceiling.includes(c)) || tools.length > 0 || ((required.includes("filesystem.read") || (requested ?? []).includes("filesystem.read")) && paths.length === 0);
      S.assert(bad, "a grantable attempt was denied");
    }
  } },
  budgets: { covers: ["allow", "approval-required"], run(S) {
    const mk = (k) => { const b = {}; for (const f of ["maxTokens", "maxToolCalls"]) if (S.flag(k + f)) b[f] = S.int(k + f + "v", 0, 1000); if (S.flag(k + "cost")) b.maxCostUsd = S.frac(k + "costv", 0, 100, 4); if (S.flag(k + "app")) b.requireApprovalAboveCostUsd = S.frac(k + "appv", 0, 100, 4); return b; };
    const rq = mk("r"), au = mk("a");
    const r = new ExecutionPolicyCompiler().compile({ ...base, requiredCapabilities: [], authorityCapabilities: [], requestedTools: [], toolManifests: [], requestedBudget: rq, authorityBudget: au });
    S.cover(r.outcome);
    const over = ["maxTokens", "maxToolCalls", "maxCostUsd"].some((f) => rq[f] !== undefined && au[f] !== undefined && S.truth(rq[f] > au[f]));
    S.assert(r.outcome === (over ? "approval-required" : "allow"), "a request above the owner's budget needs approval, and only then");
    if (r.outcome === "allow") {
      const b = r.grant.budget;
      for (const f of ["maxTokens", "maxToolCalls", "maxCostUsd", "requireApprovalAboveCostUsd"]) for (const s of [rq, au]) if (s[f] !== undefined) S.assert(b[f] !== undefined && b[f] <= s[f], "the granted budget exceeds " + f);
      for (const f of ["maxTokens", "maxToolCalls"]) if (rq[f] === undefined && au[f] === undefined) S.assert(b[f] === undefined, "an unlimited budget was invented");
      for (const s of [rq, au]) if (s.requireApprovalAboveCostUsd !== undefined) S.assert(b.maxCostUsd !== undefined && b.maxCostUsd <= s.requireApprovalAboveCostUsd, "spending above the approval threshold is not capped");
    }
  } },
  limits: { covers: ["allow", "approval-required"], run(S) {
    const F = ["maxTokens", "maxWallClockMs", "maxCostUsd", "maxAttempts", "maxToolCalls"];
    const f = S.pick("f", F), g = S.pick("g", ["requireApprovalAboveCostUsd", ...F]), rq = {}, au = {};
    if (S.flag("rf")) rq[f] = S.int("rfv", 0, 1000); if (S.flag("af")) au[f] = S.int("afv", 0, 1000);
    if (g !== f) { if (S.flag("rg")) rq[g] = S.int("rgv", 0, 1000); if (S.flag("ag")) au[g] = S.int("agv", 0, 1000); }
    const snap = { ...rq }, need = S.pick("needs", [[], ["process.exec"]]);
    const r = new ExecutionPolicyCompiler().compile({ ...base, requiredCapabilities: need, authorityCapabilities: S.flag("unauth") ? [] : ["process.exec"], requestedTools: [], toolManifests: [], requestedBudget: rq, authorityBudget: au });
    S.cover(r.outcome);
    const over = F.filter((k) => rq[k] !== undefined && au[k] !== undefined && S.truth(rq[k] > au[k]));
    if (over.length) S.assert(r.outcome === "approval-required" && over.every((k) => r.approval.requestedBudget[k] === snap[k]), "a request above the owner's budget needs approval that states it");
    else if (r.outcome === "allow") for (const k of [...F, "requireApprovalAboveCostUsd"]) {
      const v = [rq[k], au[k]].filter((x) => x !== undefined), b = r.grant.budget[k];
      for (const x of v) S.assert(b !== undefined && b <= x, "the granted budget exceeds " + k);
      if (v.length && k !== "maxCostUsd") S.assert(v.some((x) => b === x), "a granted limit is one of the two limits");
      if (!v.length && k !== "maxCostUsd") S.assert(b === undefined, "an unlimited budget was invented");
    }
    const p = S.try(() => parseRiskBudget({ ...rq, ...au }, "b"));
    S.assert(p.ok && Object.keys(p.value).sort().join() === Object.keys({ ...rq, ...au }).sort().join(), "a sound stored budget reads back with every limit");
    for (const k of Object.keys({ ...rq, ...au })) S.assert(p.value[k] === ({ ...rq, ...au })[k], "a stored limit reads back unchanged");
  } },
  scopes: { covers: ["allow", "deny"], run(S) {
    const cap = S.pick("cap", ["filesystem.read", "worktree.read", "filesystem.write", "worktree.mutate", "process.exec", "network.http", "credentials.use", "memory.mutate", "skill.write", "source.write", "workflow.plan", "publish.execute"]);
    const kind = { filesystem: "path-scope", worktree: "path-scope", process: "process-launcher", network: "service-proxy", credentials: "service-proxy", memory: "memory-broker", skill: "path-scope", source: "path-scope", workflow: "control-plane", publish: "control-plane" }[cap.split(".")[0]];
    const enf = S.pick("enf", [["path-scope"], ["process-launcher"], ["service-proxy"], ["memory-broker"], ["control-plane"], [], ["path-scope", "service-proxy", "control-plane"]]);
    const tool = S.pick("tool", ["custom", "secret_store", "pipeline", "bash"]);
    const canonical = { custom: [], secret_store: ["service-proxy", "path-scope"], pipeline: ["control-plane", "path-scope"], bash: ["process-launcher"] }[tool];
    const manifest = { toolName: tool, capabilities: [cap], roles: ["explorer"], enforcements: [...enf] };
    const read = S.flag("read") ? ["/p", "/p"] : [], write = S.flag("write") ? ["/w"] : [], hasDenied = S.flag("denied"), denied = hasDenied ? ["/p/s"] : [];
    const resources = [{ kind: "file", uri: "x", metadata: { a: 1 } }];
    const input = { ...base, requiredCapabilities: [cap], authorityCapabilities: [cap], requestedTools: [tool, tool], toolManifests: [manifest], readPaths: read, writePaths: write, deniedPaths: denied, resources, expiresAt: "2030-01-01T00:00:00.000Z" };
    const r = new ExecutionPolicyCompiler().compile(input);
    const scopeOk = !((cap === "filesystem.read" || cap === "worktree.read") && !read.length) && !((cap === "filesystem.write" || cap === "worktree.mutate") && !write.length);
    const enfOk = enf.includes(kind) && canonical.every((e) => enf.includes(e));
    S.cover(r.outcome);
    S.assert(r.outcome === (scopeOk && enfOk ? "allow" : "deny"), "a grant lacks a path scope or the enforcement its tool needs, or a sound one was denied");
    if (r.outcome !== "allow") return;
    const g = r.grant;
    read.push("/evil"); write.push("/evil"); denied.length = 0; resources[0].metadata.a = 2; manifest.enforcements.push("x");
    S.assert(!g.readPaths.includes("/evil") && !g.writePaths.includes("/evil") && g.resources[0].metadata.a === 1 && !r.toolManifests[0].enforcements.includes("x"), "a grant changes with the caller's objects");
    S.assert(g.allowedTools.length === 1 && g.expiresAt === input.expiresAt && g.attemptId === "a" && g.subjectId === "s" && g.role === "explorer", "a grant is bound to its attempt, subject, role and expiry");
    S.assert((g.deniedPaths.length === 1) === hasDenied, "a denied path was lost from the grant");
    for (const o of [g, g.capabilities, g.allowedTools, g.resources, g.resources[0], g.resources[0].metadata, g.readPaths, g.writePaths, g.deniedPaths, g.budget]) S.assert(Object.isFrozen(o), "a grant cannot be widened after it is issued");
  } },
  parse: { covers: ["accepted", "rejected"], run(S) {
    const f = S.pick("field", ["maxTokens", "maxWallClockMs", "maxCostUsd", "maxAttempts", "maxToolCalls", "requireApprovalAboveCostUsd", "maxTokenz"]);
    const v = S.flag("frac") ? S.frac("v", -2, 2, 2) : S.pick("odd", [NaN, Infinity, -Infinity, "5", null, undefined, 2 ** 53]);
    const r = S.try(() => parseRiskBudget({ [f]: v }, "b"));
    const num = typeof v === "number";
    const ok = f !== "maxTokenz" && (v === undefined || (num && S.truth(v >= 0) && v !== Infinity && (f === "maxCostUsd" || f.startsWith("require") || Number.isSafeInteger(v))));
    S.cover(r.ok ? "accepted" : "rejected");
    S.assert(r.ok === ok, "a malformed budget is refused and a sound one accepted");
  } },
};
