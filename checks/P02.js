// Capability envelope: a gated tool body runs only when the envelope grants the call.
import { S } from "symex";
import path from "node:path";
import { evaluateToolGate, combineGateOutcomes, fallbackGateOutcome } from "@repo/packages/coding-agent/src/core/autonomy/gates.ts";
import { wrapToolWithCapabilityEnvelopeGate, deriveCompositeChildEnvelope } from "@repo/packages/coding-agent/src/core/autonomy/composite-tool-gate.ts";
import { wrapToolWithEnvelopeScope } from "@repo/packages/coding-agent/src/core/autonomy/envelope-enforcement.ts";
import { CapabilityGateway } from "@repo/packages/coding-agent/src/core/orchestration/capability-gateway.ts";
import { createLsToolDefinition } from "@repo/packages/coding-agent/src/core/tools/ls.ts";
import { createReadToolDefinition } from "@repo/packages/coding-agent/src/core/tools/read.ts";
import { createWriteToolDefinition } from "@repo/packages/coding-agent/src/core/tools/write.ts";
import { FileMutationIntentController } from "@repo/packages/coding-agent/src/core/tools/file-mutation-intent.ts";
import { resolveCredentialMigrationSources } from "@repo/packages/coding-agent/src/core/secrets/credential-migration-source.ts";
import fs from "node:fs";

export const meta = {
  bounds: ["every subset of eight capabilities (two at a time beyond the ones the tool needs), 20 tool names including an unclassified one, allow and deny lists present or absent", "path argument: every string of up to 3 (thorough 5) characters over '/.ps', under each accepted argument name, alone or beside an admissible one", "the real read, ls and write tools behind the gate, the scope wrapper and the capability gateway, with a path of 12 special beginnings (~, @, file URL, blanks, decomposed letters, quotes) and up to 2 (thorough 4) further characters over '/.ps~@ '", "16 tools whose need depends on the action, every argument shape of memory, goal and pipeline calls; calls naming no path; credential migration sources of up to 3 (thorough 5) characters over '/.ps' after four beginnings, read by the real migration", "gate outcome lists of up to 3 (thorough 4) entries over the five outcomes and a malformed one"],
  outside: ["risk wording of commands (see P09)", "links inside the workspace (see P01)"],
  assumptions: ["the table of which capability each tool needs is the documented one and is written out in the check"],
};
const NEED = {
  read: ["filesystem.read", "worktree.read"], ls: ["filesystem.read", "worktree.read"], grep: ["filesystem.read", "worktree.read"], find: ["filesystem.read", "worktree.read"],
  write: ["filesystem.write", "worktree.mutate"], edit: ["filesystem.write", "worktree.mutate"],
  bash: ["process.exec", "tests.execute"], python: ["process.exec", "tests.execute"], run_process: ["process.exec", "tests.execute"], run_toolkit_script: ["process.exec", "tests.execute"],
  fetch: ["network.http", "service.mcp"], web_search: ["network.http", "service.mcp"],
  skill: ["skill.read"], skillify: ["skill.write"], extensionify: ["source.write"], delegate: ["workflow.delegate"], secret_store: ["credentials.use"], worktree_sync: ["worktree.mutate", "filesystem.write"],
  mystery: null, constructor: null,
};
const SCOPED = ["read", "ls", "grep", "find", "write", "edit", "worktree_sync", "skill", "skillify", "extensionify"];
const POOL = ["filesystem.read", "worktree.read", "filesystem.write", "worktree.mutate", "process.exec", "tests.execute", "network.http", "service.mcp", "skill.read", "skill.write", "source.write", "workflow.delegate", "credentials.use"];
const runGated = async (S, tool, cwd, env, args) => {
  let ran = 0;
  const t = wrapToolWithCapabilityEnvelopeGate({ name: tool, label: tool, description: "", parameters: {}, execute: async () => { ran++; return { content: [] }; } }, cwd, env);
  const r = await S.tryAsync(() => t.execute("id", args));
  return { ran, ok: r.ok };
};
export const cases = {
  authority: { covers: ["ran", "refused"], async run(S) {
    const tool = S.pick("tool", Object.keys(NEED));
    const caps = [POOL[S.upto("c1", POOL.length - 1)]];
    if (S.thorough) { const c2 = S.upto("c2", POOL.length); if (c2 < POOL.length) caps.push(POOL[c2]); } else if (S.flag("second")) caps.push(S.pick("c2", ["network.http", "filesystem.write"]));
    const deny = S.pick("deny", [undefined, ["read", "mystery"], ["bash", tool]]);
    const allow = S.pick("allow", [undefined, ["ls"], [tool, "ls"], []]);
    const env = { id: "e", capabilities: caps, allowedPaths: ["/p"], ...(deny ? { deniedTools: deny } : {}), ...(allow ? { allowedTools: allow } : {}) };
    const r = await runGated(S, tool, "/p", env, {});
    const may = !(deny && deny.includes(tool)) && (!allow || allow.includes(tool)) && NEED[tool] !== null && NEED[tool].some((c) => caps.includes(c));
    S.cover(r.ran ? "ran" : "refused");
    if (r.ran) S.assert(may, "a tool ran without the authority it needs");
    else if (tool !== "extensionify" && tool !== "skillify") S.assert(!may, "a permitted call with no arguments was refused");
    // the gate's own verdict agrees with the wrapper
    const g = evaluateToolGate({ toolName: tool, args: {}, cwd: "/p", envelope: env });
    if (!may) S.assert(g.outcome === "block", "the gate did not block a call without authority");
  } },
  paths: { covers: ["ran", "refused"], async run(S) {
    const tool = S.pick("tool", ["read", "write", "worktree_sync"]);
    const env = { id: "e", capabilities: NEED[tool].slice(0, 1), allowedPaths: ["/p"], deniedPaths: ["/p/s"] };
    const key = S.pick("key", ["path", "file_path", "filePath", "cwd", "directory", "dir", "target", "paths", "files"]);
    const raw = S.str("raw", { min: 1, max: S.thorough ? 5 : 3, of: "/.ps" });
    const args = { [key]: key === "paths" || key === "files" ? (S.flag("beside") ? ["ok", raw] : [raw]) : raw };
    if (!Array.isArray(args[key]) && S.flag("beside")) { if (key === "path") args.cwd = "ok"; else args.path = "ok"; }
    const abs = path.resolve("/p", raw);
    const inside = (abs === "/p" || abs.startsWith("/p/")) && !(abs === "/p/s" || abs.startsWith("/p/s/"));
    const r = await runGated(S, tool, "/p", env, args);
    S.cover(r.ran ? "ran" : "refused");
    S.assert(r.ran === (inside ? 1 : 0), "a path argument outside the envelope ran, or one inside was refused");
    let ran = 0;
    const w = wrapToolWithEnvelopeScope({ name: tool, execute: (_id, _p) => { ran++; return { fine: true }; } }, env, "/p");
    const o = w.execute("id", args);
    S.assert(ran === (inside ? 1 : 0), "the scope wrapper ran a call outside the envelope, or refused one inside");
    if (!inside) S.assert(o.isError === true, "a scope refusal is an error result");
  } },
  tools: { covers: ["opened inside", "refused"], async run(S) {
    fs.mkdirSync("/p/s", { recursive: true }); fs.mkdirSync("/p/e\u0301"); fs.symlinkSync("/home", "/p/’"); S.env.procEnv.HOME = "/home/u";
    S.stub("packages/coding-agent/src/config.ts", { getAgentDir: () => "/home/u/.pi/agent", CONFIG_DIR_NAME: ".pi" });
    const opened = []; const note = (p) => { opened.push(path.resolve(p)); };
    const gone = () => Object.assign(new Error("ENOENT"), { code: "ENOENT" });
    const name = S.pick("tool", ["read", "ls", "write"]);
    const real = name === "read" ? createReadToolDefinition("/p", { operations: { readFile: async (p) => { note(p); throw gone(); }, access: async (p) => { note(p); throw gone(); } } })
      : name === "ls" ? createLsToolDefinition("/p", { operations: { exists: async (p) => { note(p); return false; }, stat: async (p) => { note(p); throw gone(); }, readdir: async (p) => { note(p); throw gone(); } } })
      : createWriteToolDefinition("/p", { intentController: new FileMutationIntentController({ now: () => S.now, operations: { inspect: async (p) => (p === "/p" || p === "/home" || p === "/" ? { kind: "directory", identity: {} } : undefined), access: async () => {}, copyFileExclusive: async () => {}, hashFile: async () => "", readPayload: async () => "", removeFile: async () => {}, stagePayload: async () => "/stage" } }), operations: { createFile: async (p) => { note(p); }, mkdir: async () => {} } });
    const raw = S.pick("prefix", ["", "@", "~", "~/", "@~/", "file://", "@file:///", "\u00a0", " ", "'/", "e\u0301/", " @"]) + S.str("raw", { min: 0, max: S.thorough ? 4 : 2, of: "/.ps~@ " });
    const cap = NEED[name][0], env = { id: "e", capabilities: [cap], allowedPaths: ["/p"], deniedPaths: ["/p/s"] };
    const via = S.pick("via", ["gate", "scope", "gateway"]);
    const args = { path: raw, content: "x" };
    if (via === "gate") await S.tryAsync(() => wrapToolWithCapabilityEnvelopeGate({ ...real }, "/p", env).execute("1", args));
    else if (via === "scope") await S.tryAsync(async () => wrapToolWithEnvelopeScope({ ...real }, env, "/p").execute("1", args));
    else {
      const gw = new CapabilityGateway({ grant: { schemaVersion: 1, grantId: "g", objectiveId: "o", taskId: "t", attemptId: "a", subjectId: "s", role: "explorer", capabilities: [cap], allowedTools: [name], resources: [], readPaths: ["/p"], writePaths: ["/p"], deniedPaths: ["/p/s"], budget: {}, policyVersion: "1", issuedAt: new Date(0).toISOString() }, cwd: "/p", now: () => 5 });
      const r = S.try(() => gw.authorizeToolCall({ toolName: name, capabilities: [cap], roles: ["explorer"], enforcements: ["path-scope"] }, name, args));
      if (r.ok) await S.tryAsync(() => real.execute("1", args));
    }
    S.cover(opened.length ? "opened inside" : "refused");
    const link = (p) => p.replace(/^\/p\/’/, "/home");
    S.assert(opened.every((p) => { const q = link(p); return (q === "/p" || q.startsWith("/p/")) && !(q === "/p/s" || q.startsWith("/p/s/")); }), "a file tool opened a path outside the bounds it was admitted for");
  } },
  // What an action-sensitive tool needs depends on what the call does, and a call that names no path still searches the directory it stands in.
  actions: { covers: ["ran", "refused"], async run(S) {
    const t = S.pick("tool", ["memory", "goal", "pipeline", "create_goal", "get_goal", "update_goal", "memory_read", "task_steps", "artifact_retrieve", "context_scout", "model_fitness", "tool_task", "ask_question", "skill_audit", "tmux_dispatch", "improvement_loop"]);
    let args = {}, need;
    if (t === "memory") {
      const key = S.str("key", { min: 0, max: S.thorough ? 2 : 1, of: "qa" }), q = S.pick("q", ["x", undefined, 5]), arr = S.flag("array");
      args = arr ? [] : { ...(q !== undefined ? { query: q } : {}), ...(key.length ? { [key]: "y" } : {}) };
      need = !arr && q === "x" && key.length === 0 ? [["memory.query"]] : [["memory.mutate"]];
    } else if (t === "goal") {
      const a = S.pick("action", ["get", "set", "Get", "get ", undefined, 3]); args = a === undefined ? {} : { action: a };
      need = a === "get" ? [["memory.query"]] : [["memory.mutate"]];
    } else if (t === "pipeline") {
      const a = S.pick("action", ["list", "status", "start", "increment", "abandon", undefined, "List"]); args = a === undefined ? {} : { action: a };
      need = a === "list" || a === "status" ? [["workflow.plan", "filesystem.read"]] : [["workflow.plan"], ["filesystem.write", "worktree.mutate"]];
    } else {
      args = { query: "x" };
      need = { create_goal: [["memory.mutate"]], get_goal: [["memory.query"]], update_goal: [["memory.mutate"]], memory_read: [["memory.query"]], task_steps: [["workflow.plan", "memory.mutate"]], artifact_retrieve: [["filesystem.read"]], context_scout: [["filesystem.read"]], model_fitness: [["research.execute"]], tool_task: [["process.exec", "workflow.delegate"]], ask_question: [["workflow.plan", "memory.query"]], skill_audit: [["skill.read"]], tmux_dispatch: [["process.exec", "workflow.delegate"]], improvement_loop: [["process.exec", "tests.execute"]] }[t];
    }
    const pool = ["memory.query", "memory.mutate", "workflow.plan", "filesystem.read", "filesystem.write", "worktree.mutate", "workflow.delegate", "process.exec", "tests.execute", "skill.read", "research.execute", "credentials.use"];
    const caps = [S.pick("c1", pool)]; if (t === "pipeline" || S.thorough) { const c2 = S.pick("c2", ["none", ...pool]); if (c2 !== "none") caps.push(c2); }
    const r = await runGated(S, t, "/p", { id: "e", capabilities: caps, allowedPaths: ["/p"] }, args);
    const may = need.every((clause) => clause.some((c) => caps.includes(c)));
    S.cover(r.ran ? "ran" : "refused");
    S.assert(r.ran === (may ? 1 : 0), "an action ran without the capability that action needs, or was refused with it");
  } },
  sources: { covers: ["ran", "refused", "read"], async run(S) {
    fs.mkdirSync("/p/s", { recursive: true }); fs.mkdirSync("/o"); fs.symlinkSync("/o", "/p/ l"); fs.mkdirSync("/p/l"); S.env.procEnv.HOME = "/p/h/u";
    S.stub("packages/coding-agent/src/config.ts", { getAgentDir: () => "/p/h/u/.pi/agent", CONFIG_DIR_NAME: ".pi" });
    const where = S.pick("where", ["implicit", "migrate"]);
    const env = { id: "e", capabilities: ["credentials.use", "filesystem.read", "filesystem.write", "workflow.plan"], allowedPaths: [S.pick("root", ["/p", "/o"])], deniedPaths: ["/p/s"] };
    if (where === "implicit") {
      const t = S.pick("tool", ["find", "grep", "ls", "secret_store", "pipeline"]);
      const args = t === "secret_store" ? { action: "discover" } : t === "pipeline" ? { action: "start" } : S.pick("args", [{ pattern: "x" }, { pattern: "x", path: "" }, { pattern: "x", path: " " }, { path: 5 }]);
      const r = await runGated(S, t, "/p", env, args);
      S.cover(r.ran ? "ran" : "refused");
      S.assert(r.ran === (env.allowedPaths[0] === "/p" ? 1 : 0), "a call that names no path searches its directory, and that directory is judged");
      return;
    }
    const raw = S.pick("prefix", ["", " ", "~/", " l/"]) + S.str("raw", { min: 1, max: S.thorough ? 5 : 3, of: "/.ps" });
    for (const f of ["/o/p", "/o/s", "/s", "/p/p", "/p/l/p", "/p/l/s", "/p/s/p", "/p/h/u/p", "/p/h/u/s", "/p/h/p"]) { fs.mkdirSync(path.dirname(f), { recursive: true }); fs.writeFileSync(f, f); }
    const beside = S.flag("beside");
    const args = { action: "migrate", profile: "x", sources: [...(beside ? [{ kind: "file", path: "p", variable: "W" }] : []), { kind: "file", path: raw, variable: "V" }] };
    const root = env.allowedPaths[0];
    const within = (p) => (p === root || p.startsWith(root + "/")) && !(p === "/p/s" || p.startsWith("/p/s/"));
    const r = await runGated(S, "secret_store", "/p", env, args);
    S.cover(r.ran ? "ran" : "refused");
    if (beside && root === "/o") S.assert(!r.ran, "a migration with one source outside the bounds was admitted");
    if (r.ran) {
      const got = await S.tryAsync(() => resolveCredentialMigrationSources(args.sources, "/p", undefined, {}));
      if (got.ok) { S.cover("read"); for (const v of got.value) S.assert(within(v.value), "a credential file outside the bounds was read"); }
    } else if (raw.trim() === raw && !raw.startsWith("~")) S.assert(!within(path.resolve("/p", raw)) || (beside && root === "/o"), "a credential source inside the bounds was refused");
  } },
  combine: { covers: ["malformed"], run(S) {
    const order = ["allow", "downgrade", "escalate", "ask-user", "block", "nonsense"];
    const n = S.upto("n", S.thorough ? 4 : 3, 0);
    const list = []; for (let i = 0; i < n; i++) list.push({ outcome: S.enum("o" + i, order), gate: "g" + i, reasonCode: "r" + i });
    const r = combineGateOutcomes(list);
    if (n === 0) { S.assert(r.outcome !== "allow", "no gate outcomes never allows"); return; }
    let worst = 0; for (const x of list) { let rank = order.indexOf(x.outcome); if (rank === 5) { rank = 4; S.cover("malformed"); } if (rank > worst) worst = rank; }
    S.assert(r.outcome === order[worst], "the combined outcome is the most restrictive one");
    S.assert(fallbackGateOutcome({ gate: "", reversible: false, reasonCode: "" }).outcome === "block", "an irreversible fallback blocks");
    S.assert(fallbackGateOutcome({ gate: "", reversible: true, reasonCode: "" }).outcome === "ask-user", "a reversible fallback asks");
  } },
  composite: { covers: ["parent granted", "parent denied"], run(S) {
    const names = ["par", "kid", "oth"];
    const sub = (k) => { const l = []; for (const n of names) if (S.flag(k + n)) l.push(n); return l; };
    const env = { id: "e", capabilities: ["filesystem.read"], deniedPaths: ["/p/s"], allowedPaths: ["/p"], ...(S.flag("hasAllow") ? { allowedTools: sub("a") } : {}), ...(S.flag("hasDeny") ? { deniedTools: sub("d") } : {}) };
    const snap = JSON.stringify(env);
    const d = deriveCompositeChildEnvelope("par", ["kid"], env);
    const parentOk = !(env.deniedTools ?? []).includes("par") && (!env.allowedTools || env.allowedTools.includes("par"));
    S.cover(parentOk ? "parent granted" : "parent denied");
    const may = (t) => !(d.deniedTools ?? []).includes(t) && (!d.allowedTools || d.allowedTools.includes(t));
    if (!parentOk) for (const t of names) S.assert(!may(t), "a denied parent lends no authority to its children");
    else { S.assert(may("kid") === !(env.deniedTools ?? []).includes("kid"), "a granted parent lends its children the call unless they are denied"); S.assert(may("oth") === (!(env.deniedTools ?? []).includes("oth") && (!env.allowedTools || env.allowedTools.includes("oth"))), "nothing else is widened"); }
    S.assert(JSON.stringify(d.capabilities) === '["filesystem.read"]' && JSON.stringify(d.deniedPaths) === '["/p/s"]' && JSON.stringify(d.allowedPaths) === '["/p"]', "capability and path bounds survive");
    S.assert(JSON.stringify(env) === snap, "the original envelope is untouched");
  } },
};
