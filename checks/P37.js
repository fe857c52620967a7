import { S } from "symex";
import fs from "node:fs";
import { SettingsManager } from "@repo/packages/coding-agent/src/core/settings-manager.ts";
import { ProjectTrustStore, hasProjectTrustInputs } from "@repo/packages/coding-agent/src/core/trust-manager.ts";
import { configFile, stateFile } from "@repo/packages/coding-agent/src/core/agent-paths.ts";
import { crash, fault } from "./lib/fault.js";

export const meta = {
  bounds: ["every setter of a user or project setting, on a file that another process changed since it was read, in a main or a worker session", "up to 3 (thorough 4) changes by two sessions and an editor, written at once or together, with a crash at any step or a failing write in the last; another session writing the file for the first time at any step", "9 damaged files, before the session starts or after, in either scope", "every subset of the settings two files may carry at two levels of nesting; old names of settings", "up to 3 (thorough 4) changes of trust, reloads and changes of settings on a project, trusted or not", "up to 3 (thorough 4) decisions of trust by two processes on 5 names of 3 directories, with crashes and failures; damaged decisions"],
  outside: ["the per-directory profile file, and profiles", "two sessions changing the same setting at the same time (one of them wins)", "the question put to the user"],
  assumptions: ["a lock left by a process that died expires"],
};
const CWD = "/proj", AD = "/agent", G = configFile(AD, "settings.json"), PJ = "/proj/.pi/settings.json";
const setup = (S) => { S.stub("packages/coding-agent/src/config.ts", { getAgentDir: () => AD, CONFIG_DIR_NAME: ".pi", APP_NAME: "pi", VERSION: "1", getPackageDir: () => "/pkg", getReadmePath: () => "/pkg/README.md", getProfilesDir: (d = AD) => d + "/profiles" }); for (const d of [CWD, "/proj/.git", AD]) fs.mkdirSync(d, { recursive: true }); };
const put = (f, doc) => { fs.mkdirSync(f.slice(0, f.lastIndexOf("/")), { recursive: true }); fs.writeFileSync(f, typeof doc === "string" ? doc : JSON.stringify(doc, null, 2)); };
const read = (f) => (fs.existsSync(f) ? fs.readFileSync(f, "utf8") : undefined);
const canon = (v) => (Array.isArray(v) ? v.map(canon) : v && typeof v === "object" ? Object.fromEntries(Object.keys(v).sort().filter((k) => v[k] !== undefined).map((k) => [k, canon(v[k])])) : v);
const same = (a, b) => JSON.stringify(canon(a)) === JSON.stringify(canon(b));
const doc = (f) => { const t = read(f); if (t === undefined) return {}; const r = S.try(() => JSON.parse(t)); S.assert(r.ok, "the settings file is damaged"); return r.value; };
const open = (trusted) => SettingsManager.create(CWD, AD, trusted === undefined ? {} : { projectTrusted: trusted });
const clone = (v) => JSON.parse(JSON.stringify(v));
const assign = (d, field, nested, value) => { const out = clone(d); if (nested) { out[field] = { ...(out[field] ?? {}) }; if (value === undefined) delete out[field][nested]; else out[field][nested] = value; } else if (value === undefined) delete out[field]; else out[field] = value; return out; };
// setter, arguments, setting, nested key, what the file then holds, getter, what it then gives
const SETTERS = [
  ["setLastChangelogVersion", ["2"], "lastChangelogVersion", 0, "2", "getLastChangelogVersion", "2"], ["setDefaultProvider", ["p"], "defaultProvider", 0, "p", "getDefaultProvider", "p"], ["setDefaultModel", ["m"], "defaultModel", 0, "m", "getDefaultModel", "m"], ["setSteeringMode", ["all"], "steeringMode", 0, "all", "getSteeringMode", "all"], ["setFollowUpMode", ["all"], "followUpMode", 0, "all", "getFollowUpMode", "all"], ["setTheme", ["dark"], "theme", 0, "dark", "getTheme", "dark"], ["setCatalogDir", ["/d"], "catalogDir", 0, "/d", "getCatalogDir", "/d"], ["setCatalogDir", [undefined], "catalogDir", 0, undefined, "getCatalogDir", undefined],
  ["setDefaultThinkingLevel", ["high"], "defaultThinkingLevel", 0, "high", "getDefaultThinkingLevel", "high"], ["setFastModeEnabled", ["q", false], "fastMode", "q", false, (m) => m.getFastModeEnabled("q"), false], ["setFastModeEnabled", ["s", true], "fastMode", "s", true, (m) => m.getFastModeEnabled("s"), true], ["setTransport", ["sse"], "transport", 0, "sse", "getTransport", "sse"], ["setCompactionEnabled", [false], "compaction", "enabled", false, "getCompactionEnabled", false], ["setRetryEnabled", [false], "retry", "enabled", false, "getRetryEnabled", false], ["setHttpIdleTimeoutMs", [1500.7], "httpIdleTimeoutMs", 0, 1500, "getHttpIdleTimeoutMs", 1500], ["setHideThinkingBlock", [false], "hideThinkingBlock", 0, false, "getHideThinkingBlock", false], ["setShellPath", ["/bin/x"], "shellPath", 0, "/bin/x", "getShellPath", "/bin/x"], ["setShellPath", [undefined], "shellPath", 0, undefined, "getShellPath", undefined],
  ["setProjectContextFiles", ["on-demand", "global"], "projectContextFiles", 0, "on-demand", "getProjectContextFiles", "on-demand"], ["setQuietStartup", [true], "quietStartup", 0, true, "getQuietStartup", true], ["setShellCommandPrefix", ["x"], "shellCommandPrefix", 0, "x", "getShellCommandPrefix", "x"], ["setNpmCommand", [["a"]], "npmCommand", 0, ["a"], "getNpmCommand", ["a"]], ["setNpmCommand", [undefined], "npmCommand", 0, undefined, "getNpmCommand", undefined], ["setCollapseChangelog", [true], "collapseChangelog", 0, true, "getCollapseChangelog", true], ["setEnableInstallTelemetry", [false], "enableInstallTelemetry", 0, false, "getEnableInstallTelemetry", false],
  ["setPackages", [["a"]], "packages", 0, ["a"], "getPackages", ["a"]], ["setExtensionPaths", [["a"]], "extensions", 0, ["a"], "getExtensionPaths", ["a"]], ["setSkillPaths", [["a"]], "skills", 0, ["a"], "getSkillPaths", ["a"]], ["setPromptTemplatePaths", [["a"]], "prompts", 0, ["a"], "getPromptTemplatePaths", ["a"]], ["setThemePaths", [["a"]], "themes", 0, ["a"], "getThemePaths", ["a"]], ["setEnableSkillCommands", [false], "enableSkillCommands", 0, false, "getEnableSkillCommands", false],
  ["setShowImages", [false], "terminal", "showImages", false, "getShowImages", false], ["setImageWidthCells", [0.5], "terminal", "imageWidthCells", 1, "getImageWidthCells", 1], ["setClearOnShrink", [true], "terminal", "clearOnShrink", true, "getClearOnShrink", true], ["setShowTerminalProgress", [true], "terminal", "showTerminalProgress", true, "getShowTerminalProgress", true], ["setImageAutoResize", [false], "images", "autoResize", false, "getImageAutoResize", false], ["setBlockImages", [true], "images", "blockImages", true, "getBlockImages", true], ["setClipboardImageDirectory", [" /e "], "images", "clipboardDirectory", "/e", "getClipboardImageDirectory", "/e"], ["setClipboardImageDirectory", [" "], "images", "clipboardDirectory", undefined, "getClipboardImageDirectory", undefined],
  ["setEnabledModels", [["a"]], "enabledModels", 0, ["a"], "getEnabledModels", ["a"]], ["setEnabledModels", [undefined], "enabledModels", 0, undefined, "getEnabledModels", undefined], ["setDoubleEscapeAction", ["none"], "doubleEscapeAction", 0, "none", "getDoubleEscapeAction", "none"], ["setTreeFilterMode", ["all"], "treeFilterMode", 0, "all", "getTreeFilterMode", "all"], ["setShowHardwareCursor", [true], "showHardwareCursor", 0, true, "getShowHardwareCursor", true], ["setEditorPaddingX", [7], "editorPaddingX", 0, 3, "getEditorPaddingX", 3], ["setAutocompleteMaxVisible", [1], "autocompleteMaxVisible", 0, 3, "getAutocompleteMaxVisible", 3],
  ["setContextCurationSettings", [{ enabled: false, maxJobsPerTurn: 2 }], "contextPolicy", "curation", { enabled: false, maxJobsPerTurn: 2 }, (m) => m.getContextCurationSettings().maxJobsPerTurn, 2, "p"], ["setContextPromptEnforcementSettings", [{ enabled: false, minChars: 5 }], "contextPolicy", "enforcement", { enabled: false, minChars: 5 }, (m) => m.getContextPromptEnforcementSettings().minChars, 5, "p"], ["setMemoryRetrievalSettings", [{ enabled: true, maxResults: 2 }], "contextPolicy", "memory", { enabled: true, maxResults: 2 }, (m) => m.getMemoryRetrievalSettings().maxResults, 2, "p"],
  ["setWarnings", [{ a: false }], "warnings", 0, { a: false }, "getWarnings", { a: false }], ["setCostGuardSettings", [{ enabled: true, maxTurnUsd: -1, action: "downgrade" }], "costGuard", 0, { enabled: true, maxTurnUsd: "default", action: "downgrade" }, (m) => m.getCostGuardSettings().action, "downgrade", "p"], ["setScoutSettings", [{ enabled: true }], "scout", 0, { enabled: true }, (m) => m.getScoutSettings().enabled, true, "p"], ["setAutonomySettings", [{ mode: "safe", maxStallTurns: 2 }], "autonomy", 0, { mode: "safe", maxStallTurns: 2 }, (m) => m.getAutonomySettings().maxStallTurns, 2, "p"], ["setResearchLaneSettings", [{ enabled: true, model: "x" }], "researchLane", 0, { enabled: true, model: "x" }, (m) => m.getResearchLaneSettings().model, "x", "p"], ["setToolkitSettings", [{ scripts: [] }], "toolkit", 0, { scripts: [] }, (m) => m.getToolkitScripts(), [], "p"], ["setModelCapabilitySettings", [{ mode: "lean" }], "modelCapability", 0, { mode: "lean" }, (m) => m.getModelCapabilitySettings().mode, "lean", "p"], ["setLearningPolicySettings", [{ enabled: false, minObservations: 3 }], "learningPolicy", 0, { enabled: false, minObservations: 3 }, (m) => m.getLearningPolicySettings().minObservations, 3, "p"], ["setAutoLearnSettings", [{ enabled: true, complexTaskToolCalls: 4 }], "autoLearn", 0, { enabled: true, complexTaskToolCalls: 4 }, (m) => m.getAutoLearnSettings().complexTaskToolCalls, 4, "p"], ["setExternalResourceRoots", [["/r"]], "externalResourceRoots", 0, ["/r"], "getExternalResourceRoots", ["/r"], "p"], ["setTrustedResourceRoots", [["/r"]], "trustedResourceRoots", 0, ["/r"], "getTrustedResourceRoots", ["/r"], "p"], ["setModelRouterSettings", [{ enabled: true, cheapModel: " c " }], "modelRouter", 0, { enabled: true, cheapModel: "c", judgeEnabled: true, fitnessGate: false }, (m) => m.getModelRouterSettings().cheapModel, "c", "p"],
  ["setProjectPackages", [["a"]], "packages", 0, ["a"], "getPackages", ["a"], "P"], ["setProjectExtensionPaths", [["a"]], "extensions", 0, ["a"], "getExtensionPaths", ["a"], "P"], ["setProjectSkillPaths", [["a"]], "skills", 0, ["a"], "getSkillPaths", ["a"], "P"], ["setProjectPromptTemplatePaths", [["a"]], "prompts", 0, ["a"], "getPromptTemplatePaths", ["a"], "P"], ["setProjectThemePaths", [["a"]], "themes", 0, ["a"], "getThemePaths", ["a"], "P"],
];
const FULL = { zz: { a: [1] }, theme: "light", shellPath: "/s", catalogDir: "/k", npmCommand: ["n"], enabledModels: ["e"], compaction: { enabled: true, reserveTokens: 7, zz: 1 }, retry: { enabled: true, maxRetries: 9 }, terminal: { showImages: true, zz: 2 }, images: { autoResize: true, clipboardDirectory: "/c" }, fastMode: { q: true }, contextPolicy: { memory: { enabled: false }, enforcement: { enabled: true }, curation: { enabled: true } }, packages: ["p"], costGuard: { enabled: false }, defaultProvider: "o" };
const SINCE = { zz: { b: 2 }, yy: null, theme: "system", shellPath: "/t", npmCommand: ["n", "2"], enabledModels: [], compaction: { enabled: true, reserveTokens: 8, yy: 1 }, retry: { maxRetries: 8, provider: { timeoutMs: 1 } }, terminal: { showImages: true, imageWidthCells: 8 }, images: { blockImages: false }, fastMode: { q: true, r: false }, contextPolicy: { memory: { enabled: true }, enforcement: { minChars: 9 }, curation: { model: "k" }, zz: 1 }, skills: ["s"], costGuard: { enabled: true }, defaultModel: "n" };
const get = (m, g) => (typeof g === "string" ? m[g]() : g(m));
const BAD = ["{", "{\"theme\":\"light\"", "null", "5", "\"theme\"", "{}x", "\u0000", "true", "{\"theme\":\"light\",}"];
// what two sessions and an editor do: [setter, arguments, setting, nested key, value, scope]
const OPS = [["setTheme", ["dark"], "theme", 0, "dark"], ["setShellPath", [undefined], "shellPath", 0, undefined], ["setCompactionEnabled", [false], "compaction", "enabled", false], ["setFastModeEnabled", ["q", true], "fastMode", "q", true], ["setFastModeEnabled", ["r", false], "fastMode", "r", false], ["setProjectThemePaths", [["a"]], "themes", 0, ["a"], 1], ["setScoutSettings", [{ enabled: true }, "project"], "scout", 0, { enabled: true }, 1]];
const layers = (docs) => { const mix = (a, b) => { const out = { ...a }; for (const k of Object.keys(b)) { const x = a[k], y = b[k], o = (v) => typeof v === "object" && v !== null && !Array.isArray(v); out[k] = o(x) && o(y) ? mix(x, y) : y; } return out; }; return docs.reduce(mix, {}); };
export const cases = {
  setters: { covers: ["user", "project", "worker"], async run(S) {
    setup(S); const s = S.pick("setter", SETTERS), scope = s[7] === "P" ? "project" : s[7] === "p" && S.flag("project") ? "project" : "global", f = scope === "project" ? PJ : G, other = scope === "project" ? G : PJ, worker = S.flag("worker"), start = S.pick("start", ["none", "since", "same"]);
    if (start !== "none") put(f, FULL); const m = open(), old = { zz: 1 }; put(other, old); if (start === "since") put(f, SINCE); const was = start === "none" ? {} : start === "since" ? SINCE : FULL, raw = read(f); if (worker) S.env.procEnv.PI_SESSION_ROLE = "worker";
    const r = S.try(() => m[s[0]](...s[1], ...(s[7] === "p" ? [scope] : []))); S.assert(r.ok, "a setting cannot be changed"); S.assert(same(get(m, s[5]), s[6]), "a setting just changed is not in force"); await m.flush(); S.assert(m.drainErrors().length === 0, "a change of a setting fails"); S.assert(read(other) === JSON.stringify(old, null, 2), "a change of a setting changed the other file");
    if (worker) { S.assert(read(f) === raw, "a worker's session wrote the settings"); S.cover("worker"); return; }
    const now = doc(f), want = assign(was, s[2], s[3], s[4]); if (s[2] === "costGuard") want.costGuard.maxTurnUsd = now.costGuard?.maxTurnUsd; S.assert(same(now, want), "a change of one setting lost or changed another, or was not stored"); delete S.env.procEnv.PI_SESSION_ROLE; S.assert(same(get(open(), s[5]), s[6]), "a setting stored is not read back"); S.cover(scope === "project" ? "project" : "user");
  } },
  history: { covers: ["several", "together", "crashed", "failed", "stored later"], async run(S) {
    setup(S); const files = [G, PJ], docs = [FULL, { zz: 1, scout: { enabled: false } }]; put(G, docs[0]); put(PJ, docs[1]); const ms = [open(), open()], how = S.pick("how", ["live", "together", "crash", "fault"]), n = S.upto("steps", (how === "live" ? 3 : 2) + (S.thorough ? 1 : 0), 1), own = [{}, {}]; let cur = docs.map(clone); const used = new Set();
    for (let i = 0; i < n; i++) {
      S.now += 5; const last = i === n - 1, who = S.upto("who" + i, how === "live" || how === "together" ? 2 : i === 0 ? 1 : 0);
      if (who === 2) { const [k, v] = S.pick("edit" + i, [["yy", [1]], ["shellPath", "/w"], ["compaction", { reserveTokens: 3 }]]), scope = S.upto("file" + i, 1); if (how === "together") return; cur[scope] = { ...cur[scope], [k]: v }; put(files[scope], cur[scope]); S.cover("several"); continue; }
      const o = S.pick("op" + i, OPS), key = o[2] + "/" + o[3], scope = o[5] ? 1 : 0, c = last && how === "crash" ? crash(S, 8, { cuts: true }) : undefined, fl = last && how === "fault" ? fault(S, 5, ["ENOSPC"]) : undefined; if (how === "together") { if (used.has(key)) return; used.add(key); }
      const before = cur.map(clone); cur[scope] = assign(cur[scope], o[2], o[3], o[4]); ms[who][o[0]](...o[1]); if (how !== "together") await ms[who].flush();
      if (c) { const dead = c.end(); if (!dead) return; S.cover("crashed"); const got = files.map(doc); S.assert(got.every((g, j) => same(g, before[j]) || (j === scope && same(g, cur[j]))), "after a crash the settings are neither as before nor as after"); const m = open(); m.setTheme("x"); await m.flush(); S.assert(m.drainErrors().length === 0 && doc(G).theme === "x", "after a crash settings can no longer be changed"); return; }
      if (fl) { fl.end(); if (!fl.hit) return; S.now += 120000; S.cover("failed"); const got = files.map(doc), stored = same(got[scope], cur[scope]); if (same(before[scope], cur[scope])) return; S.assert(same(got[1 - scope], cur[1 - scope]) && (stored || same(got[scope], before[scope])), "after a failed write the settings are neither as before nor as after"); if (!stored) { S.assert(ms[who].drainErrors().length === 1, "a change of a setting that could not be stored is not reported"); const next = scope ? ["setProjectSkillPaths", [["k"]], "skills", ["k"]] : ["setQuietStartup", [true], "quietStartup", true]; ms[who][next[0]](...next[1]); await ms[who].flush(); cur[scope] = assign(cur[scope], next[2], 0, next[3]); S.assert(same(doc(files[scope]), cur[scope]), "a change that could not be stored is forgotten when the next one is stored"); S.cover("stored later"); } return; }
      if (how === "live") { S.assert(ms[who].drainErrors().length === 0 && files.every((f, j) => same(doc(f), cur[j])), "the settings files do not hold what was last set"); if (i > 0) S.cover("several"); }
    }
    if (how === "together") { await Promise.all(ms.map((m) => m.flush())); S.assert(ms.every((m) => m.drainErrors().length === 0) && files.every((f, j) => same(doc(f), cur[j])), "of changes made together some are lost"); if (n > 1) S.cover("together"); }
    const m = open(); S.assert(same(m.getGlobalSettings(), cur[0]) && same(m.getProjectSettings(), cur[1]), "the settings read are not those stored");
  } },
  first: { covers: ["both", "alone"], async run(S) {
    setup(S); const scope = S.upto("scope", 1), f = [G, PJ][scope], at = S.upto("at", 8), m = open(); let n = 0, done = false; if (scope || S.flag("dir")) fs.mkdirSync(f.slice(0, f.lastIndexOf("/")), { recursive: true });
    // another session stores its first setting here, under the lock, whenever nobody holds it
    S.fs.S.hook = (op, path) => { if (n++ !== at || fs.existsSync(f + ".lock")) return; S.fs.S.hook = null; const r = S.try(() => put(f, { other: 1 })); done = r.ok; };
    if (scope) m.setProjectThemePaths(["a"]); else m.setTheme("dark"); await m.flush(); S.fs.S.hook = null; S.assert(m.drainErrors().length === 0, "a change of a setting fails"); const now = doc(f); S.assert(scope ? same(now.themes, ["a"]) : now.theme === "dark", "a setting is not stored"); if (done) { S.assert(now.other === 1, "the first setting of another session is lost"); S.cover("both"); } else S.cover("alone");
  } },
  damage: { covers: ["kept", "mended"], async run(S) {
    setup(S); const scope = S.upto("scope", 1), f = [G, PJ][scope], bad = S.pick("bad", BAD), late = S.flag("late"); put(f, late ? { theme: "light", zz: 1 } : bad); put([PJ, G][scope], { yy: 1 }); const m = open(), sofar = m.drainErrors().filter((e) => e.scope === (scope ? "project" : "global")).length; S.assert(sofar === (late ? 0 : 1), "a damaged settings file is not reported, or a sound one is"); if (late) { put(f, bad); if (S.flag("reload")) { await m.reload(); S.assert(m.drainErrors().length === 1 && m.getTheme() === "light", "settings that cannot be read again are not kept as they were"); } }
    const set = () => (scope ? m.setProjectThemePaths(["a"]) : m.setQuietStartup(true)); set(); await m.flush(); S.assert(read(f) === bad, "a damaged settings file was written over"); S.assert(scope ? same(m.getThemePaths(), ["a"]) : m.getQuietStartup() === true, "a setting just changed is not in force"); S.cover("kept");
    S.now += 120000; put(f, { theme: "light", zz: 2 }); await m.reload(); m.drainErrors(); set(); await m.flush(); S.assert(same(doc(f), scope ? { theme: "light", zz: 2, themes: ["a"] } : { theme: "light", zz: 2, quietStartup: true }), "a settings file that was mended can no longer be changed"); S.cover("mended");
  } },
  layers: { covers: ["merged", "old names"], async run(S) {
    setup(S); if (S.flag("old")) {
      const d = { zz: 1 }, want = { zz: 1 }; if (S.flag("queue")) { d.queueMode = "all"; want.steeringMode = "all"; if (S.flag("steer")) { d.steeringMode = "one-at-a-time"; want.steeringMode = "one-at-a-time"; } } const ws = S.pick("ws", [undefined, true, false]); if (ws !== undefined) { d.websockets = ws; want.transport = ws ? "websocket" : "sse"; if (S.flag("transport")) { d.transport = "auto"; want.transport = "auto"; } } const sk = S.pick("skills", [undefined, {}, { enableSkillCommands: false }, { customDirectories: ["k"] }, { enableSkillCommands: false, customDirectories: ["k"] }]); if (sk) { d.skills = sk; if (sk.enableSkillCommands !== undefined) want.enableSkillCommands = false; if (sk.customDirectories) want.skills = ["k"]; } const rt = S.pick("retry", [undefined, { maxDelayMs: 5 }, { maxDelayMs: 5, maxRetries: 1, provider: { timeoutMs: 2 } }, { maxDelayMs: 5, provider: { maxRetryDelayMs: 6 } }]); if (rt) { d.retry = rt; const { maxDelayMs, ...rest } = rt; want.retry = { ...rest, provider: { maxRetryDelayMs: 5, ...rt.provider } }; }
      put(G, d); const m = open(), pickd = (s) => { const { queueMode, websockets, ...r } = s; return r; }; S.assert(same(pickd(m.getGlobalSettings()), want), "an old name of a setting is not understood"); m.setQuietStartup(true); await m.flush(); S.assert(same(pickd(doc(G)), { ...want, quietStartup: true }), "settings under old names are lost when another is stored"); S.assert(same(pickd(open().getGlobalSettings()), { ...want, quietStartup: true }), "settings under old names are lost"); S.cover("old names"); return; }
    const part = (w) => { const d = {}; const t = S.pick("theme" + w, [undefined, "light" + w]); if (t) d.theme = t; const c = S.pick("compaction" + w, [undefined, {}, { enabled: w === "u" }, { reserveTokens: 5 }, { enabled: w === "u", reserveTokens: 6 }]); if (c) d.compaction = c; const r = S.pick("retry" + w, [undefined, { provider: { timeoutMs: 1 } }, { maxRetries: 2, provider: { maxRetries: 3 } }]); if (r) d.retry = r; const k = S.pick("list" + w, [undefined, [], ["x" + w]]); if (k) d.packages = k; return d; };
    const u = part("u"), p = part("p"), trusted = S.flag("trusted"); put(G, u); put(PJ, p); const m = open(trusted), want = layers(trusted ? [u, p] : [u]), { settings } = m; S.assert(same(settings, want), "the settings in force are not the user's with the trusted project's over them"); S.assert(m.getTheme() === want.theme && m.getCompactionEnabled() === (want.compaction?.enabled ?? true) && same(m.getPackages(), want.packages ?? []) && m.getProviderRetrySettings().timeoutMs === want.retry?.provider?.timeoutMs && m.getRetrySettings().maxRetries === (want.retry?.maxRetries ?? 3), "a setting in force is not the one of the nearest file"); S.cover("merged");
  } },
  trust: { covers: ["untrusted", "trusted", "refused", "withdrawn"], async run(S) {
    setup(S); put(G, { theme: "light", zz: 1 }); put(PJ, { theme: "evil", shellPath: "/evil", npmCommand: ["evil"], compaction: { enabled: false }, fastMode: { q: true }, zz: 2 }); let trusted = S.flag("start"), touched = false; S.fs.S.hook = (op, path) => { if (path && (path === PJ || path.startsWith(PJ + "."))) touched = true; };
    const m = open(trusted), n = S.upto("steps", 3 + (S.thorough ? 1 : 0), 1); let user = { theme: "light", zz: 1 }, proj = doc(PJ), mine = clone(proj), snap; touched = touched && trusted;
    const agree = (t) => { S.assert(m.isProjectTrusted() === trusted, "the trust of a project is not what was decided"); S.assert(same(m.settings, layers(trusted ? [user, mine] : [user])), trusted ? "a trusted project's settings are not in force" : "an untrusted project's settings are in force"); S.assert(trusted || same(m.getProjectSettings(), {}), "an untrusted project's settings are shown"); if (!trusted) S.assert(!touched, "an untrusted project's settings are read or written"); S.cover(trusted ? "trusted" : "untrusted"); };
    agree(); for (let i = 0; i < n; i++) { touched = false; const what = S.pick("what" + i, ["trust", "distrust", "reload", "user", "project", "queued", "snapshot", "restore"]);
      if (what === "trust") { if (trusted) return; trusted = true; mine = clone(proj); m.setProjectTrusted(true); } else if (what === "distrust") { if (!trusted) return; trusted = false; m.setProjectTrusted(false); }
      else if (what === "reload") { if (i === n - 1 || S.flag("edited" + i)) { const b = touched; proj.shellPath = "/new"; put(PJ, proj); touched = b; } mine = clone(proj); await m.reload(); } else if (what === "user") { m.setQuietStartup(true); user.quietStartup = true; await m.flush(); }
      else if (what === "project") { const op = S.pick("setter" + i, [["setProjectThemePaths", [["a"]], "themes", ["a"]], ["setScoutSettings", [{ enabled: true }, "project"], "scout", { enabled: true }], ["setProjectContextFiles", ["on-demand", "project"], "projectContextFiles", "on-demand"]]), r = S.try(() => m[op[0]](...op[1])); await m.flush(); S.assert(r.ok === trusted, "a setting of an untrusted project is changed, or one of a trusted project is not"); if (trusted) { mine[op[2]] = op[3]; proj[op[2]] = op[3]; } else S.cover("refused"); }
      else if (what === "queued") { if (!trusted) return; const b = doc(PJ); m.setProjectSkillPaths(["k"]); m.setProjectTrusted(false); trusted = false; touched = false; await m.flush(); S.assert(same(doc(PJ), b), "a project's settings are written after trust was withdrawn"); touched = false; S.cover("withdrawn"); }
      else if (what === "snapshot") { if (snap) return; snap = { s: m.createReloadSnapshot(), trusted, user: clone(user), mine: clone(mine) }; } else { if (!snap) return; m.restoreReloadSnapshot(snap.s); trusted = snap.trusted; user = clone(snap.user); mine = clone(snap.mine); }
      agree(); { const b = touched; S.fs.S.hook = null; const now = doc(PJ); S.assert(same(now, proj), "a project's settings are not what was stored"); S.fs.S.hook = (op, path) => { if (path && (path === PJ || path.startsWith(PJ + "."))) touched = true; }; touched = b; }
      if (what === "restore") return; }
  } },
  store: { covers: ["decided", "crashed", "failed", "damaged"], async run(S) {
    setup(S); for (const d of ["/p", "/p/sub", "/q"]) fs.mkdirSync(d, { recursive: true }); fs.symlinkSync("/p", "/lnk"); const f = stateFile(AD, "trust.json"), NAMES = ["/p", "/p/sub/..", "/lnk", "/q", "/p/sub"], real = { "/p": "/p", "/p/sub/..": "/p", "/lnk": "/p", "/q": "/q", "/p/sub": "/p/sub" }, ro = new ProjectTrustStore(AD, { readOnly: true });
    if (S.flag("damaged")) { const bad = S.pick("bad", ["{", "", "null", "5", "[]", "{\"/p\":1}", "{\"/p\":\"true\"}", "{\"/q\":true,\"/p\":{}}", "{\"/p\":true"]); put(f, bad); for (const s of [ro, new ProjectTrustStore(AD)]) { const r = S.try(() => s.get("/p")); S.assert(!r.ok || r.value === null, "a damaged record of decisions gives trust"); } S.try(() => new ProjectTrustStore(AD).set("/q", true)); S.assert(read(f) === bad, "a damaged record of decisions was written over"); S.cover("damaged"); return; }
    const stores = [new ProjectTrustStore(AD), new ProjectTrustStore(AD)], how = S.pick("how", ["live", "crash", "fault"]), n = S.upto("steps", (how === "live" ? 3 : 2) + (S.thorough ? 1 : 0), 1); let cur = {}; const got = (s) => NAMES.map((d) => s.get(d)), want = (c) => NAMES.map((d) => c[real[d]] ?? null);
    for (let i = 0; i < n; i++) { S.now += 5; const last = i === n - 1, dir = S.pick("dir" + i, NAMES), d = S.pick("decision" + i, [true, false, null]), c = last && how === "crash" ? crash(S, 8, { cuts: true }) : undefined, fl = last && how === "fault" ? fault(S, 5, ["ENOSPC"]) : undefined, before = { ...cur }; if (d === null) delete cur[real[dir]]; else cur[real[dir]] = d; const r = S.try(() => stores[i % 2].set(dir, d));
      if (c || fl) { const hit = c ? c.end() : fl.hit; if (fl) fl.end(); if (!hit) return; S.now += 120000; S.cover(c ? "crashed" : "failed"); const g = JSON.stringify(got(new ProjectTrustStore(AD))); S.assert((!(fl && r.ok) && g === JSON.stringify(want(before))) || g === JSON.stringify(want(cur)), "after a crash or a failed write the decisions are neither as before nor as after"); return; }
      S.assert(r.ok, "a decision is refused"); S.try(() => ro.set(dir, true)); for (const s of [...stores, ro]) S.assert(JSON.stringify(got(s)) === JSON.stringify(want(cur)), "a decision of trust holds for another directory, or not for its own"); S.cover("decided"); }
  } },
  inputs: { covers: ["asks", "asks not"], async run(S) {
    setup(S); for (const d of ["/h/w/p/sub", "/h/x"]) fs.mkdirSync(d, { recursive: true }); const dir = S.pick("dir", ["/", "/h", "/h/w", "/h/w/p", "/h/w/p/sub", "/h/x"]), what = S.pick("what", [".pi/settings.json", ".pi/extensions/x.ts", "AGENTS.md", "AGENTS.MD", "CLAUDE.md", "CLAUDE.MD", "GEMINI.md", "GEMINI.MD", ".agents/skills/s.md", "README.md", ".agents/x", "xAGENTS.md"]), at = (dir === "/" ? "" : dir) + "/" + what; put(at, "x"); const cwd = S.pick("cwd", ["/h/w/p", "/h/w/p/", "/h/w/../w/p"]), above = ["/", "/h", "/h/w", "/h/w/p"].includes(dir), want = what.startsWith(".pi") ? dir === "/h/w/p" : !/^(README|\.agents\/x|xA)/.test(what) && above; S.assert(hasProjectTrustInputs(cwd) === want, "a project that steers the agent is taken for one that does not, or the reverse"); S.cover(want ? "asks" : "asks not");
  } },
};
