import { S } from "symex";
import fs from "node:fs";
import { applyContextGc, getContextGcSettings } from "@repo/packages/coding-agent/src/core/context-gc.ts";
import { crash, fault } from "./lib/fault.js";

export const meta = {
  bounds: ["up to 3 (thorough 4) turns of 17 shapes: reads of two files under two names each, commands, other tools, eligible or not, short and long, with images, memory pages, citations, questions; 0 to 3 recent messages and 0 to 2 recent pages kept", "one old result cited or not in 20 ways, with 0 to 9 answers since", "the store absent, relative, unwritable, failing or crashing at any step, already holding the text, acquired late, or not to be written", "limits of -1 to 5, fractional, absent", "digests given or not"],
  outside: ["how many tokens a text has", "the packing of long outputs into artifacts (P25)"],
  assumptions: ["SHA-256 does not collide in its first 24 digits"],
};
const usage = { input: 0, output: 0, cacheRead: 0, cacheWrite: 0, totalTokens: 0, cost: { input: 0, output: 0, cacheRead: 0, cacheWrite: 0, total: 0 } };
const said = (text, thinking) => ({ role: "assistant", content: [thinking ? { type: "thinking", thinking: text } : { type: "text", text }], api: "x", provider: "p", model: "m", usage, stopReason: "stop", timestamp: 0 });
const call = (id, name, args) => ({ ...said(""), content: [{ type: "toolCall", id, name, arguments: args }], stopReason: "toolUse" });
const result = (id, name, text, more) => ({ role: "toolResult", toolCallId: id, toolName: name, content: [{ type: "text", text }, ...(more ?? [])], isError: false, timestamp: 0, details: { kept: 1 } });
const page = (customType, text) => ({ role: "custom", customType, content: text, display: false, timestamp: 0 });
const LONG = (k) => "text " + k + " " + "z".repeat(30), CW = "/w", DIR = "/store", MIN = 20;
const PIC = { type: "image", data: "AAAA", mimeType: "image/png" };
// each turn: what it adds to the conversation
const TURNS = {
  readA: (i) => [call("c" + i, "read", { path: "src/alpha.ts" }), result("c" + i, "read", LONG(i))], readA2: (i) => [call("c" + i, "read", { path: " /w/src/alpha.ts " }), result("c" + i, "read", LONG(i))], readB: (i) => [call("c" + i, "read", { path: "beta.md", offset: 3 }), result("c" + i, "read", LONG(i))], readShort: (i) => [call("c" + i, "read", { path: "src/../src/alpha.ts" }), result("c" + i, "read", "short")], readLost: (i) => [result("c" + i, "read", LONG(i))],
  bash: (i) => [call("c" + i, "bash", { command: "npm test --watch" }), result("c" + i, "bash", LONG(i))], exact: (i) => [call("c" + i, "bash", { command: "ls" }), result("c" + i, "bash", "y".repeat(MIN))], below: (i) => [call("c" + i, "bash", { command: "ls" }), result("c" + i, "bash", "y".repeat(MIN - 1))], pic: (i) => [call("c" + i, "bash", { command: "ls" }), result("c" + i, "bash", LONG(i), [PIC])],
  edit: (i) => [call("c" + i, "edit", { path: "src/alpha.ts" }), result("c" + i, "edit", LONG(i))], user: (i) => [{ role: "user", content: LONG(i) + " npm test alpha.ts", timestamp: 0 }], saysA: () => [said("see alpha.ts")], thinks: () => [said("run npm test again", true)],
  memory: (i) => [page("memory_recall", "<memory_context> " + LONG(i))], memoryParts: (i) => [{ ...page("mind", ""), content: [{ type: "text", text: "<memory" }, { type: "text", text: "x<memory_context" }, { type: "text", text: LONG(i) }] }], memoryShort: () => [page("memory_recall", "<memory_context>")], plain: (i) => [page("notice", "<memory_context> " + LONG(i))], recalled: (i) => [call("c" + i, "recall", {}), result("c" + i, "recall", "<memory_context> " + LONG(i))],
};
const norm = (p) => { if (typeof p !== "string" || p.trim() === "") return undefined; const parts = []; for (const s of (p.trim().startsWith("/") ? p.trim() : CW + "/" + p.trim()).split("/")) if (s === "..") parts.pop(); else if (s && s !== ".") parts.push(s); return "/" + parts.join("/"); };
const textOf = (m) => (typeof m.content === "string" ? m.content : m.content.map((p) => (p.type === "text" ? p.text : p.type === "image" ? "[image " + p.mimeType + "]" : "")).filter((t, j) => m.role !== "toolResult" || t).join("\n"));
const TOOLS = ["read", "bash", "find"];
const check = (S, list, settings, why) => {
  const before = JSON.stringify(list), seen = [], { messages: out, report } = applyContextGc(list, { ...settings, curation: settings.curation ? { resolveDigest: settings.curation.resolveDigest, onPacked: (r, t) => seen.push([r.key, t]) } : undefined });
  S.assert(JSON.stringify(list) === before, "the conversation itself is changed"); S.assert(out.length === list.length, "a message is dropped or added"); let n = 0;
  list.forEach((m, j) => { const o = out[j], w = why(m, j); if (!w) { S.assert(o === m, "a message is packed that is recent, short, the latest of its kind, cited or not of a kind that is packed"); return; }
    S.assert(o !== m, "a stale result or page is not packed"); const r = report.records[n++], text = textOf(m), stub = o.content.length === 1 && o.content[0].type === "text" ? o.content[0].text : ""; S.assert(r && r.messageIndex === j && r.reason === w && r.originalChars === text.length, "the report does not tell what was packed");
    S.assert(o.role === m.role && o.toolCallId === m.toolCallId && o.toolName === m.toolName && o.isError === m.isError && o.customType === m.customType && o.timestamp === m.timestamp && (m.role !== "toolResult" || o.details.kept === 1) && o.details.contextGc.packed === true, "a packed message is no longer the answer to its call"); S.assert(!stub.includes("z".repeat(30)) && stub.includes(String(text.length)), "a packed message still holds its text, or does not say how much was left out");
    if (r.storagePath !== undefined) { S.assert(stub.includes(r.storagePath), "the place of the exact text is not told"); if (settings.writePayloads !== false) S.assert(fs.existsSync(r.storagePath) && fs.readFileSync(r.storagePath, "utf8") === text, "the exact text cannot be read where the packed message says it is"); } else S.assert(!stub.includes("exact old text: read"), "a packed message names a place where nothing is");
    if (settings.curation) { S.assert(seen.some(([k, t]) => k === r.key && t === text), "the text packed is not given to the curator"); const d = settings.curation.resolveDigest(r.key); S.assert(d === undefined ? !stub.includes("digest") : stub.includes(d), "a digest is not shown as it was given"); } });
  S.assert(report.records.length === n && report.packedCount === n && report.originalTokens === report.records.reduce((a, r) => a + r.originalTokens, 0) && report.packedTokens === report.records.reduce((a, r) => a + r.packedTokens, 0) && report.savedTokens === Math.max(0, report.originalTokens - report.packedTokens), "the report does not add up"); return { out, report };
};
export const cases = {
  turns: { covers: ["superseded-read", "stale-tool-result", "stale-semantic-memory", "nothing"], run(S) {
    fs.mkdirSync(DIR); const n = S.upto("turns", 3 + (S.thorough ? 1 : 0), 1), list = []; for (let i = 0; i < n; i++) list.push(...TURNS[S.pick("turn" + i, Object.keys(TURNS))](i)); const pages = S.upto("pages", n > 2 ? 1 : 2), recent = S.upto("recent", n > 2 ? 1 : 3), semantic = n < 3 ? S.flag("semantic") : true;
    const settings = { cwd: CW, storageDir: DIR, preserveRecentMessages: recent, minToolResultChars: MIN, tools: TOOLS, semanticMemory: { enabled: semantic, preserveRecentPages: pages, minChars: 25, markers: ["<memory_context"] } }, isPage = (m) => semantic && textOf(m).includes("<memory_context") && (m.role === "toolResult" || m.customType === "memory_recall" || m.customType === "mind"), marked = list.map((m, j) => (isPage(m) ? j : -1)).filter((j) => j >= 0), kept = pages ? marked.slice(-pages) : [];
    const args = (m) => list.flatMap((x) => (x.role === "assistant" ? x.content : [])).find((p) => p.type === "toolCall" && p.id === m.toolCallId)?.arguments ?? {}, latest = {}; for (const m of list) if (m.role === "toolResult" && m.toolName === "read" && norm(args(m).path)) latest[norm(args(m).path)] = m.toolCallId; const spoken = list.filter((m) => m.role === "assistant").flatMap((m) => m.content).map((p) => p.text ?? p.thinking ?? "").join("\n");
    const why = (m, j) => { if (j >= list.length - recent) return; if (marked.includes(j) && !kept.includes(j) && textOf(m).length >= 25) return "stale-semantic-memory"; if (m.role !== "toolResult" || !TOOLS.includes(m.toolName) || textOf(m).length < MIN) return; const a = args(m), p = norm(a.path); if (m.toolName === "read" && p) return latest[p] === m.toolCallId ? undefined : "superseded-read"; if (a.command?.startsWith("npm test") && spoken.includes("npm test")) return; return "stale-tool-result"; };
    const { report, out } = check(S, list, settings, why); for (const r of report.records) S.cover(r.reason); if (!report.records.length) { S.assert(out === list, "a conversation with nothing to pack is copied"); S.cover("nothing"); return; } const again = applyContextGc(list, settings); S.assert(JSON.stringify(again) === JSON.stringify({ messages: out, report }), "the same conversation is packed in two ways"); const names = report.records.map((r) => r.storagePath); S.assert(new Set(names).size === names.length, "two texts share a place"); if (n < 3) S.assert(applyContextGc(list, { ...settings, enabled: false }).messages === list, "packing that is off packs");
  } },
  cited: { covers: ["cited", "not cited", "too long ago"], run(S) {
    const FOUND = [["find", { path: "src/alpha.ts" }, "look at alpha.ts:", true], ["find", { path: "src/alpha.ts" }, "look at alpha.t", false], ["find", { path: "src/lib" }, "the lib is", false], ["find", { path: "src/lib" }, "the /w/src/lib is", true], ["find", { path: "src/library" }, "our library is", true], ["bash", { command: "cargo build --release" }, "cargo build failed", true], ["bash", { command: "cargo build --release" }, "--release failed", false], ["bash", { command: "cd x && ./run.sh -v" }, "in run.sh it", true], ["bash", { command: "a b" }, "a b", false], ["bash", { command: "ab cde" }, "ab cde", true], ["bash", { command: "cat 'out/report.txt';" }, "the report.txt says", true], ["bash", { command: "make" }, "make", false], ["bash", { command: "pytest" }, "pytest says", true], ["bash", { code: "import pandas" }, "pandas says", true], ["bash", { scriptPath: "tools/gen.py" }, "gen.py says", true], ["bash", { executable: "cargo", args: ["check", 3, "--all"] }, "cargo check says", true], ["bash", { command: "x".repeat(201) }, "x".repeat(201), false], ["bash", { command: "x".repeat(200) }, "x".repeat(200), true], ["bash", {}, "anything", false], ["bash", { command: "true | grep widget" }, "grep widget", true]];
    fs.mkdirSync(DIR); const [name, args, words, hit] = S.pick("way", FOUND), who = S.pick("who", ["answer", "thought", "user", "no one"]), since = S.upto("since", 9), list = [call("c0", name, args), result("c0", name, LONG(0)), who === "user" ? { role: "user", content: words, timestamp: 0 } : who === "no one" ? said("well") : said(words, who === "thought")]; for (let k = 0; k < since; k++) list.push(said(k % 2 ? "" : "ok", k % 3 === 0)); const settings = { cwd: CW, storageDir: DIR, preserveRecentMessages: 0, minToolResultChars: MIN, tools: TOOLS };
    const cited = hit && (who === "answer" || who === "thought"), holds = cited && since < 8; check(S, list, settings, (m, j) => (j === 1 && !holds ? "stale-tool-result" : undefined)); S.cover(holds ? "cited" : cited ? "too long ago" : "not cited");
  } },
  store: { covers: ["stored", "not stored", "failed", "crashed", "again"], run(S) {
    const list = [...TURNS.bash(0), ...TURNS.memory(1), page("memory_recall", "<memory_context> last")], how = S.pick("how", ["plain", "none", "relative", "late", "late fails", "not written", "fault", "crash", "held"]), settings = { cwd: CW, storageDir: how === "none" ? undefined : how === "relative" ? "store" : DIR, preserveRecentMessages: 0, minToolResultChars: MIN, tools: TOOLS, semanticMemory: { minChars: 25, markers: ["<memory_context"] }, ...(S.flag("digests") ? { curation: { resolveDigest: (k) => (k < "8" ? "<fenced> " + k : undefined) } } : {}) }; const why = (m, j) => (j === 1 ? "stale-tool-result" : j === 2 ? "stale-semantic-memory" : undefined); if (how !== "late") fs.mkdirSync(DIR); let asked = 0;
    if (how.startsWith("late")) { settings.acquireStorageDir = () => { asked++; if (how === "late fails") throw new Error("no lease"); fs.mkdirSync("/leased", { recursive: true }); return "/leased"; }; } if (how === "not written") { settings.writePayloads = false; settings.acquireStorageDir = () => { asked++; return DIR; }; }
    if (how === "crash") { const c = crash(S, 8, { cuts: true }); S.try(() => applyContextGc(list, settings)); if (!c.end()) return; S.cover("crashed"); check(S, list, settings, why); return; } const f = how === "fault" ? fault(S, 8, ["ENOSPC", "EACCES"]) : undefined; if (f) { const r = S.try(() => applyContextGc(list, settings)); f.end(); if (!f.hit) return; S.assert(r.ok, "a store that fails ends the turn"); S.now += 120000; for (const rec of r.value.report.records) if (rec.storagePath) { const text = textOf(list[rec.messageIndex]); S.assert(fs.existsSync(rec.storagePath) && fs.readFileSync(rec.storagePath, "utf8") === text, "a packed message names a place where its exact text is not"); } S.assert(r.value.messages.every((m) => m.role !== "toolResult" || m.content[0].text.includes("exact old text")), "a packed message does not say where its text is"); S.cover("failed"); check(S, list, settings, why); return; }
    if (how === "held") { check(S, list, settings, why); const all = fs.readdirSync(DIR).map((n) => [n, fs.statSync(DIR + "/" + n).ino]); check(S, list, settings, why); S.assert(JSON.stringify(fs.readdirSync(DIR).map((n) => [n, fs.statSync(DIR + "/" + n).ino])) === JSON.stringify(all), "a text stored already is stored again"); S.cover("again"); return; }
    const { report } = check(S, list, settings, why), paths = report.records.map((r) => r.storagePath); S.assert(paths.every((p) => (how === "none" || how === "relative" || how === "late fails" ? p === undefined : p.startsWith(how === "late" ? "/leased/" : DIR + "/"))), "a text is stored elsewhere than told"); if (how === "not written") S.assert(asked === 0 && fs.readdirSync(DIR).length === 0, "a preview stores texts"); S.assert(!fs.existsSync(CW + "/store"), "a text is stored in the project"); if (how === "late") S.assert(asked === 2, "the store is not acquired for what is stored"); S.cover(paths[0] ? "stored" : "not stored");
    if (how === "late") { const calls = asked; applyContextGc([TURNS.user(0)[0]], settings); S.assert(asked === calls, "a store is acquired for nothing"); }
  } },
  limits: { covers: ["some", "none"], run(S) {
    const v = (name) => S.pick(name, [undefined, -1, 0, 1.9, 2, 5]), recent = v("recent"), pages = v("pages"), min = v("min"), list = [...TURNS.bash(0), ...TURNS.exact(1), ...[1, 2, 3].map((k) => page("memory_recall", "<memory_context> " + LONG(k)))], s = getContextGcSettings({ preserveRecentMessages: recent, minToolResultChars: min, semanticMemory: { preserveRecentPages: pages } }), clean = (x, d) => (x === undefined ? d : Math.max(0, Math.floor(x))), k = clean(recent, 24), p = clean(pages, 1), m = clean(min, 1200);
    S.assert(s.enabled === true && s.preserveRecentMessages === k && s.minToolResultChars === m && s.semanticMemory.preserveRecentPages === p && s.tools.includes("read"), "a limit that makes no sense is used"); fs.mkdirSync(DIR); check(S, list, { cwd: CW, storageDir: DIR, preserveRecentMessages: recent, minToolResultChars: min, semanticMemory: { preserveRecentPages: pages, minChars: 3 } }, (x, j) => (j >= list.length - k ? undefined : x.role === "toolResult" ? (textOf(x).length >= m ? "stale-tool-result" : undefined) : x.role === "custom" && j < 7 - p ? "stale-semantic-memory" : undefined)); S.cover(k < 5 ? "some" : "none");
  } },
};
