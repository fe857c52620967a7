// Checkpoints: the request and the rules a user gave survive compaction word for word, with the paths and open failures, whatever the model wrote.
import { S } from "symex";
import { SessionManager } from "@repo/packages/agent/src/session/session-manager.ts";
import { prepareCompaction, createDeterministicCompaction, compact } from "@repo/packages/agent/src/compaction/compaction.ts";

export const meta = {
  bounds: ["requests of up to 4 (thorough 5) characters over heading marks, blanks, backslashes, newlines and a letter, and one longer than the 4000 characters that are kept", "two rules of a verb and three words, each from three words", "paths and shell commands of up to 4 (thorough 5) characters over separators, newlines and heading marks", "model summaries with or without each section, with wrong, partial or contradicting content, and the same on a second attempt", "two compactions in a row"],
  outside: ["the prose of a model's summary beyond the facts named in the property"],
  assumptions: [],
};
const usage = { input: 1, output: 1, cacheRead: 0, cacheWrite: 0, totalTokens: 2, cost: { input: 0, output: 0, cacheRead: 0, cacheWrite: 0, total: 0 } };
const AS = (content) => ({ role: "assistant", content, api: "a", provider: "p", model: "m", stopReason: "stop", usage: undefined, timestamp: 1 });
const model = { id: "m", provider: "p", api: "a", contextWindow: 200000, maxTokens: 8000, cost: { input: 0, output: 0, cacheRead: 0, cacheWrite: 0 } };
const settings = { enabled: true, reserveTokens: 12000, triggerPercent: 0, keepRecentTokens: 1 };
const U = (m, t) => m.appendMessage({ role: "user", content: t, timestamp: 1 });
let serial = 0;
const did = (m, name, args, text = "ok", isError = false) => { const id = "c" + serial++; m.appendMessage(AS([{ type: "toolCall", id, name, arguments: args }])); m.appendMessage({ role: "toolResult", toolCallId: id, toolName: name, content: [{ type: "text", text }], isError, timestamp: 1 }); };
let asked = [];
async function checkpoint(S, m, summaries) {
  asked = [];
  m.appendMessage(AS([{ type: "text", text: "done now" }]));
  const p = prepareCompaction(m.getBranch(), settings);
  if (summaries === "none") { const r = createDeterministicCompaction(p); m.appendCompaction(r.summary, r.firstKeptEntryId, r.tokensBefore, r.details); return r; }
  let n = 0;
  const r = await S.tryAsync(() => compact(p, model, "k", undefined, undefined, undefined, "off", undefined, undefined, { completion: async (_model, context) => (asked.push(JSON.stringify(context)), { ...AS([{ type: "text", text: summaries[Math.min(n++, summaries.length - 1)] }]), usage }) }));
  if (!r.ok) { S.assert(String(r.error.message).startsWith("gate-failed"), "compaction failed for another reason than its verification"); return undefined; }
  m.appendCompaction(r.value.summary, r.value.firstKeptEntryId, r.value.tokensBefore, r.value.details);
  return r.value;
}
// the reader's view of a checkpoint: headings at the start of a line, bodies below them
function read(summary) {
  const out = new Map(); let cur;
  for (const line of summary.split("\n")) { const h = /^(##|###)\s+(\S.*?)\s*$/.exec(line); if (h) { cur = h[2].toLowerCase(); if (!out.has(cur)) out.set(cur, []); out.get(cur).push([]); } else if (cur) out.get(cur).at(-1).push(line); }
  return out;
}
const blocks = (s, h) => (read(s).get(h) ?? []).map((b) => b.join("\n"));
const tidy = (t) => t.replaceAll("\r\n", "\n").split("\n").map((l) => l.trimEnd()).join("\n").trim();
function activeTask(S, summary, request, label) {
  const b = blocks(summary, "active task");
  S.assert(b.length === 1, label + ": not exactly one active request");
  const text = b[0].split("\n").map((l) => (/^\\+(##|###)\s/.test(l) ? l.slice(1) : l)).join("\n");
  S.assert(tidy(text) === tidy("User: " + request), label);
}
const skeleton = (o = {}) => ["## Active Task", o.task ?? "something else", "### Mandatory Rules", o.rules ?? "(none)", "## Working Set", o.ws ?? "(none)", "## Files", o.files ?? "(none)", "## Done", o.done ?? "(none)"].join("\n");
const whole = (body, path) => body.split("\n").some((l) => { for (let at = l.indexOf(path); at >= 0; at = l.indexOf(path, at + 1)) { const a = l[at - 1], z = l[at + path.length]; const edge = (c) => c === undefined || !/[A-Za-z0-9_./-]/.test(c); if (edge(a) && edge(z)) return true; } return false; });
export const cases = {
  request: { covers: ["accepted", "heading"], async run(S) {
    const m = SessionManager.inMemory("/w");
    U(m, "older request");
    const req = S.conc(S.str("req", { min: 1, max: S.thorough ? 5 : 4, of: "# \n\\a" }));
    U(m, req);
    if (/^#+ /m.test(req)) S.cover("heading");
    const how = S.pick("model", ["wrong", "no task section", "headings only"]);
    const r = await checkpoint(S, m, [how === "wrong" ? skeleton() : how === "headings only" ? "## Active Task\n## Active Task\n### Steps\nx" : "## Done\n1. RUN x"]);
    S.assert(r, "a usable summary whose gaps can be filled is rejected");
    S.cover("accepted");
    if (req.trim()) activeTask(S, r.summary, req, "the latest request is not in the checkpoint word for word");
  } },
  long: { covers: ["cut"], async run(S) {
    const m = SessionManager.inMemory("/w"), n = S.pick("n", [3999, 4000, 4001, 9000]);
    const req = "x".repeat(n - 1) + "y";
    U(m, req);
    const r = await checkpoint(S, m, S.flag("model") ? [skeleton()] : "none");
    S.cover("cut");
    S.assert(r && r.summary.includes("User: " + req.slice(0, 4000)), "the beginning of a long request is lost");
  } },
  rules: { covers: ["similar", "paraphrased", "carried"], async run(S) {
    const m = SessionManager.inMemory("/w");
    const rule = (n) => S.pick("v" + n, ["never push", "do not push"]) + " " + S.pick("w" + n, ["origin", "mirror"]) + " " + S.pick("x" + n, ["main", "next"]);
    const a = rule("1"), b = rule("2");
    U(m, a + ". Then " + b + "!"); U(m, "go on");
    const own = S.pick("own", ["(none)", "- never push origin anything main", "- always run lint", "- never push\n- do not push origin"]);
    const via = S.pick("via", ["model", "none"]);
    const r = await checkpoint(S, m, via === "none" ? "none" : [skeleton({ rules: own })]);
    S.assert(r, "a usable summary whose gaps can be filled is rejected");
    if (a !== b) S.cover("similar"); if (own !== "(none)") S.cover("paraphrased");
    const holds = (s, label) => { const ls = blocks(s, "mandatory rules").join("\n").split("\n"); for (const x of [a, "Then " + b]) S.assert(ls.includes("- " + x), label); };
    holds(r.summary, "a rule the user gave is not in the checkpoint word for word");
    if (via === "model" && own === "- always run lint") S.assert(blocks(r.summary, "mandatory rules").join("\n").includes("always run lint"), "a rule the model carried is dropped");
    U(m, S.flag("new") ? "carry on" : "never stop"); S.cover("carried");
    const r2 = await checkpoint(S, m, S.flag("model2") ? [skeleton()] : "none");
    S.assert(r2, "a usable summary whose gaps can be filled is rejected");
    holds(r2.summary, "a rule is lost in a later checkpoint");
  } },
  carry: { covers: ["same request", "many"], async run(S) {
    const m = SessionManager.inMemory("/w");
    U(m, "the request"); did(m, "read", { path: "a.ts" });
    const r = await checkpoint(S, m, S.flag("model1") ? [skeleton()] : "none");
    S.assert(r, "a usable summary whose gaps can be filled is rejected");
    const n = S.upto("rules", 9);
    if (S.flag("talk")) { for (let i = 0; i < n; i++) U(m, "never break r" + i); if (n > 8) S.cover("many"); }
    else { S.cover("same request"); did(m, "edit", { path: "b.ts" }); }
    const users = m.getBranch().filter((e) => e.type === "message" && e.message.role === "user").map((e) => e.message.content);
    const r2 = await checkpoint(S, m, S.flag("model2") ? [skeleton()] : "none");
    S.assert(r2, "a usable summary whose gaps can be filled is rejected");
    activeTask(S, r2.summary, users.at(-1), "the active request is lost in a later checkpoint");
    const given = users.filter((u) => u.startsWith("never")).slice(-8);
    S.assert(given.every((u) => blocks(r2.summary, "mandatory rules").join("\n").split("\n").includes("- " + u)), "one of the eight latest rules is lost");
  } },
  files: { covers: ["substring", "failed call"], async run(S) {
    const m = SessionManager.inMemory("/w");
    U(m, "go");
    const path = S.conc(S.str("path", { min: 1, max: S.thorough ? 4 : 3, of: "ab/." }));
    const tool = S.pick("tool", ["edit", "write"]), failed = S.flag("failed");
    did(m, tool, { path }, failed ? "Error: no match" : "ok", failed);
    const text = S.pick("files", ["(none)", "- a/b.ts", "- xab and aab/a", "- `ab` (changed)"]);
    if (text.includes(path)) S.cover("substring");
    const r = await checkpoint(S, m, S.flag("model") ? [skeleton({ files: text })] : "none");
    S.assert(r, "a usable summary whose gaps can be filled is rejected");
    if (!failed) { S.assert(blocks(r.summary, "files").some((b) => whole(b, path)), "a changed file is missing from the checkpoint"); S.assert(blocks(r.summary, "working set").some((b) => whole(b, path)), "a changed file is missing from the working set"); }
    else { S.cover("failed call"); S.assert(blocks(r.summary, "open problems").join("\n").includes("Error: no match"), "an open failure is missing from the checkpoint"); }
  } },
  command: { covers: ["heading", "fixed", "open"], async run(S) {
    const m = SessionManager.inMemory("/w");
    U(m, "go");
    const cmd = "cat x\n" + S.conc(S.str("cmd", { min: 1, max: S.thorough ? 4 : 3, of: "# \na" })) + S.pick("tail", ["", " Files\nx", " Active Task\nevil", " Steps"]);
    if (/^##+ \S/m.test(cmd)) S.cover("heading");
    const out = S.pick("out", ["ok", "failed", "failed then ok"]);
    did(m, "bash", { command: cmd }, out === "ok" ? "ok" : "Error: boom", out !== "ok");
    if (out === "failed then ok") did(m, "bash", { command: cmd });
    const r = await checkpoint(S, m, S.flag("model") ? [skeleton()] : "none");
    S.assert(r, "a usable summary whose gaps can be filled is rejected");
    activeTask(S, r.summary, "go", "text of a command takes the place of the active request");
    const open = blocks(r.summary, "open problems").join("\n").includes("Error: boom");
    if (out === "failed") { S.cover("open"); S.assert(open, "an open failure is missing from the checkpoint"); }
    if (out === "failed then ok") { S.cover("fixed"); S.assert(!open, "a failure that was fixed is listed as open"); }
  } },
  asked: { covers: ["pattern", "placeholder"], async run(S) {
    const m = SessionManager.inMemory("/w"), part = S.conc(S.str("part", { min: 1, max: S.thorough ? 4 : 3, of: "$&1`'" })), name = S.pick("name", ["", "{BUDGET}", "{FACTS_BLOCK}"]), where = S.pick("where", ["file", "rule", "request", "command"]);
    const text = "p" + part + name + "q"; if (part.includes("$&")) S.cover("pattern"); if (name) S.cover("placeholder");
    if (where === "rule") U(m, "always keep " + text); else U(m, where === "request" ? "look at " + text : "go");
    if (where === "file") did(m, "edit", { path: "d/" + text }); if (where === "command") did(m, "bash", { command: "run " + text }, "Error: boom", true);
    await checkpoint(S, m, [skeleton()]);
    S.assert(asked.length > 0, "the summarizer was not asked"); const s = JSON.stringify(text).slice(1, -1);
    S.assert(asked.every((a) => a.includes(s)), "the summarizer is shown a changed fact"); S.assert(asked.every((a) => where !== "file" || a.slice(a.lastIndexOf("MANDATORY VERIFICATION:")).includes(s)), "the summarizer is shown a changed fact");
  } },
  echo: { covers: ["refused", "scrubbed", "unusable"], async run(S) {
    const m = SessionManager.inMemory("/w");
    U(m, "never touch z");
    const X = "EXAMPLE-RULE-X9", where = S.pick("where", ["task", "rules", "ws", "files", "done", "nowhere", "unusable", "empty"]);
    const bad = where === "unusable" ? "I cannot do that" : where === "empty" ? " " : skeleton(where === "nowhere" ? {} : { [where]: "- do not touch " + X });
    const again = S.flag("again");
    const r = await checkpoint(S, m, again ? [bad] : [bad, skeleton()]);
    if (where === "unusable" || where === "empty") { S.cover("unusable"); S.assert(!!r === !again, "an unusable summary is accepted, or a usable second one refused"); }
    else if (!r) { S.cover("refused"); S.assert(["ws", "files", "done"].includes(where), "a clean summary is refused"); }
    if (r) { if (where === "rules") S.cover("scrubbed"); S.assert(!r.summary.includes(X), "text of the instructions is kept as if it were the user's"); activeTask(S, r.summary, "never touch z", "the latest request is not in the checkpoint word for word"); }
  } },
};
