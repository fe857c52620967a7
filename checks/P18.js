// Compaction: what is summarised and what is kept add up to the conversation, tool calls stay with their results, and the retry ladder ends.
import { S } from "symex";
import { SessionManager } from "@repo/packages/agent/src/session/session-manager.ts";
import { prepareCompaction, createDeterministicCompaction, compact, assessCompactionNeed, shouldCompact, generateSummaryWithUsage } from "@repo/packages/agent/src/compaction/compaction.ts";
import { runCompactionLoop } from "@repo/packages/agent/src/compaction/loop.ts";

export const meta = {
  bounds: ["conversations of a first request and 4 (thorough 5) further steps, each a request, an answer, a tool call with one or two results, a bash run, a custom message, a branch summary, a model change, or an earlier compaction kept from any entry or of the session-replacing kind", "every number of tokens to keep against messages of one token each", "conversations of 400 to 3400 words against three summariser windows and three note lengths, in pieces or not", "the retry ladder over every outcome of each model resolution, summarisation, checkpoint and measurement", "context sizes, windows, reserves and triggers as unbounded integers; the early fraction as any of 1/4, 1/2, 3/5 and the disabled values"],
  outside: ["the wording of a model's summary", "accuracy of the token estimate"],
  assumptions: [],
};
const AS = (content, stop = "stop") => ({ role: "assistant", content, api: "a", provider: "p", model: "m", stopReason: stop, usage: undefined, timestamp: 1 });
const tag = (m) => m.role === "compactionSummary" || m.role === "branchSummary" ? m.role + ":" + m.summary : m.role === "bashExecution" ? "bash:" + m.output : m.role === "toolResult" ? "result:" + m.toolCallId : m.role === "assistant" && m.content.some((b) => b.type === "toolCall") ? "call:" + m.content.map((b) => b.id).join("+") : m.role + ":" + (typeof m.content === "string" ? m.content : m.content.map((b) => b.text).join(""));
const eq = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
const base = { enabled: true, reserveTokens: 10, triggerPercent: 0 };
function converse(S, n, withCompaction) {
  const m = SessionManager.inMemory("/w"), size = new Map();
  const msg = (x, t) => { const id = m.appendMessage({ timestamp: 1, ...x }); size.set(id, t); return id; };
  msg({ role: "user", content: "U" }, 1);
  let compacted = 0;
  for (let i = 0; i < n; i++) {
    const kinds = ["user", "answer", "call", "call2", "bash", "custom", "branch", "model"];
    if (withCompaction && !compacted && i > 0) kinds.push("compact", "replace");
    const k = S.pick("k" + i, kinds);
    if (k === "user") msg({ role: "user", content: "u" + i }, 1);
    else if (k === "answer") msg(AS([{ type: "text", text: "a" + i }]), 1);
    else if (k === "call" || k === "call2") {
      const ids = k === "call" ? ["c" + i] : ["c" + i, "d" + i];
      msg(AS(ids.map((id) => ({ type: "toolCall", id, name: "q", arguments: {} }))), 1);
      for (const id of ids) msg({ role: "toolResult", toolCallId: id, toolName: "q", content: [{ type: "text", text: "r" }], isError: false }, 1);
    } else if (k === "bash") msg({ role: "bashExecution", command: "l", output: "b" + i, exitCode: 0, cancelled: false, truncated: false }, 1);
    else if (k === "custom") m.appendCustomMessageEntry("c", "x" + i, false);
    else if (k === "branch") m.branchWithSummary(m.getLeafId(), "s" + i);
    else if (k === "model") m.appendModelChange("p", "m" + i);
    else {
      compacted = i;
      const path = m.getBranch();
      if (k === "replace") m.appendCompaction("K", path[0].id, 10, undefined, false, undefined, { mode: "original-user", userEntryId: path[0].id });
      else { const ok = path.filter((e) => !(e.type === "message" && e.message.role === "toolResult")); m.appendCompaction("K", ok[S.upto("from", ok.length - 1)].id, 10); }
    }
  }
  return { m, size };
}
function paired(live, label) { const seen = new Set(); for (const t of live) { if (t.startsWith("call:")) for (const id of t.slice(5).split("+")) seen.add(id); if (t.startsWith("result:")) S.assert(seen.has(t.slice(7)), label); } }
export const cases = {
  cut: { covers: ["kept", "split", "again", "shrunk", "nothing to compact"], run(S) {
    const { m } = converse(S, S.thorough ? 4 : 3, true);
    const live = m.buildSessionContext().messages.map(tag);
    const keep = S.int("keep", 1, 40);
    const trailing = S.flag("retry");
    const p = prepareCompaction(m.getBranch(), { ...base, keepRecentTokens: keep }, trailing ? { allowTrailingCompactionAsPrevious: true } : undefined);
    if (!p) { S.cover("nothing to compact"); const last = m.getBranch().at(-1); S.assert(last.type === "compaction" && (!trailing || last.retention), "compaction refused although there is something to compact"); return; }
    const r = createDeterministicCompaction(p);
    S.note("live", live); S.note("first", p.messagesToSummarize.map(tag)); S.note("prefix", p.turnPrefixMessages.map(tag));
    m.appendCompaction(r.summary, r.firstKeptEntryId, r.tokensBefore, r.details, false, undefined, r.retention);
    const after = m.buildSessionContext().messages.map(tag);
    S.assert(after[0].startsWith("compactionSummary:"), "the compacted conversation does not start with its summary");
    const kept = after.slice(1);
    S.note("kept", kept);
    S.cover("kept"); if (p.isSplitTurn) S.cover("split");
    const replaced = m.getBranch().slice(0, -1).some((e) => e.type === "compaction" && e.retention);
    const prev = live.some((t) => t === "compactionSummary:K");
    const told = [...p.messagesToSummarize, ...p.turnPrefixMessages].map(tag);
    const all = [...told, ...kept], want = live.filter((t) => t !== "compactionSummary:K");
    if (prev) { S.cover("again"); S.assert(p.previousSummary === "K", "an earlier summary is not carried over"); }
    S.assert(eq(all, want), "what is summarised and what is kept is not the conversation");
    paired(kept, "a tool result is kept without its call");
    if (r.retention) return;
    // one token per transcript message; custom messages and summaries carry none
    const weight = (t) => (t.startsWith("custom:") || t.startsWith("branchSummary:") ? 0 : t.includes("+") ? 2 : 1), sum = (l) => l.reduce((a, t) => a + weight(t), 0);
    const groups = []; for (const t of want) if (t.startsWith("result:") && groups.length) groups.at(-1).push(t); else groups.push([t]);
    let n = groups.length, seen = 0; while (n > 0 && seen < kept.length) seen += groups[--n].length;
    const weighty = groups.slice(n).filter((g) => sum(g) > 0), before = groups.slice(replaced ? 1 : 0, n).filter((g) => sum(g) > 0).at(-1);
    S.assert(weighty.length === 0 || sum(weighty.slice(1).flat()) < keep, "more is kept than the budget for recent messages asks for");
    S.assert(!before || sum(kept) + sum(before) >= keep, "recent messages within the budget are summarised away");
    if (told.length) S.cover("shrunk");
  } },
  replacement: { covers: ["again", "replaced"], run(S) {
    // session replacement: everything is handed over, only the original request stays
    const { m } = converse(S, S.thorough ? 4 : 3, true);
    const live = m.buildSessionContext().messages.map(tag);
    const p = prepareCompaction(m.getBranch(), { ...base, keepRecentTokens: S.int("keep", 1, 40), strategy: "session-replacement" }, { allowTrailingCompactionAsPrevious: true });
    S.assert(p && eq(p.messagesToSummarize.map(tag), live) && p.turnPrefixMessages.length === 0, "session replacement does not hand over the whole conversation");
    if (live.includes("compactionSummary:K")) S.cover("again");
    const r = createDeterministicCompaction(p);
    m.appendCompaction(r.summary, r.firstKeptEntryId, r.tokensBefore, r.details, false, undefined, r.retention);
    const after = m.buildSessionContext().messages.map(tag);
    S.cover("replaced");
    S.assert(after.length === 2 && after[0] === "user:U" && after[1].startsWith("compactionSummary:"), "after session replacement more or less than the request and the summary is left");
  } },
  told: { covers: ["again", "split"], async run(S) {
    // what a model is asked to summarise contains every message that leaves the conversation, and the earlier summary
    const { m } = converse(S, 2, true);
    const keep = S.upto("keep", 4, 1);
    const p = prepareCompaction(m.getBranch(), { ...base, reserveTokens: 4000, keepRecentTokens: keep }, { allowTrailingCompactionAsPrevious: true });
    if (!p) return;
    const asked = [];
    const completion = async (_model, context) => { asked.push(JSON.stringify(context)); return { ...AS([{ type: "text", text: S.flag("usable") ? "## Done\nx" : "x" }]), usage: { input: 1, output: 1, cacheRead: 0, cacheWrite: 0, totalTokens: 2, cost: { input: 0, output: 0, cacheRead: 0, cacheWrite: 0, total: 0 } } }; };
    const model = { id: "m", provider: "p", api: "a", contextWindow: 100000, maxTokens: 8000, cost: { input: 0, output: 0, cacheRead: 0, cacheWrite: 0 } };
    const r = await S.tryAsync(() => compact(p, model, "k", undefined, undefined, undefined, "off", undefined, undefined, { completion }));
    S.assert(asked.length > 0 && asked.length <= 2, "the model was not asked once or twice for a summary");
    const shown = p.messagesToSummarize.length ? p.messagesToSummarize : p.turnPrefixMessages;
    const words = (x) => x.role === "bashExecution" ? x.output : x.role === "branchSummary" ? x.summary : x.role === "toolResult" ? "r" : typeof x.content === "string" ? x.content : x.content.map((b) => b.text ?? b.name)[0];
    for (const a of asked) { S.assert(shown.every((x) => a.includes(words(x))), "a message that leaves the conversation is not shown to the summariser"); if (p.previousSummary) { S.cover("again"); S.assert(a.includes(p.previousSummary), "the earlier summary is not shown to the summariser"); } }
    const d = createDeterministicCompaction(p);
    if (p.isSplitTurn && r.ok) { S.cover("split"); const u = p.turnPrefixMessages.find((x) => x.role === "user"); if (u) S.assert(r.value.summary.includes(u.content), "the request of a turn cut in two is lost"); }
    if (r.ok) S.assert(r.value.firstKeptEntryId === p.firstKeptEntryId && r.value.summary.trim().length > 0, "a checkpoint without a summary or with another cut");
    S.assert(d.firstKeptEntryId === p.firstKeptEntryId && d.summary.includes("User: "), "the checkpoint built without a model lacks the active request");
  } },
  chunks: { covers: ["whole", "in pieces", "again", "too long", "refused"], async run(S) {
    // a conversation larger than the summariser's window is shown to it in pieces, all of it, and every note of a piece is shown in the end
    const n = S.pick("words", [400, 2000, 3400]), window = S.pick("window", [7000, 8000, 9500]), noteSize = S.pick("note", [20, 5000, 40000]), chunked = S.flag("chunked"), old = S.flag("old") ? "OLDSUMMARY" : undefined;
    const words = []; for (let i = 0; i < n; i++) words.push("w" + String(10000 + i));
    const half = n / 2, msgs = [{ role: "user", content: words.slice(0, half).join(" "), timestamp: 1 }, { role: "assistant", ...AS([{ type: "text", text: words.slice(half).join(" ") }]) }];
    const asked = [], notes = [];
    const completion = async (_model, context) => { const t = JSON.stringify(context); asked.push(t); const note = "n" + asked.length + "z"; const text = note + "-".repeat(noteSize) + note + "e"; notes.push(note); return { ...AS([{ type: "text", text }]), usage: { input: 1, output: 1, cacheRead: 0, cacheWrite: 0, totalTokens: 2, cost: { input: 0, output: 0, cacheRead: 0, cacheWrite: 0, total: 0 } } }; };
    const model = { id: "m", provider: "p", api: "a", contextWindow: window, maxTokens: 1500, cost: { input: 0, output: 0, cacheRead: 0, cacheWrite: 0 } };
    const r = await S.tryAsync(() => generateSummaryWithUsage(msgs, model, 4000, "k", undefined, undefined, undefined, old, "off", undefined, undefined, "facts", chunked, undefined, completion));
    S.assert(asked.every((t) => t.length <= window * 4), "a request larger than the summariser's window was sent");
    const missing = words.filter((w) => !asked.some((t) => t.includes(w))).length;
    if (!r.ok) { S.cover(chunked ? "too long" : "refused"); S.assert(chunked ? noteSize === 40000 : n > 400, "a conversation that can be summarised was refused"); S.assert(chunked || asked.length === 0, "a request that does not fit was sent"); return; }
    const last = asked.at(-1);
    if (old) S.assert(last.includes(old), "the earlier summary is not shown when the pieces are merged");
    if (asked.length === 1) { S.cover("whole"); S.assert(missing === 0, "a message is not shown to the summariser"); return; }
    S.cover("in pieces"); if (noteSize === 5000) S.cover("again");
    S.assert(chunked && missing <= asked.length - 1, "part of a long conversation is not shown to the summariser");
    // every piece's note reaches the last request, or was itself condensed in a later one
    for (let i = 0; i < asked.length - 1; i++) S.assert(asked.slice(i + 1).some((t) => t.includes(notes[i])) && asked.slice(i + 1).some((t) => t.includes(notes[i] + "e")), "the note on a piece of the conversation is lost");
  } },
  ladder: { covers: ["applied", "retried", "checkpoint", "aborted", "skipped", "failed"], async run(S) {
    let over = true, aborted = false, n = 0, applied = [], built = [], asked = 0, calls = 0, provider = false, broken = false, late = false, effective = false;
    const abortable = S.flag("abortable");
    let branch = S.pick("branch", [["message"], ["message", "compaction"], []]).map((type, i) => ({ type, id: "e" + i }));
    const pre = branch.at(-1)?.type === "compaction", allow = pre && S.flag("allow");
    const det = allow || S.flag("forceDeterministic"), first = S.flag("needed"); // the host tightens its own checkpoint only without a model
    const maybeAbort = (w) => { if (abortable && !aborted && S.flag("abort" + w + n++)) aborted = true; };
    const deps = {
      signal: { get aborted() { return aborted; } },
      measureLiveTokens: () => 100, shouldCompact: (t) => { if (!applied.length) return first; S.assert(t === 107, "the margin is not added to what is measured after a checkpoint"); return !effective; }, getPostApplyMargin: () => 7,
      getBranch: () => branch, getBaseKeepRecentTokens: () => 64, allowTrailingCompactionAsPrevious: allow, forceDeterministic: det,
      resolveModelAndAuth: async (tier) => { calls++; maybeAbort("auth"); const a = S.pick("auth" + calls, ["ok", "failure", "throw"]); if (a === "throw") throw new Error("x"); return { model: { provider: "p", id: tier, api: "a" }, failure: a === "failure" ? "no key" : undefined }; },
      summarizeAndVerify: async (params) => {
        asked++; const b = S.pick("sum" + asked, ["ok", "gate-failed", "input-overflow", "summary-length-stop", "summary-demand-exceeds-reserve", "500 internal server error", "odd"]); maybeAbort("sum");
        if (b === "500 internal server error") provider = true;
        if (b !== "ok") throw new Error(b);
        const result = { summary: "s", keep: params.keepRecentTokens, by: "model" }; built.push(result); return { result };
      },
      buildDeterministicCheckpoint: async (params) => { if (S.flag("buildFails")) { broken = true; throw new Error("odd"); } const result = { summary: "d", keep: params.keepRecentTokens, by: "checkpoint" }; built.push(result); return { result }; },
      apply: async (r) => { if (aborted) late = true; applied.push(r); effective = r.by === "model" ? S.flag("effective") : true; branch = [...branch, { type: "compaction", id: "c" + applied.length }]; },
      onTransition: () => {},
    };
    const o = await runCompactionLoop(deps);
    S.assert(asked <= 3 && built.length <= 4 && calls <= 4 && applied.length <= 4, "the retry ladder goes on beyond its bound");
    S.assert(!late, "a checkpoint was applied after cancellation");
    S.assert(applied.every((r) => built.includes(r)), "something else than a built checkpoint was applied");
    if (o.kind === "skip") { S.cover("skipped"); S.assert((!first || (pre && !allow)) && !asked && !applied.length, "compaction that was needed is skipped, or a skipped one did something"); return; }
    S.assert(first && !(pre && !allow), "a compaction that was not needed ran");
    if (o.kind === "success") { S.cover("applied"); S.assert(o.result === applied.at(-1), "success is reported without the reported checkpoint being in place"); if (o.result.by === "checkpoint") S.cover("checkpoint"); else S.assert(effective && !det, "a compaction that did not free enough counts as done"); }
    else if (aborted) { S.cover("aborted"); S.assert(o.reason === "aborted", "a cancelled compaction is reported as something else"); }
    else { S.cover("failed"); S.assert(provider || broken, "compaction gives up although a checkpoint without a model can be built"); }
    if (applied.length > 1) { S.cover("retried"); S.assert(applied.every((r, i) => i === 0 || r.keep < applied[i - 1].keep), "a retry after an ineffective compaction does not keep less"); }
  } },
  need: { covers: ["hard", "early", "none"], run(S) {
    const tokens = S.int("tokens", 0, 10 ** 9), window = S.int("window", 1, 10 ** 9), reserve = S.int("reserve", 0, 10 ** 9), keep = S.int("keep", 0, 10 ** 9);
    const trigger = S.flag("hasTrigger") ? S.int("trigger", 0, 10 ** 9) : undefined, enabled = S.flag("enabled");
    const pct = S.pick("pct", [undefined, 0, 0.25, 0.5, 1, 2]);
    const s = { enabled, reserveTokens: reserve, keepRecentTokens: keep, triggerPercent: pct };
    const got = assessCompactionNeed(tokens, window, s, trigger);
    S.assert(shouldCompact(tokens, window, s, trigger) === (got !== "none"), "the two triggers disagree");
    S.cover(got);
    const near = tokens > window - reserve || (trigger !== undefined && tokens > trigger);
    if (!enabled) S.assert(got === "none", "compaction is offered although it is off");
    else if (near) S.assert(got === "hard", "a nearly full context does not force compaction");
    else {
      S.assert(got !== "hard", "compaction is forced although the context has room");
      const early = (pct === 0.25 && tokens * 4 > window) || (pct === 0.5 && tokens * 2 > window);
      if (got === "early") S.assert(early && (tokens - keep) * 100 >= tokens * 11, "an early compaction starts below its trigger or without a saving");
      else if (early) S.assert((tokens - keep) * 100 <= tokens * 13 || (pct === 0.25 ? tokens * 4 < window + 4 : tokens * 2 < window + 2), "an early compaction with a clear saving is not started");
    }
  } },
};
