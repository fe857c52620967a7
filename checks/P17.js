// Session files: everything acknowledged survives a crash at any point, and branches and reloads show the same conversation.
import { S } from "symex";
import fs from "node:fs";
import { SessionManager, loadEntriesFromFile } from "@repo/packages/agent/src/session/session-manager.ts";
import { crash, fault } from "./lib/fault.js";

export const meta = {
  bounds: ["sessions of up to 4 (thorough 5) operations after a first exchange, each a user or assistant message, label, model change, custom message, summary of an abandoned branch, compaction keeping any suffix or only the first request, or a jump to any entry", "a crash before every file operation and inside every append after 0, 1, half, all but one or all of its bytes; one I/O error at any append", "one batch of three messages; messages whose text is large enough to be kept on disk only"],
  outside: ["power loss that reorders completed writes", "two processes appending to one session", "sessions written by hand"],
  assumptions: ["a process crash keeps what was already written"],
};
const U = (t) => ({ role: "user", content: t, timestamp: 1 });
const A = (t) => ({ role: "assistant", content: [{ type: "text", text: t }], api: "a", provider: "p", model: "m" + t.slice(0, 2), usage: {}, stopReason: "stop", timestamp: 1 });
const textOf = (m) => { const c = m.role === "branchSummary" || m.role === "compactionSummary" ? m.summary : m.content; return m.role + ":" + (typeof c === "string" ? c : c.map((b) => b.text).join("")); };
const shown = (m) => m.buildSessionContext().messages.map(textOf);
const open = (f) => SessionManager.open(f, "/agent");
// the conversation as this check understands it: a parent-linked list of what was asked for
function expect(nodes, leaf) {
  const path = []; for (let n = nodes.get(leaf); n; n = nodes.get(n.parent)) path.unshift(n);
  let model = null, level = "off", last = -1; path.forEach((n, i) => { if (n.kind === "compaction") last = i; if (n.model) model = n.model; if (n.level) level = n.level; });
  const vis = (n) => (n.text === undefined ? [] : [n.text]);
  if (last < 0) return { model, level, msgs: path.flatMap(vis) };
  const c = path[last], before = path.slice(0, last), k = before.findIndex((n) => n.id === c.first);
  const kept = c.mode === "original-user" ? [] : k < 0 ? [] : before.slice(k).flatMap(vis);
  const orig = c.mode === "original-user" ? vis(before.find((n) => n.id === c.first)) : [];
  return { model, level, msgs: [...orig, c.summary, ...kept, ...path.slice(last + 1).flatMap(vis)] };
}
function play(S, m, nodes, order, n) {
  const look = S.flag("look");
  const add = (id, o) => { nodes.set(id, { id, parent: o.parent, ...o }); order.push(id); };
  for (let i = 0; i < n; i++) {
    const op = S.pick("op" + i, ["user", "assistant", "label", "custom", "summary", "compact", "anchor", "jump", "level"]);
    const leaf = m.getLeafId();
    const path = m.getBranch().map((e) => e.id);
    if (op === "user") add(m.appendMessage(U("u" + i)), { parent: leaf, text: "user:u" + i });
    else if (op === "assistant") add(m.appendMessage(A("a" + i)), { parent: leaf, text: "assistant:a" + i, model: "ma" + i });
    else if (op === "label") add(m.appendLabelChange(path[path.length - 1], "L" + i), { parent: leaf, kind: "label" });
    else if (op === "custom") add(m.appendCustomMessageEntry("c", "c" + i, false), { parent: leaf, text: "custom:c" + i });
    else if (op === "level") add(m.appendThinkingLevelChange("high"), { parent: leaf, level: "high" });
    else if (op === "summary") { const at = order[S.upto("at" + i, order.length - 1)]; add(m.branchWithSummary(at, "s" + i), { parent: at, text: "branchSummary:s" + i }); }
    else if (op === "jump") { const at = order[S.upto("at" + i, order.length - 1)]; m.branch(at); }
    else if (op === "compact") { const first = path[S.upto("first" + i, path.length - 1)]; add(m.appendCompaction("k" + i, first, 10), { parent: leaf, kind: "compaction", first, summary: "compactionSummary:k" + i }); }
    else { add(m.appendCompaction("k" + i, path[0], 10, undefined, false, undefined, { mode: "original-user", userEntryId: path[0] }), { parent: leaf, kind: "compaction", first: path[0], mode: "original-user", summary: "compactionSummary:k" + i }); }
    if (look) same(m, expect(nodes, m.getLeafId()), "the conversation in memory is not the branch that was built");
  }
}
const eq = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
const same = (m, e, label) => { const c = m.buildSessionContext(); S.assert(eq(c.messages.map(textOf), e.msgs) && c.thinkingLevel === e.level && (c.model === null ? e.model === null : c.model.modelId === e.model), label); };
function start(file) {
  const m = SessionManager.create("/w", "/agent", "/s");
  const nodes = new Map(), order = [];
  const u = m.appendMessage(U("u")), a = m.appendMessage(A("a"));
  nodes.set(u, { id: u, parent: null, text: "user:u" }); nodes.set(a, { id: a, parent: u, text: "assistant:a", model: "ma" }); order.push(u, a);
  return { m, nodes, order };
}
export const cases = {
  tree: { covers: ["compacted", "branched", "forked"], run(S) {
    const { m, nodes, order } = start();
    play(S, m, nodes, order, S.thorough ? 4 : 3);
    const leaf = m.getLeafId(), e = expect(nodes, leaf);
    if (e.msgs.some((t) => t.startsWith("compactionSummary"))) S.cover("compacted");
    same(m, e, "the conversation in memory is not the branch that was built");
    const r = open(m.getSessionFile());
    S.assert(eq(r.getEntries().map((x) => x.id), order) && order.every((id) => r.getEntry(id).parentId === nodes.get(id).parent), "a reopened session is not the tree that was saved");
    if (r.getLeafId() !== leaf) { S.cover("branched"); r.branch(leaf); }
    same(r, e, "a reopened session shows another conversation");
    const before = fs.readFileSync(m.getSessionFile(), "utf8");
    const b = m.createBranchedSessionManager(leaf);
    S.cover("forked");
    S.assert(b.getSessionId() !== m.getSessionId() && m.getLeafId() === leaf && fs.readFileSync(m.getSessionFile(), "utf8") === before, "forking a session changed it");
    same(b, e, "a forked session shows another conversation than the branch it was made from");
    S.assert(m.getBranch(leaf).every((x) => b.getLabel(x.id) === m.getLabel(x.id) || x.type === "label"), "a label was lost in the fork");
    b.appendMessage(A("z"));
    const w = { model: "mz", level: e.level, msgs: [...e.msgs, "assistant:z"] };
    same(open(b.getSessionFile()), w, "a forked session reopens to another conversation");
  } },
  crash: { covers: ["torn", "kept", "first write"], run(S) {
    const first = S.flag("first");
    const m = SessionManager.create("/w", "/agent", "/s"), acked = [];
    const put = (x) => { const id = m.appendMessage(x); acked.push(textOf(x)); return id; };
    put(U("u")); if (!first) { put(A("a")); put(U("b")); }
    const flushed = !first, file = m.getSessionFile();
    const c = crash(S, 4, { cuts: true });
    const how = S.pick("how", ["one", "batch", "custom"]);
    const inflight = how === "batch" ? ["assistant:x", "user:y", "custom:z"] : how === "one" ? ["assistant:x"] : ["custom:q"];
    const r = S.try(() => { if (how === "one") put(A("x")); else if (how === "batch") { m.appendMessageBatch([{ kind: "message", message: A("x") }, { kind: "message", message: U("y") }, { kind: "custom", message: { role: "custom", customType: "c", content: "z", display: false, timestamp: 1 } }]); acked.push(...inflight); } else { m.appendCustomMessageEntry("c", "q", false); acked.push("custom:q"); } });
    const died = c.end();
    if (!fs.existsSync(file)) { S.assert(!flushed, "the session file disappeared"); return; }
    const m2 = open(file), got = shown(m2);
    if (died) {
      if (first) { S.cover("first write"); }
      else { const extra = got.slice(acked.length); S.cover(extra.length ? "kept" : "torn"); S.assert(eq(got.slice(0, acked.length), acked) && extra.every((t, i) => t === inflight[i]), "after a crash the session lost or changed something acknowledged"); }
    } else { S.assert(r.ok, "an append failed without a fault"); if (how !== "custom" || flushed) S.assert(eq(got, acked), "what was acknowledged is not on disk"); }
    m2.appendMessage(A("after"));
    const m3 = open(file);
    S.assert(eq(shown(m3), [...got, "assistant:after"]), "an entry written after the crash, or the history before it, is lost at the next start");
  } },
  fault: { covers: ["failed"], run(S) {
    const { m } = start(), file = m.getSessionFile();
    const f = fault(S, 3, ["ENOSPC"]);
    const r = S.try(() => m.appendMessage(U("x")));
    f.end();
    if (r.ok) { S.assert(eq(shown(open(file)), ["user:u", "assistant:a", "user:x"]), "what was acknowledged is not on disk"); return; }
    S.cover("failed");
    S.assert(eq(shown(m), ["user:u", "assistant:a"]), "a message that could not be saved is part of the conversation");
    const again = S.try(() => m.appendMessage(U("y")));
    S.assert(!again.ok, "an append after a failed one was accepted on top of a file in an unknown state");
    const r2 = S.try(() => open(file));
    if (r2.ok) S.assert(eq(shown(r2.value).slice(0, 2), ["user:u", "assistant:a"]), "the history before a failed write is lost");
  } },
  large: { covers: ["on disk"], run(S) {
    const big = (c) => c.repeat(16500) + '"id":"é\n';
    const m = SessionManager.create("/w", "/agent", "/s"), file = m.getSessionFile();
    const ids = [m.appendMessage(U(big("u"))), m.appendMessage(A(big("a"))), m.appendMessage(U(big("v")))];
    const want = ["user:" + big("u"), "assistant:" + big("a"), "user:" + big("v")];
    const how = S.pick("how", ["none", "release", "compact", "reopen", "fork", "reopen+append"]);
    let x = m;
    if (how === "release") m.releasePersistedMessagePayload(ids[S.upto("which", 2)]);
    if (how === "compact") { m.appendCompaction("k", ids[S.upto("first", 2)], 10); m.branch(ids[2]); }
    if (how.startsWith("reopen")) x = open(file);
    if (how === "reopen+append") { x.appendMessage(A("t")); x.releasePersistedMessagePayload(ids[0]); x.branch(ids[2]); }
    if (how === "fork") x = m.createBranchedSessionManager(ids[2]);
    S.cover("on disk");
    S.assert(eq(shown(x), want), "a large message reads back differently");
    S.assert(eq(x.getFullHistoryChainWithPayloads(ids[2]).map((e) => textOf(e.message)), want), "the full history is not what was said");
    S.assert(x.readEntryJsonPrefix(ids[1], 60).includes(ids[1]), "the saved record of a message is not found");
  } },
  old: { covers: ["v1", "v2", "v3"], run(S) {
    const v = S.pick("version", [1, 2, 3]), size = S.pick("size", [2, 16500]);
    const text = (c) => c.repeat(size);
    const ents = [{ role: "user", content: text("u") }, A(text("a")), { role: "hookMessage", customType: "c", content: "h", display: false, timestamp: 1 }, { role: "user", content: text("v") }];
    const lines = [JSON.stringify({ type: "session", ...(v > 1 ? { version: v } : {}), id: "sid", timestamp: "2026-01-01T00:00:00Z", cwd: "/w" })];
    ents.forEach((message, i) => lines.push(JSON.stringify({ type: "message", ...(v > 1 ? { id: "e" + i, parentId: i ? "e" + (i - 1) : null } : {}), timestamp: "t", message })));
    const k = S.upto("kept", 4);
    if (k < 4) lines.push(JSON.stringify({ type: "compaction", ...(v > 1 ? { id: "k", parentId: "e3", firstKeptEntryId: "e" + k } : { firstKeptEntryIndex: k + 1 }), timestamp: "t", summary: "K", tokensBefore: 1 }));
    fs.mkdirSync("/s"); fs.writeFileSync("/s/f.jsonl", lines.join("\n") + "\n");
    S.cover("v" + v);
    const want = [...(k < 4 ? ["compactionSummary:K"] : []), ...["user:" + text("u"), "assistant:" + text("a"), (v < 3 ? "custom" : "hookMessage") + ":h", "user:" + text("v")].slice(k < 4 ? k : 0)];
    const m = open("/s/f.jsonl");
    S.assert(eq(shown(m), want), "a session of an older version shows another conversation");
    S.assert(eq(shown(open("/s/f.jsonl")), want), "a migrated session shows another conversation at the next start");
  } },
};
