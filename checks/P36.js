import { S } from "symex";
import fs from "node:fs";
import { createHash } from "node:crypto";
import { SessionRootMailbox } from "@repo/packages/coding-agent/src/core/delegation/session-root-mailbox.ts";
import { WorkerAgentMailbox } from "@repo/packages/coding-agent/src/core/delegation/worker-agent-control.ts";
import { sessionRootMailboxFile, workerAgentMailboxFile } from "@repo/packages/coding-agent/src/core/agent-paths.ts";
import { crash, fault } from "./lib/fault.js";

export const meta = {
  bounds: ["up to 3 (thorough 4) operations on a worker's mailbox: messages of 7 shapes, keyed and not, replayed and conflicting; delivery, reply begun, committed, rolled back, failure; each in the same or a reopened mailbox, the last with a crash at any step or a failing write", "up to 3 (thorough 4) operations on the session root's mailbox: replies of two workers, replayed and conflicting, reconciled, acknowledged, released; the same crashes and failures", "mailboxes filled to within two of every limit (messages, replies, receipts, bytes), then one operation", "waiting: an arrival, an acknowledgement, an abort and the timeout in every order of three", "damaged files: every field of a sample absent or of another kind"],
  outside: ["the coordinator that moves messages between mailboxes", "two processes at once (the file lock is modelled)"],
  assumptions: ["the clock does not go backwards", "SHA-256 and random UUIDs do not collide"],
};
const D = "/a", SESSION = "s1", why = (f) => { const r = S.try(f); return r.ok ? { ok: true, value: r.value } : { ok: false, dead: r.error.code === "EDEAD" }; };
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
// ----- a worker's mailbox; the reference: messages in order, receipts of keyed ones, replies
const SHAPES = { plain: {}, other: { content: "b" }, asks: { expectReply: true, senderAgentId: "w9" }, turn: { task: { kind: "agent_turn" } }, after: { task: { kind: "agent_turn", dependsOnTaskIds: ["t1"] } }, handoff: { task: { kind: "terminal_handoff", sourceAttemptId: "a1" } }, answer: { replyToMessageId: "m0", senderAgentId: "w9" } };
const box = () => new WorkerAgentMailbox({ agentDir: D, parentSessionId: SESSION, agentId: "w1" });
const strip = (m) => { const { messageId, createdAt, deliveredAt, repliedAt, failedAt, replyReceipt, ...rest } = m; return { id: messageId, rest, delivered: deliveredAt !== undefined, replied: repliedAt !== undefined, failed: failedAt !== undefined }; };
// everything the mailbox says, without times
const facts = (b, ids) => ({ pending: b.pending().map(strip), steer: b.pending("steer").length, turns: b.pendingTaskBearing().map((m) => m.messageId), awaiting: b.awaitingReplies().map((m) => m.messageId), acks: b.listReplyAcknowledgements(), all: ids.map((i) => { const m = b.getMessage(i); return m && strip(m); }), receipts: ids.map((i) => [b.hasControlReplayReceipt(i), b.hasDeliveredControlReceipt(i)]), replies: ids.map((i) => ["x", "y"].map((c) => { const r = S.try(() => b.resolveCompletedReply(i, c)); return r.ok ? (r.value === undefined ? "none" : r.value.replyMessageId + "/" + r.value.requestSenderId) : "conflict"; })) });
const want = (st) => ({ pending: st.list.filter((m) => !m.delivered && !m.failed).map(shape), steer: st.list.filter((m) => !m.delivered && !m.failed && m.rest.kind === "steer").length, turns: st.list.filter((m) => !m.delivered && !m.failed && m.rest.task).map((m) => m.id), awaiting: st.list.filter((m) => m.delivered && m.rest.expectReply && !m.reply).map((m) => m.id), acks: st.list.filter((m) => m.reply?.open).sort((a, b) => a.reply.at - b.reply.at).map((m) => ({ messageId: m.id, acknowledgementId: m.reply.id, replyContent: m.reply.content })), all: st.list.map(shape), receipts: st.list.map((m) => [m.keyed === true, m.delivered]), replies: st.list.map((m) => ["x", "y"].map((c) => (!m.reply ? "none" : m.reply.content === c ? m.reply.id + "/w9" : "conflict"))) });
const shape = (m) => ({ id: m.id, rest: m.failed ? { ...m.rest, failureReason: "why" } : m.rest, delivered: m.delivered, replied: m.reply !== undefined, failed: m.failed });
const copy = (st) => ({ list: st.list.map((m) => ({ ...m, rest: m.rest, reply: m.reply && { ...m.reply } })), n: st.n });
const sorted = (o) => { const out = {}; for (const k of Object.keys(o).sort()) out[k] = o[k]; return out; };
const norm = (f) => ({ ...f, pending: f.pending.map((m) => ({ ...m, rest: sorted(m.rest) })), all: f.all.map((m) => m && { ...m, rest: sorted(m.rest) }) });
const put = (S, i, st) => { const [s, key] = S.pick("put" + i, i === 0 ? [["plain", undefined], ["asks", "k"], ["turn", "k"], ["after", "k"], ["handoff", "k"], ["answer", "k"], ["asks", undefined]] : [["plain", undefined], ["plain", "k"], ["other", "k"], ["asks", "k"], ["asks", "k2"], ["turn", "k"], ["after", "k"], ["handoff", "k"], ["answer", "k"]]); const kind = i === 0 ? "steer" : "follow_up", extra = SHAPES[s], input = { kind, content: " " + (extra.content ?? "a"), ...extra, ...(key ? { idempotencyKey: key } : {}) };
  const { idempotencyKey, ...rest } = { ...input, content: extra.content ?? "a" }; const owned = s === "handoff" || s === "answer", known = key && st.list.find((m) => m.key === key), sameIntent = known && same(sorted({ ...known.rest, kind: 0 }), sorted({ ...rest, kind: 0 }));
  return { run: (b) => b.enqueueWithReceipt(input), refused: known && !sameIntent, apply: (id) => { if (known) return; st.list.push({ id, key, rest, delivered: false, failed: false, keyed: key !== undefined && !owned }); }, check: (S, v) => { S.assert(v.status === "retained" && v.created === !known, "a message sent again is taken twice, or a new one is not taken"); if (known) S.assert(v.messageId === known.id && v.message.kind === known.rest.kind, "a replay does not give the message first accepted"); S.cover(known ? "replayed" : "taken"); }, changes: !known };
};
const act = (S, i, st) => { const m = st.list[S.upto("msg" + i, st.list.length - 1)], what = S.pick("act" + i, ["deliver", "begin", "begin2", "begin3", "commit", "rollback", "fail"]), id = m.id;
  if (what === "deliver") { const ch = !m.delivered && !m.failed; return { run: (b) => b.acknowledgeDelivered(id), apply: () => { if (ch) m.delivered = true; }, check: () => {}, changes: ch }; }
  if (what === "fail") { const ch = m.rest.task?.kind === "agent_turn" && !m.rest.expectReply && !m.rest.replyToMessageId && !m.delivered && !m.failed; return { run: (b) => b.deadLetterOrdinaryTask(id, " why "), apply: () => { if (ch) m.failed = true; }, check: (S, v) => S.assert(v === ch, "a task is given up wrongly"), changes: ch }; }
  if (what === "commit" || what === "rollback") { const ch = m.reply?.open === true && m.reply.id === "r1"; return { run: (b) => (what === "commit" ? b.commitReplyAcknowledgement(id, "r1") : b.rollbackReplyAcknowledgement(id, "r1")), apply: () => { if (ch) { if (what === "commit") m.reply.open = false; else m.reply = undefined; } }, check: (S, v) => S.assert(v === ch, "a reply is finished that was not begun"), changes: ch }; }
  const ack = what === "begin2" ? "r2" : "r1", text = what === "begin3" ? "y" : "x", open = m.delivered && m.rest.expectReply === true, taken = st.list.some((o) => o !== m && o.reply?.open && o.reply.id === ack), differs = m.reply && (m.reply.id !== ack || m.reply.content !== text), spent = st.list.some((o) => o !== m && o.reply && o.reply.id === ack);
  return { run: (b) => b.beginReplyAcknowledgement(id, ack, text), refused: open && (differs || taken), skip: open && !taken && spent, apply: () => { if (open && !m.reply) m.reply = { id: ack, content: text, open: true, at: st.n++ }; }, check: (S, v) => { S.assert(v === (open && (!m.reply || m.reply.open)), "a reply is begun that is not owed, or one owed is not"); if (v) S.cover("replied"); }, changes: open && !m.reply };
};
const drive = (S, open, see, expect, st, choose, most, changed) => {
  const boxes = [open(), open()], how = S.pick("how", ["live", "crash", "fault"]), last = S.upto("steps", how === "live" ? most : most - 1, 1), agree = (got, text) => S.assert(same(see(got, st), expect(st)), text); let heard = 0; for (const b of boxes) b.subscribe(() => heard++);
  for (let i = 0; i < last; i++) {
    S.now += 5; const o = choose(S, i, st); if (o.skip) return; const before = copy(st), b = boxes[i % 2], end = i === last - 1, c = end && how === "crash" ? crash(S, 6, { cuts: true }) : undefined, f = end && how === "fault" ? fault(S, 4, ["ENOSPC"]) : undefined; heard = 0; const r = why(() => o.run(b));
    if (c || f) { const hit = c ? c.end() : f.hit; if (f) f.end(); if (!hit) return; S.now += 120000; S.cover(c ? "crashed" : "failed"); const after = open(); if (!r.ok || c) { if (same(see(after, before), expect(before))) return; S.assert(o.changes && !o.refused, "an operation that changes nothing changed something"); } o.apply(changed(after, before), r.value); agree(after, c ? "after a crash the mailbox is neither as before nor as after" : "after a failed write the mailbox is neither as before nor as after"); return; }
    if (o.refused) { S.assert(!r.ok, "a message or reply that conflicts with an earlier one is accepted"); S.assert(same(see(b, st), expect(before)), "a refused operation changed the mailbox"); S.cover("refused"); return; }
    S.assert(r.ok, "a sound operation is refused"); o.check(S, r.value); o.apply(r.value?.messageId, r.value); agree(b, "the mailbox does not hold what was accepted, delivered and answered"); S.assert(heard === (o.changes ? o.tells ?? 1 : 0), "those who listen are not told of a change, or told of none");
    if (i > 0 && !o.changes) break;
  }
  agree(open(), "another reader sees something else");
};
// ----- the session root's mailbox
const root = () => new SessionRootMailbox({ agentDir: D, parentSessionId: SESSION }), answer = (sourceAgentId, requestMessageId, content, threadId) => ({ sourceAgentId, requestMessageId, content, ...(threadId ? { threadId } : {}) }), token = (k) => "00000000-0000-4000-9000-" + String(1000000000000 + k).slice(1);
const hash = (domain, list) => { const h = createHash("sha256").update(domain); for (const x of list) h.update("\0").update(x); return h.digest("hex"); };
const face = (r) => [r.messageId, r.sourceAgentId, r.requestMessageId, r.threadId ?? "", r.content, r.sourceReconciledAt !== undefined, r.acknowledgedAt !== undefined], rface = (m) => [m.id, m.who, m.req, m.thread ?? "", m.text, m.done, m.acked];
export const cases = {
  worker: { covers: ["taken", "replayed", "refused", "replied", "crashed", "failed"], async run(S) {
    const st = { list: [], n: 0 }, see = (b, s) => norm(facts(b, s.list.map((m) => m.id))), expect = (s) => norm(want(s)), start = S.pick("start", ["empty", "owed", "begun"]);
    if (start !== "empty") { const b = box(), id = b.enqueueWithReceipt({ kind: "steer", content: "a", ...SHAPES.asks, idempotencyKey: "k" }).messageId; b.acknowledgeDelivered(id); const m = { id, key: "k", rest: { kind: "steer", content: "a", ...SHAPES.asks }, delivered: true, failed: false, keyed: true }; st.list.push(m); if (start === "begun") { b.beginReplyAcknowledgement(id, "r1", "x"); m.reply = { id: "r1", content: "x", open: true, at: st.n++ }; } }
    drive(S, box, see, expect, st, (S, i, st) => (st.list.length === 0 || S.flag("more" + i) ? put(S, i, st) : act(S, i, st)), (start === "empty" ? 3 : 2) + (S.thorough ? 1 : 0), (b, old) => b.pending().map((m) => m.messageId).find((x) => !old.list.some((m) => m.id === x)));
  } },
  root: { covers: ["taken", "replayed", "refused", "acknowledged", "released", "crashed", "failed"], async run(S) {
    const st = { list: [], n: 0 }, see = (b) => ({ pending: b.pendingReplies().map(face), all: b.retainedReplies().map(face), a: b.pendingReplies({ sourceAgentId: "a" }).length, q: b.pendingReplies({ requestMessageId: "q", maxMessages: 1 }).map((r) => r.messageId) }), expect = (s) => { const open = s.list.filter((m) => !m.acked); return { pending: open.map(rface), all: s.list.map(rface), a: open.filter((m) => m.who === "a").length, q: open.filter((m) => m.req === "q").slice(0, 1).map((m) => m.id) }; };
    const tokens = new Map(); if (S.flag("held")) { const r = root().enqueueSourceOwnedReply(answer("a", "q", "x")); st.list.push({ id: r.messageId, who: "a", req: "q", text: "x", owned: true, done: false, acked: false }); tokens.set(r.messageId, r.reply.ackToken); }
    drive(S, root, see, expect, st, (S, i, st) => {
      if (st.list.length === 0 || S.flag("more" + i)) { const [who, req, text, owned] = S.pick("put" + i, [["a", "q", "x", true], ["a", "q", "x", false], ["a", "q", "y", true], ["b", "q", "x", true], ["a", "p", "y", true], ["a", "q", "x", true, "t"]].slice(0, i === 0 ? 3 : 6)), thread = i > 0 && text === "x" && who === "a" && req === "q" && S.flag("thread" + i) ? "t" : undefined, known = st.list.find((m) => m.who === who && m.req === req);
        return { run: (b) => (owned ? b.enqueueSourceOwnedReply(answer(who, req, text, thread)) : b.enqueueReply(answer(who, req, text, thread))), refused: known && (known.text !== text || known.thread !== thread), changes: !known || known.owned === undefined, tells: known ? 0 : 2, apply: (id, v) => { if (known) { if (known.owned === undefined) known.owned = owned; return; } st.list.push({ id, who, req, text, thread, owned, done: false, acked: false }); if (v?.reply) tokens.set(id, v.reply.ackToken); }, check: (S, v) => { S.assert(v.status === "retained" && v.created === !known && v.reply.content === text, "a reply sent again is taken twice, or a new one is not taken"); if (known) S.assert(v.messageId === known.id && v.reply.ackToken === tokens.get(known.id), "a replay does not give the reply first accepted"); S.cover(known ? "replayed" : "taken"); } }; }
      const m = st.list[S.upto("msg" + i, st.list.length - 1)], what = S.pick("act" + i, ["done", "ack", "wrong", "release"]);
      if (what === "wrong") return { run: (b) => b.acknowledge(m.id, "00000000-0000-4000-8000-000000000000"), refused: true };
      if (what === "ack") return { run: (b) => b.acknowledge(m.id, tokens.get(m.id)), changes: !m.acked, tells: 2, apply: () => { m.acked = true; }, check: (S, v) => { S.assert(v === true, "an acknowledgement with the right token is not taken"); S.cover("acknowledged"); } };
      if (what === "done") return { run: (b) => b.markSourceReconciled(m.id), changes: !m.done, tells: 2, apply: () => { m.done = true; }, check: (S, v) => S.assert(v === true, "a reply held is not reconciled") };
      const has = m.owned === true; return { run: (b) => b.releaseSourceReplayReceipt(m.id), changes: has, tells: 2, apply: () => { if (has) m.owned = undefined; }, check: (S, v) => { S.assert(v === has, "a receipt is released that is not the source's, or not released"); if (v) S.cover("released"); } };
    }, 3 + (S.thorough ? 1 : 0), (b, old) => b.retainedReplies().map((r) => r.messageId).find((x) => !old.list.some((m) => m.id === x)));
  } },
  rootFull: { covers: ["taken", "refused", "kept"], async run(S) {
    const [mand, completed, def, owned, long] = S.pick("fill", [[2, 126, 0, 0], [2, 125, 0, 0], [63, 65, 0, 0], [63, 64, 0, 0], [64, 3, 0, 0], [1, 2, 446, 2], [1, 2, 447, 2], [1, 2, 448, 2], [1, 2, 447, 64], [1, 2, 448, 63], [1, 1, 448, 64], [3, 70, 0, 0, true], [62, 0, 0, 0, true]]), bare = S.flag("bare");
    const id = (who, req) => "session-root-reply-" + hash("pi-session-root-reply-v1", [SESSION, who, req]), at = new Date(S.now).toISOString(), text = long ? "x".repeat(1700) : "x", replies = [], receipts = [], rec = (req, text, own) => receipts.push({ messageId: id("a", req), sourceAgentId: "a", requestMessageId: req, contentDigest: hash("pi-session-root-reply-content-v1", [text]), ...(own ? { sourceOwned: true } : {}) });
    for (let k = 0; k < completed + mand; k++) { const req = "r" + k, done = k < completed; replies.push({ messageId: id("a", req), sourceAgentId: "a", requestMessageId: req, content: text, createdAt: at, ackToken: token(k), ...(done ? { sourceReconciledAt: at, acknowledgedAt: at } : {}) }); }
    let left = def, more = owned; for (let k = 0; k < completed + mand; k++) { if (bare && k === completed + mand - 1) break; if (left > 0) { left--; rec("r" + k, text); } else if (more > 0) { more--; rec("r" + k, text, true); } }
    for (let k = 0; k < left; k++) rec("d" + k, "x"); for (let k = 0; k < more; k++) rec("o" + k, "x", true);
    const state = { version: 1, parentSessionId: SESSION, replies, replayReceipts: receipts }, raw = JSON.stringify(state) + "\n", projected = JSON.stringify({ ...state, replies: replies.map((r) => ({ ...r, sourceReconciledAt: at, acknowledgedAt: at })) }).length + 1, file = sessionRootMailboxFile(D, SESSION); fs.mkdirSync(file.slice(0, file.lastIndexOf("/")), { recursive: true }); fs.writeFileSync(file, raw);
    const b = root(); const what = S.pick("op", ["default", "owned", "last", "lastDefault", "spent", "conflict", "ack", "release"].filter((w) => (w === "last" || w === "lastDefault" ? bare : w === "spent" || w === "conflict" ? left > 0 : w === "ack" ? mand > 0 : w === "release" ? more > 0 : true))), last = "r" + (completed + mand - 1); if (!S.try(() => b.retainedReplies()).ok) { S.assert(projected > 128 * 1024 || def > 448, "a mailbox within its limits is not read"); return; }
    const act = { default: () => b.enqueueReply(answer("a", "new", text)), owned: () => b.enqueueSourceOwnedReply(answer("a", "new", text)), last: () => b.enqueueSourceOwnedReply(answer("a", last, text)), lastDefault: () => b.enqueueReply(answer("a", last, text)), spent: () => b.enqueueReply(answer("a", "d0", "x")), conflict: () => b.enqueueReply(answer("a", "d0", "other")), ack: () => b.acknowledge(id("a", "r" + completed), token(completed)), release: () => b.releaseSourceReplayReceipt(id("a", "o0")) }[what];
    const before = b.retainedReplies(), r = why(act), rr = S.try(() => root().retainedReplies()); S.assert(rr.ok, "an accepted operation leaves a mailbox that can no longer be read"); const after = rr.value; if (!r.ok) S.assert(fs.readFileSync(file, "utf8") === raw, "a refused operation changed the mailbox");
    const total = receipts.length, fits = projected + 8000 < 128 * 1024; S.assert(before.every((m) => (m.sourceReconciledAt !== undefined && m.acknowledgedAt !== undefined) || after.some((n) => n.messageId === m.messageId && n.content === m.content)), "a reply not yet acknowledged and reconciled is forgotten"); S.assert(after.length <= 128 && JSON.parse(fs.readFileSync(file, "utf8")).replayReceipts.length <= 512, "more is kept than the limit");
    const kept = after.filter((m) => m.sourceReconciledAt !== undefined && m.acknowledgedAt !== undefined); S.assert(same(kept.map((m) => m.requestMessageId), before.slice(0, completed).slice(completed - kept.length).map((m) => m.requestMessageId)), "a newer completed reply is dropped before an older one");
    if (what === "default" || what === "owned") { if (mand >= 64 || total >= 512 || (what === "default" && def >= 448)) { S.assert(!r.ok, "a reply beyond the limits is accepted"); S.cover("refused"); } else if (fits) { S.assert(r.ok && r.value.created && after.some((m) => m.requestMessageId === "new") && after.length === Math.min(128, mand + completed + 1), "a reply within the limits is refused, or history is dropped without need"); S.cover("taken"); } }
    else if (what === "spent") { S.assert(r.ok && r.value.status === "completed_replay" && (!fits || same(after, before)), "a reply already completed is taken again"); S.cover("kept"); } else if (what === "conflict") S.assert(!r.ok, "a reply that conflicts with a completed one is accepted");
    else if (what === "ack") S.assert(r.ok && after.find((m) => m.requestMessageId === "r" + completed).acknowledgedAt !== undefined, "a reply held cannot be acknowledged"); else if (what === "release") S.assert(r.ok && r.value === true, "a receipt cannot be released"); else if (r.ok) S.assert(!r.value.created && (!fits || after.length === before.length), "a reply held is taken again");
  } },
  workerFull: { covers: ["taken", "refused", "kept", "tight"], async run(S) {
    // pending, pending answers, completed, awaiting a reply, receipts of earlier messages, characters each, padding up to a byte limit
    const [ord, owned, completed, awaiting, spent, size, limit] = S.pick("fill", [[63, 1, 0, 0, 0, 1], [64, 0, 0, 0, 0, 1], [1, 63, 0, 0, 0, 1], [1, 64, 2, 1, 0, 1], [2, 1, 126, 0, 0, 1], [2, 2, 120, 6, 0, 1], [1, 0, 0, 127, 0, 1], [1, 1, 1, 126, 0, 1], [1, 1, 1, 1, 510, 1], [1, 1, 1, 1, 511, 1], [1, 1, 1, 0, 512, 1], [1, 1, 1, 3, 508, 1], [3, 0, 3, 45, 0, 2400, 131072 - 300], [3, 14, 0, 45, 0, 2400, 180224 - 5], [50, 14, 0, 0, 0, 2200, 180224 - 5]]);
    const at = new Date(S.now).toISOString(), list = [], receipts = [], text = "c".repeat(size), mk = (k, extra) => list.push({ messageId: "m" + k, kind: "steer", content: text, createdAt: at, ...extra });
    let k = 0; for (let i = 0; i < completed; i++) mk(k++, { deliveredAt: at }); for (let i = 0; i < awaiting; i++) mk(k++, { senderAgentId: "w9", expectReply: true, deliveredAt: at }); for (let i = 0; i < ord; i++) mk(k++, i === 0 ? { task: { kind: "agent_turn" } } : {}); for (let i = 0; i < owned; i++) mk(k++, { replyToMessageId: "z" });
    for (let i = 0; i < spent; i++) receipts.push({ kind: "control", messageId: "d" + i, intentDigest: "a".repeat(64), deliveredAt: at });
    const file = workerAgentMailboxFile(D, SESSION, hash("pi-worker-agent-mailbox-v1", [SESSION, "w1"])), state = { version: 1, parentSessionId: SESSION, agentId: "w1", messages: list, replyAcknowledgements: [], replayReceipts: receipts }, write = () => JSON.stringify(state) + "\n"; if (limit) { let over = write().length - limit; for (const m of list) { const n = Math.max(-(4096 - size), Math.min(size - 1, over)); m.content = "c".repeat(size - n); over -= n; if (over === 0) break; } S.assume(write().length === limit); }
    const raw = write(); fs.mkdirSync(file.slice(0, file.lastIndexOf("/")), { recursive: true }); fs.writeFileSync(file, raw); const b = box(), firstOrd = "m" + (completed + awaiting), firstOwned = "m" + (completed + awaiting + ord), firstAsk = "m" + completed;
    const what = S.pick("op", ["plain", "keyed", "asks", "answer", "deliver", "fail", "deliverOwned", "reply"].filter((w) => (w === "deliverOwned" ? owned > 0 : w === "reply" ? awaiting > 0 : true))), key = { idempotencyKey: "new" }, before = b.pending(), waits = b.awaitingReplies().map((m) => m.messageId);
    const r = why({ plain: () => b.enqueueWithReceipt({ kind: "steer", content: text }), keyed: () => b.enqueueWithReceipt({ kind: "steer", content: text, ...key }), asks: () => b.enqueueWithReceipt({ kind: "steer", content: text, ...SHAPES.asks, ...key }), answer: () => b.enqueueWithReceipt({ kind: "steer", content: text, ...SHAPES.answer, ...key }), deliver: () => b.acknowledgeDelivered(firstOrd), fail: () => b.deadLetterOrdinaryTask(firstOrd, "w".repeat(limit ? 500 : 3)), deliverOwned: () => b.acknowledgeDelivered(firstOwned), reply: () => b.beginReplyAcknowledgement(firstAsk, "r1", "y".repeat(limit ? 4096 : 1)) }[what]);
    const see = S.try(() => [box().pending(), box().awaitingReplies().map((m) => m.messageId), box().listReplyAcknowledgements()]); S.assert(see.ok, "an accepted operation leaves a mailbox that can no longer be read"); if (!r.ok) S.assert(fs.readFileSync(file, "utf8") === raw, "a refused operation changed the mailbox"); const [pend, wait, acks] = see.value, done = r.ok && (what === "deliver" || what === "fail") ? firstOrd : r.ok && what === "deliverOwned" ? firstOwned : undefined, add = ["plain", "keyed", "asks", "answer"].includes(what);
    S.assert(same(pend.slice(0, before.length - (done ? 1 : 0)).map((m) => [m.messageId, m.content]), before.filter((m) => m.messageId !== done).map((m) => [m.messageId, m.content])) && pend.length === before.length + (add && r.ok ? 1 : 0) - (done ? 1 : 0), "a message not yet delivered is forgotten or moved"); S.assert(same(wait, waits.filter((x) => !(r.ok && what === "reply" && x === firstAsk))), "a reply owed is forgotten");
    const now = JSON.parse(fs.readFileSync(file, "utf8")), old = now.messages.filter((m) => m.messageId !== done && m.deliveredAt && !m.expectReply).map((m) => m.messageId), all = Array.from({ length: completed }, (_, i) => "m" + i); S.assert(same(old, all.slice(completed - old.length)), "a newer delivered message is dropped before an older one"); S.assert(now.messages.length <= 192 && now.messages.filter((m) => m.deliveredAt || m.failedAt || !m.replyToMessageId).length <= 128 && now.replayReceipts.length >= receipts.length, "more is kept than the limit, or a receipt is forgotten");
    if (add) { const slots = spent + awaiting, refuse = what === "answer" ? owned >= 64 : ord >= 64 || ord + awaiting + 1 > 128 || (what !== "plain" && spent >= 512) || (what === "keyed" && slots + 1 > 512) || (what === "asks" && slots + 2 > 512); if (refuse) { S.assert(!r.ok, "a message beyond the limits is accepted"); S.cover("refused"); } else if (!limit) { S.assert(r.ok && r.value.created, "a message within the limits is refused"); if (what !== "answer") S.assert(old.length === Math.min(completed, 128 - ord - awaiting - 1), "history is dropped without need"); S.cover("taken"); } else S.cover("tight"); return; }
    S.assert(r.ok || (limit && (what === "fail" || (what === "reply" && owned > 0))), "what was accepted cannot be delivered or answered"); if (what === "reply" && r.ok) S.assert(acks.length === 1 && acks[0].acknowledgementId === "r1", "a reply begun is not kept"); S.cover("kept");
  } },
  waiting: { covers: ["arrived", "aborted", "timed", "immediate"], async run(S) {
    S.autoTimers = false; const ctl = new AbortController(), query = S.pick("query", [{}, { sourceAgentId: "a" }, { requestMessageId: "q", maxMessages: 1 }]), match = (m) => !m.acked && (!query.sourceAgentId || m.who === "a") && (!query.requestMessageId || m.req === "q"), list = [], tokens = []; let out, n = 0;
    const put = (who, req) => { const r = root().enqueueReply(answer(who, req, "x")); list.push({ id: r.messageId, who, req, acked: false }); tokens.push(r.reply.ackToken); }, want = () => list.filter(match).slice(0, query.maxMessages ?? 16).map((m) => m.id);
    const first = S.pick("first", ["none", "match", "other", "acked"]); if (first !== "none") put(first === "other" ? "b" : "a", first === "other" ? "p" : "q"); if (first === "acked") { root().acknowledge(list[0].id, tokens[0]); list[0].acked = true; }
    const early = S.flag("abortedBefore"); if (early) ctl.abort("stop"); root().waitForReplies({ ...query, timeoutMs: 1000, signal: ctl.signal }).then((v) => { n++; out = v; }, (e) => { n++; out = { error: e }; }); await S.settle();
    let end = early ? "abort" : want().length > 0 ? want() : undefined; const check = () => { S.assert(n === (end === undefined ? 0 : 1), "a wait ends too early, twice or not at all"); if (end === undefined) return false; S.assert(S.pendingTimers() === 0, "a timer is left behind by a wait"); if (end === "abort") { S.assert(out.error === "stop", "an aborted wait does not say so"); S.cover("aborted"); } else { S.assert(out.timedOut === (end.length === 0) && same(out.replies.map((r) => r.messageId), end), "a wait does not give the replies there are"); S.cover(end.length === 0 ? "timed" : "arrived"); } return true; };
    if (check()) { if (!early) S.cover("immediate"); return; }
    for (let i = 0; i < 3; i++) { const e = S.pick("event" + i, ["put", "other", "abort", "time", "quiet"]); if (e === "put") put("a", list.some((m) => m.who === "a" && m.req === "q") ? "r" + i : "q"); else if (e === "other") put("b", "p" + i); else if (e === "abort") ctl.abort("stop"); else if (e === "time") await S.advance(1001); else { const f = sessionRootMailboxFile(D, SESSION); if (list.length === 0) return; fs.writeFileSync(f, fs.readFileSync(f, "utf8")); } await S.settle(); end = want().length > 0 ? want() : e === "abort" ? "abort" : e === "time" ? [] : undefined; if (check()) return; }
  } },
  damage: { covers: ["unread", "read"], async run(S) {
    const worker = S.flag("worker"), b = worker ? box() : root(); let file;
    if (worker) { const keep = b.enqueueWithReceipt({ kind: "steer", content: "a", ...SHAPES.asks, threadId: "t", idempotencyKey: "k" }).messageId; b.acknowledgeDelivered(keep); b.beginReplyAcknowledgement(keep, "r1", "x"); b.deadLetterOrdinaryTask(b.enqueue({ kind: "steer", content: "b", ...SHAPES.after }).messageId, "why"); b.enqueue({ kind: "follow_up", content: "c", ...SHAPES.handoff, replyToMessageId: "m0" }); file = workerAgentMailboxFile(D, SESSION, hash("pi-worker-agent-mailbox-v1", [SESSION, "w1"])); }
    else { const r = b.enqueueSourceOwnedReply(answer("a", "q", "x", "t")); b.markSourceReconciled(r.messageId); b.acknowledge(r.messageId, r.reply.ackToken); b.enqueueReply(answer("b", "q", "y")); file = sessionRootMailboxFile(D, SESSION); }
    const state = JSON.parse(fs.readFileSync(file, "utf8")), spots = []; const walk = (o, at) => { for (const k of Object.keys(o)) { spots.push([o, k, (at + "." + k).replace(/\.\d+/g, (x) => (at.endsWith("messages") ? x : ""))]); if (o[k] !== null && typeof o[k] === "object") walk(o[k], at + "." + k); } }; walk(state, "");
    const [o, k, at] = spots[S.upto("spot", spots.length - 1)], old = o[k], value = S.pick("value", ["absent", null, 7, "", "  ", [], {}, true, "2020-13-01", "x".repeat(5000)]); if (value === "absent") { if (Array.isArray(o)) o.splice(Number(k), 1); else delete o[k]; } else o[k] = value;
    if (Array.isArray(o) && value === "absent") return; const optional = ["threadId", "sourceReconciledAt", "acknowledgedAt", "sourceOwned", "replayReceipts", "replyAcknowledgements", "task", "dependsOnTaskIds", "senderAgentId", "replyToMessageId", "deliveredAt"], raw = JSON.stringify(state) + "\n"; fs.writeFileSync(file, raw);
    const r = S.try(() => (worker ? box().pending() : root().retainedReplies())), fine = (value === "absent" && optional.includes(k)) || (typeof value === typeof old && Array.isArray(value) === Array.isArray(old) && (value === true || (Array.isArray(value) && value.length === 0) || (typeof value === "string" && value.length > 0 && value.length < 100 && !k.endsWith("At") && ["content", "senderAgentId", "sourceAttemptId", "failureReason", "threadId", "replyToMessageId", "messageId", "requestSenderId", "0"].includes(k))));
    if (!r.ok) { S.cover("unread"); const w = S.try(() => (worker ? box().enqueue({ kind: "steer", content: "n" }) : root().enqueueReply(answer("c", "q", "n")))); S.assert(!w.ok && fs.readFileSync(file, "utf8") === raw, "a damaged mailbox is written over"); return; }
    S.cover("read"); S.assert(fine, "a damaged mailbox is read as if it were sound: " + at + "=" + value);
  } },
};
