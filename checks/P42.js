// Questions to the user: what is taken for an answer, asked once, kept whole with its images, delivered once.
import { S } from "symex";
import fs from "node:fs";
import { Buffer } from "node:buffer";
import { beginHumanInputRequest, createHumanInputRequest, formatHumanInputAnswerText, getLatestHumanInputSnapshots, getResumableHumanInputSnapshot, resolveHumanInput, WorkerHumanInputProjection } from "@repo/packages/coding-agent/src/core/human-input.ts";
import { HumanInputController } from "@repo/packages/coding-agent/src/core/human-input-controller.ts";
import { SessionImageStore } from "@repo/packages/coding-agent/src/core/session-image-store.ts";
import { crash, fault } from "./lib/fault.js";

export const meta = {
  bounds: ["replies: two questions, each answered in 9 or 12 ways, with images in 7 ways, cancelled in 6", "up to 3 images over two answers, under 6 labels each, over a store holding 0 to 2 images, the same or others", "a question left at 6 points, taken up again by another session up to twice, with images lost, replaced or not supported", "every sequence of 5 (thorough 6) events of two workers' questions", "every sequence of 3 (thorough 4) of 13 actions on the image store of two sessions, with damage, faults and crashes", "texts around the limit of what is kept inline"],
  outside: ["the dialog itself"],
  assumptions: ["SHA-256 does not collide in its first 12 digits", "the session stores custom entries as JSON on the branch (P17)"],
};
const clone = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x))), b64 = (t) => Buffer.from(t).toString("base64"), PNG = "image/png";
const session = () => { const list = []; return { list, getBranch: () => list, appendCustomEntry(customType, data) { list.push({ id: "n" + list.length, type: "custom", customType, data: clone(data) }); return list.at(-1).id; }, message(message) { list.push({ id: "n" + list.length, type: "message", message: clone(message) }); } }; };
const QS = [{ id: "q1", header: "One", question: "first?", options: [{ label: "A", description: "a" }, { label: "B", description: "b" }] }, { id: "q2", header: "Two", question: "second?", options: [{ label: "C", description: "c" }, { label: "D", description: "d" }], multiSelect: true }];
const said = (id, more) => ({ id, header: "forged", question: "forged?", selected: [], skipped: false, ...more }), img = (t) => ({ type: "image", data: b64(t), mimeType: PNG });
const store = (id = "s1", dir = "/pics") => new SessionImageStore({ agentDir: "/agent", cwd: "/w", sessionId: id, directory: dir, now: () => 1e12 });
const asked = (sm, more) => { const request = createHumanInputRequest({ source: "tool", toolCallId: "c1", toolName: "ask_question", questions: QS, acceptsImages: true, now: () => "T0", ...more }); beginHumanInputRequest(sm, request); return request; };
export const cases = {
  replies: { covers: ["taken", "refused", "cancelled", "images"], async run(S) {
    const sm = session(), acceptsImages = S.flag("acceptsImages"), request = asked(sm, { acceptsImages }), ONE = { a: [{ selected: ["A"] }, 1], none: [{}, 1], text: [{ custom: "mine" }, 1], both: [{ selected: ["B"], custom: "also" }, 1], two: [{ selected: ["A", "B"] }], other: [{ selected: ["C"] }], skip: [{ skipped: true }, 1], skipText: [{ skipped: true, custom: "x" }], forged: [{ selected: ["A"], customArtifact: { id: "x", kind: "k", byteLength: 1, createdAtTurn: 0, reproducible: false } }] }, TWO = { cd: [{ selected: ["D", "C"] }, 1], twice: [{ selected: ["C", "C"] }], one: [{ selected: ["C"] }, 1], missing: [null], again: [{ selected: ["C"] }, 0, true], stranger: [{ id: "q3", selected: ["C"] }], malformed: [{ selected: "C" }], number: [{ selected: [1] }], skipped: [{ skipped: "no" }], emptySkip: [{ skipped: true, custom: "" }, 1], skipPick: [{ skipped: true, selected: ["C"] }], deep: [{ selected: ["C"], extra: { a: 1 } }, 1] };
    const way = S.pick("way", ["answer", "answer", "cancelled", "garbage"].slice(1)), IMAGES = { none: [undefined, [], 1], one: [[{ label: "[Image #1]", mimeType: PNG }], [img("x")], 2], lost: [[{ label: "l", mimeType: PNG }], [], 0], extra: [undefined, [img("x")], 0], mime: [[{ label: "l", mimeType: "image/gif" }], [img("x")], 0], notImage: [[{ label: "l", mimeType: PNG }], [{ type: "text", text: "x" }], 0], bad: [[{ label: 1, mimeType: PNG }], [img("x")], 0] }; let value, ok, images = IMAGES.none;
    if (way === "cancelled") { const reason = S.pick("reason", [undefined, "user_cancelled", "ui_unavailable", "interrupted", "invalid_questions", "bored"]); value = { cancelled: true, reason, answers: [said("q1", { selected: ["A"] })], imageContents: [img("x")] }; ok = reason !== "bored"; } else if (way === "garbage") { value = S.pick("garbage", [undefined, null, [], "A", { answers: [], imageContents: [] }, { cancelled: "no", answers: [], imageContents: [] }, { cancelled: false, answers: {}, imageContents: [] }, { cancelled: false, answers: [] }]); ok = false; }
    else { const [x, xo] = ONE[S.pick("one", Object.keys(ONE))], [y, yo, twice] = TWO[S.pick("two", Object.keys(TWO))]; images = xo && yo ? IMAGES[S.pick("images", Object.keys(IMAGES))] : IMAGES.none; const a = [said("q1", { ...x, ...(images[0] ? { images: images[0] } : {}) }), ...(y ? [said("q2", y)] : []), ...(twice ? [said("q2", y)] : [])]; value = { cancelled: false, answers: S.flag("turned") ? a.reverse() : a, imageContents: images[1] }; ok = !!xo && !!yo && (images[2] === 1 || (images[2] === 2 && acceptsImages && !x.skipped)); }
    let shown; const r = await S.tryAsync(() => resolveHumanInput({ sessionManager: sm, request, present: async (p) => { shown = p; return value; }, now: () => "T1" })), last = getLatestHumanInputSnapshots(sm); S.assert(shown.requestId === request.requestId && JSON.stringify(shown.questions) === JSON.stringify(QS) && shown.acceptsImages === acceptsImages, "other questions are shown than asked"); S.assert(r.ok === ok, "a reply that answers is refused, or one that does not is taken"); S.assert(last.length === 1, "a question is kept twice");
    if (!ok) { S.assert(last[0].status === "pending" && last[0].answers.length === 0, "a refused reply settles the question"); S.cover("refused"); return; } S.assert(last[0].status === (value.cancelled ? "cancelled" : "answered") && JSON.stringify(last[0]) === JSON.stringify(clone(r.value.snapshot)), "what is kept is not what was answered");
    if (value.cancelled) { S.assert(last[0].answers.length === 0 && r.value.imageContents.length === 0 && last[0].reason === value.reason, "a cancelled question has answers"); S.cover("cancelled"); return; } S.assert(last[0].answers.map((a) => a.id).join() === "q1,q2" && last[0].answers.every((a, k) => a.header === QS[k].header && a.question === QS[k].question), "an answer is kept under another question"); for (const a of last[0].answers) { const g = value.answers.find((x) => x.id === a.id); S.assert(JSON.stringify(a.selected) === JSON.stringify(g.selected) && a.custom === g.custom && a.skipped === g.skipped, "an answer is changed"); } const text = formatHumanInputAnswerText(last[0]); S.assert(last[0].answers.every((a) => [...a.selected, a.custom ?? ""].every((v) => text.includes(v)) && text.includes(a.header) && (!a.skipped || text.includes(a.header + ": user skipped"))), "an answer is not told"); S.cover("taken"); if (images[1].length) S.cover("images");
  } },
  images: { covers: ["renamed", "kept", "crossed"], async run(S) {
    fs.mkdirSync("/pics"); const sm = session(), request = asked(sm), st = store(), held = S.upto("held", 2), heldBytes = []; for (let i = 0; i < held; i++) { const t = S.pick("held" + i, ["pic1", "pic2", "old"]); heldBytes.push(t); st.write(Buffer.from(t), PNG); } const n = S.upto("images", 3, 1), LABELS = ["[Image #1]", "[Image #2]", "[image #2]", "[Image #3]", "[pic]", "a.b"], labels = [], used = (l) => labels.includes(l); for (let i = 0; i < n; i++) { const l = S.pick("label" + i, i === 0 ? LABELS : LABELS.slice(0, 4)); if (used(l)) return; labels.push(l); } const split = n > 1 && S.flag("split") ? 1 : n, mine = (k) => (k < split ? 0 : 1), words = (k) => labels.filter((_, i) => mine(i) === k).map((l) => "see " + l + " and ").join("") + "axb " + labels.filter((_, i) => mine(i) === k).reverse().join("");
    const value = { cancelled: false, answers: [0, 1].map((k) => said(QS[k].id, { custom: words(k), images: labels.filter((_, i) => mine(i) === k).map((label) => ({ label, mimeType: PNG })) })), imageContents: labels.map((_, i) => img("pic" + (i + 1))) }, r = await resolveHumanInput({ sessionManager: sm, request, present: async () => clone(value), getImageStore: () => st, now: () => "T1" }), snap = getLatestHumanInputSnapshots(sm)[0], now = snap.answers.flatMap((a) => a.images ?? []), seq = now.map((x) => Number(/^\[Image #(\d+)\]$/.exec(x.label)?.[1]));
    S.assert(now.length === n && new Set(seq).size === n && r.imageContents.length === n && r.imageContents.every((c, i) => c.data === b64("pic" + (i + 1))), "an image of an answer is lost or shares its label"); const fresh = store(); seq.forEach((s, i) => S.assert(Buffer.from(fresh.read(s)?.bytes ?? []).toString() === "pic" + (i + 1), "a label leads to another image than the one given under it")); for (let i = 0; i < held; i++) S.assert(Buffer.from(fresh.read(i + 1).bytes).toString() === heldBytes[i], "an image kept before is replaced");
    snap.answers.forEach((a, k) => { const own = labels.map((l, i) => [l, "[Image #" + seq[i] + "]", i]).filter(([, , i]) => mine(i) === k), want = own.map((o) => "see " + o[1] + " and ").join("") + "axb " + [...own].reverse().map((o) => o[1]).join(""); S.assert(a.custom === want, "the text of an answer speaks of another image"); }); S.cover(labels.every((l, i) => l === now[i].label) ? "kept" : "renamed"); if (labels.some((l, i) => now.some((x, j) => j !== i && x.label === l))) S.cover("crossed");
  } },
  resume: { covers: ["asked again", "not asked again", "cancelled", "image lost", "not supported", "nothing to do"], async run(S) {
    fs.mkdirSync("/pics"); const sm = session(), at = S.pick("left", ["before", "pending", "answered", "cancelled", "done", "no call"]), pics = S.upto("pics", 2), model = S.flag("vision"), reply = { cancelled: false, answers: [said("q1", { selected: ["A"] }), said("q2", { custom: pics ? "with [Image #1]" : "plain", images: Array.from({ length: pics }, (_, i) => ({ label: "[Image #" + (i + 1) + "]", mimeType: PNG })) })], imageContents: Array.from({ length: pics }, (_, i) => img("pic" + (i + 1))) }; let prompts = 0, ran = [];
    if (at !== "no call") sm.message({ role: "assistant", content: [{ type: "toolCall", id: "c0", name: "x", arguments: {} }, { type: "toolCall", id: "c1", name: "ask_question", arguments: {} }] }); const request = at === "before" ? undefined : asked(sm); if (at === "answered" || at === "cancelled" || at === "done") await resolveHumanInput({ sessionManager: sm, request, present: async () => (at === "cancelled" ? { cancelled: true, reason: "user_cancelled" } : clone(reply)), getImageStore: () => store(), now: () => "T1" }); if (at === "done") sm.message({ role: "toolResult", toolCallId: "c1", content: [] });
    const harm = at === "answered" && pics ? S.pick("harm", ["none", "lost", "damaged", "no store"]) : "none"; if (harm === "lost") fs.rmSync("/pics/" + fs.readdirSync("/pics").sort()[0]); if (harm === "damaged") fs.writeFileSync("/pics/" + fs.readdirSync("/pics").sort()[0], "other"); const fails = S.flag("runFails"), state = { streaming: S.flag("streaming"), ui: true, disposed: false };
    const make = () => new HumanInputController({ getSessionManager: () => sm, getUIContext: () => (state.ui ? { askQuestions: async () => { prompts++; return clone(reply); } } : undefined), isDisposed: () => state.disposed, isStreaming: () => state.streaming, getModel: () => ({ input: model ? ["text", "image"] : ["text"] }), getArtifactStore: () => undefined, getImageStore: () => (harm === "no store" ? undefined : store()), runAgentPrompt: async (m) => { ran.push(clone(m)); if (fails && ran.length === 1) throw new Error("down"); sm.message(m); } });
    if (state.streaming) { S.assert((await make().resumePending()) === false && prompts === 0 && ran.length === 0, "a question is taken up while the agent runs"); state.streaming = false; } const open = at === "pending" || at === "answered" || at === "cancelled", would = at === "pending" && pics && !model, first = await S.tryAsync(() => make().resumePending());
    if (would) { S.assert(!first.ok && ran.length === 0 && prompts === 1 && getResumableHumanInputSnapshot(sm).status === "pending", "images are taken for a model that does not see them"); return; } S.assert(first.ok === !(open && fails), "a failing turn is hidden"); if (open && fails) await make().resumePending(); S.assert((await make().resumePending()) === false && getResumableHumanInputSnapshot(sm) === undefined, "a question that was answered is taken up again"); S.assert(prompts === (at === "pending" ? 1 : 0), "the user is asked again what was answered, or not asked what was not"); S.assert(ran.length === (open ? (fails ? 2 : 1) : 0), "a question's answer is given twice or never"); if (!open) { S.cover("nothing to do"); return; }
    const m = ran.at(-1), text = m.content[0].text, got = m.content.slice(1), lost = harm === "no store" ? pics : harm === "none" ? 0 : 1; S.assert(m.role === "toolResult" && m.toolCallId === "c1" && m.toolName === "ask_question", "the answer goes to another call"); if (at === "cancelled") { S.assert(m.details.cancelled && got.length === 0 && text.includes("cancelled"), "a cancelled question is answered"); S.cover("cancelled"); return; } S.assert(text.includes("One: user answered: A") && text.includes("Two: user answered: " + reply.answers[1].custom), "the answer given is not the user's"); if (model) { S.assert(got.length === pics - lost && got.every((c) => reply.imageContents.some((x) => x.data === c.data)) && new Set(got.map((c) => c.data)).size === got.length, "the images given are not those of the answer"); } else S.assert(got.length === 0, "images are sent to a model that does not see them"); S.assert(text.includes("could not be restored") === lost > 0 && text.includes("not sent because") === (!model && pics > lost), "an image left out is not told"); S.cover(at === "pending" ? "asked again" : "not asked again"); if (lost) S.cover("image lost"); if (!model && pics > lost) S.cover("not supported");
  } },
  worker: { covers: ["due", "delivered"], run(S) {
    const n = S.thorough ? 6 : 5, list = [], p = new WorkerHumanInputProjection(), seen = new Set(), done = new Set(); for (let i = 0; i < n; i++) { const w = S.pick("worker" + i, ["w1", "w2"]), e = S.pick("event" + i, ["asked", "answered", "delivered", "other"]); const sm = session(), req = createHumanInputRequest({ source: e === "other" ? "tool" : "worker", ...(e === "other" ? { toolCallId: w } : { workerRequestId: w }), questions: QS, acceptsImages: false, now: () => "T" + i }); if (e === "delivered") { sm.list.push({ type: "custom_message", customType: "worker-owner-response", details: { requestId: req.requestId } }); done.add(w); } else { beginHumanInputRequest(sm, req); if (e === "answered") sm.list[0].data.snapshot.status = "answered"; if (e !== "other") seen.add(w); else sm.list.push({ type: "custom", customType: "human_input_request", data: { version: 1, snapshot: { request: { ...req, source: "worker", workerRequestId: "w9", questions: 3 } } } }); } for (const x of sm.list) { list.push(x); p.apply(x); }
      const q = new WorkerHumanInputProjection(); q.reset(list); for (const proj of [p, q]) for (const k of ["w1", "w2", "w9"]) { S.assert(proj.hasKnownWorkerRequest(k) === seen.has(k) && proj.requiresDelivery(k) === (seen.has(k) && !done.has(k)), "an answer to a worker is delivered twice or forgotten"); S.assert(proj.getRequiringDelivery().some((s) => s.request.workerRequestId === k) === (seen.has(k) && !done.has(k)), "an answer to a worker is delivered twice or forgotten"); } }
    S.cover([...seen].some((k) => !done.has(k)) ? "due" : "delivered");
  } },
  store: { covers: ["read", "gone", "failed", "crashed", "old"], run(S) {
    fs.mkdirSync("/pics"); const ids = ["s1", "s2"], st = ids.map((i) => store(i)), made = [], DAY = 86400000, n = S.thorough ? 4 : 3; const ACT = { w1: [0, "aa", PNG], w2: [1, "bb", PNG], wj: [0, "cc", "image/jpeg"] }; const look = (strict) => { for (const m of made) { const r = store(ids[m.who]).read(m.seq); if (m.state === "ok") S.assert(r && Buffer.from(r.bytes).toString() === m.text && r.mimeType === m.mime, "an image kept is lost or changed"); else S.assert(!r || Buffer.from(r.bytes).toString() !== "evil", "a damaged image is given"); } for (const [k, id] of ids.entries()) { const own = made.filter((m) => m.who === k && m.state === "ok"), l = store(id).readLatest(); S.assert(!l || own.some((m) => m.seq === l.sequence && m.text === Buffer.from(l.bytes).toString()), "another session's image is given"); if (own.length) S.assert(l?.sequence === Math.max(...own.map((m) => m.seq)), "the latest image is not the one given"); const refs = store(id).resolveReferences("see [Image #1] and image 2, [image #1]"), want = [1, 2].map((s) => own.find((m) => m.seq === s)).filter(Boolean); S.assert(JSON.stringify(refs.map((x) => [x.data, x.mimeType])) === JSON.stringify(want.map((m) => [b64(m.text), m.mime])), "an image named is not the one given"); } };
    const add = (who, text, mime, fn) => { const r = S.try(fn); if (r.ok) { const same = made.find((m) => m.who === who && m.seq === r.value.sequence && m.state === "ok"); if (same) S.assert(same.text === text && same.mime === mime, "an image takes the number of another"); else made.push({ who, text, mime, seq: r.value.sequence, state: "ok", path: r.value.path }); } return r; };
    for (let i = 0; i < n; i++) { const a = S.pick("act" + i, ["w1", "w2", "wj", "keepSame", "keepOther", "keepBad", "tamper", "remove", "link", "foreign", "fault", "crash", "old"]), last = made.filter((m) => m.state === "ok").at(-1);
      if (ACT[a]) S.assert(add(...ACT[a], () => st[ACT[a][0]].write(Buffer.from(ACT[a][1]), ACT[a][2])).ok, "an image is refused"); else if (a === "keepSame" && last) { const r = add(last.who, last.text, last.mime, () => st[last.who].retainContent({ data: b64(last.text), mimeType: last.mime }, last.seq)); S.assert(r.ok && r.value.sequence === last.seq, "an image kept already is kept again"); } else if (a === "keepOther") { const r = add(0, "dd", PNG, () => st[0].retainContent({ data: b64("dd"), mimeType: "image/PNG; x=1" }, 1)); S.assert(r.ok, "an image is refused"); } else if (a === "keepBad") { for (const c of [{ data: "a=b=", mimeType: PNG }, { data: b64("x"), mimeType: "text/html" }, { data: "", mimeType: PNG }, { data: "QQ", mimeType: "image/svg+xml" }, { data: "QR==", mimeType: PNG }]) S.assert(!S.try(() => st[0].retainContent(c)).ok, "something that is no image is kept"); }
      else if (a === "tamper" && last) { fs.writeFileSync(last.path, "evil"); last.state = "bad"; } else if (a === "remove" && last) { fs.rmSync(last.path); last.state = "gone"; } else if (a === "link" && last) { fs.rmSync(last.path); fs.writeFileSync("/evil", last.text); fs.symlinkSync("/evil", last.path); last.state = "bad"; } else if (a === "foreign") { for (const f of ["pi-clip-x.png", "notes.txt", "pi-clip-0000000000000000-000009-000000000000.png"]) fs.writeFileSync("/pics/" + f, "evil"); fs.mkdirSync("/pics/pi-clip-0000000000000000-000008-000000000000.png", { recursive: true }); }
      else if (a === "fault" || a === "crash") { const c = a === "crash" ? crash(S, 6, { cuts: true, name: "at" + i }) : fault(S, 6, ["ENOSPC", "EIO"], { name: "at" + i }), r = add(0, "ff", PNG, () => st[0].write(Buffer.from("ff"), PNG)); c.end(); if (!(c.dead || c.hit)) return; S.cover(c.dead ? "crashed" : "failed"); if (!r.ok) for (const m of made) if (m.state === "ok" && !fs.existsSync(m.path)) S.fail("a write that fails loses another image"); const left = fs.readdirSync("/pics").filter((f) => !made.some((m) => m.state === "ok" && m.path === "/pics/" + f) && fs.lstatSync("/pics/" + f).isFile()); for (const f of left) if (/-\d{6}-/.test(f) && !f.includes("0000000000000000")) { const seq = Number(f.split("-")[3]); if (fs.readFileSync("/pics/" + f, "utf8") === "ff") made.push({ who: 0, text: "ff", mime: PNG, seq, state: "ok", path: "/pics/" + f }); } }
      else if (a === "old" && last) { const old = new SessionImageStore({ agentDir: "/agent", cwd: "/w", sessionId: "s2", directory: "/pics", now: () => fs.statSync(last.path).mtimeMs + 30 * DAY + (S.flag("over" + i) ? 1e9 : -1e9) }); const r = add(1, "old", PNG, () => old.write(Buffer.from("old"), PNG)); S.assert(r.ok, "an image is refused"); const gone = made.filter((m) => m.state !== "gone" && !fs.existsSync(m.path)); for (const m of gone) m.state = "gone"; S.assert(!gone.some((m) => m === made.at(-1)), "the image just kept is removed"); if (gone.length) S.cover("old"); if (!gone.length) S.assert(fs.existsSync(last.path), "x"); } else return; look(); }
    S.cover(made.some((m) => m.state === "ok") ? "read" : "gone");
  } },
  long: { covers: ["inline", "stored", "refused"], async run(S) {
    const sm = session(), request = asked(sm), unit = S.pick("unit", ["x", "é"]), over = S.pick("over", [-1, 0, 1, 2]), text = unit.repeat((16384 + (unit === "é" ? over * 2 : over)) / (unit === "é" ? 2 : 1)), how = S.pick("store", ["plain", "none", "no reference"]), kept = new Map(), refs = []; const artifactStore = how === "none" ? undefined : { write: (w) => { const id = "a" + kept.size; kept.set(id, w); return { ref: { id, kind: w.kind, byteLength: Buffer.byteLength(w.content), createdAtTurn: 0, reproducible: w.reproducible } }; }, addReference: (id, who) => { refs.push(id + who); return how !== "no reference"; } };
    const r = await S.tryAsync(() => resolveHumanInput({ sessionManager: sm, request, present: async () => ({ cancelled: false, answers: [said("q1", { custom: text }), said("q2", { skipped: true })], imageContents: [] }), artifactStore, now: () => "T1" })), big = over > 0 && artifactStore, snap = getLatestHumanInputSnapshots(sm)[0]; S.assert(r.ok === !(big && how === "no reference"), "an answer is refused, or taken though it is not kept"); if (!r.ok) { S.assert(snap.status === "pending", "an answer that is not kept settles the question"); S.cover("refused"); return; } const a = snap.answers[0];
    if (!big) { S.assert(a.custom === text && !a.customArtifact, "an answer is cut"); S.cover("inline"); return; } S.assert(kept.get(a.customArtifact.id).content === text && kept.get(a.customArtifact.id).reproducible === false && refs.includes(a.customArtifact.id + request.requestId), "a long answer is not kept whole"); S.assert(a.custom.length < 4100 && text.startsWith(a.custom.slice(0, 4000)) && formatHumanInputAnswerText(snap).includes(a.customArtifact.id), "a long answer is not bounded, or its place not told"); S.cover("stored");
  } },
};
