// File tool calls: one at a time per file, alone while an exclusive command runs, and a write never overwrites anything.
import { S } from "symex";
import fs from "node:fs";
import { withFileMutationQueue, withExclusiveMutationBarrier } from "@repo/packages/coding-agent/src/core/tools/file-mutation-queue.ts";
import { createWriteToolDefinition } from "@repo/packages/coding-agent/src/core/tools/write.ts";
import { FileMutationIntentController } from "@repo/packages/coding-agent/src/core/tools/file-mutation-intent.ts";

export const meta = {
  bounds: ["three operations, each a file operation on one of two files under either of two names, existing or not, or an exclusive command, each taking 0 to 2 (thorough 3) turns and failing or not, started 0 to 2 turns apart", "one write of new content, of a content reference or of a retained payload, with another process creating, removing or changing a file before any file-system operation"],
  outside: ["two spellings of one file that differ only by letter case", "more than one process of the agent"],
  assumptions: [],
};
const wait = async (n) => { for (let i = 0; i < n; i++) await Promise.resolve(); };
export const cases = {
  queue: { covers: ["waited", "parallel", "exclusive", "failed"], async run(S) {
    fs.mkdirSync("/r"); fs.symlinkSync("/r", "/l");
    const exists = S.flag("exists"); if (exists) fs.writeFileSync("/r/f", "");
    const bad = []; const must = (c, l) => { if (!c) bad.push(l); };
    const running = new Map(), log = [], done = []; let exclusive = 0, inside = 0;
    const NAMES = ["/r/f", "/l/f", "/r/g", "/r/x/../f", "bash"];
    const ids = { "/r/f": "f", "/l/f": "f", "/r/x/../f": "f", "/r/g": "g" };
    const ops = []; const N = 3;
    for (let k = 0; k < N; k++) ops.push({ k, name: S.pick("op" + k, k === 0 ? ["/r/f", "/l/f", "bash"] : k === 1 ? NAMES : ["/r/f", "/l/f", "bash"]), turns: S.upto("t" + k, S.thorough ? 3 : 2), fails: k === 0 && S.flag("fails"), gap: k === 0 ? 0 : S.upto("gap" + k, S.thorough ? 2 : 1) * 4 });
    const body = (o) => async () => {
      const file = ids[o.name]; log.push(o.k);
      if (o.name === "bash") { S.cover("exclusive"); must(inside === 0, "an exclusive command ran beside another operation"); exclusive++; }
      else { must(exclusive === 0, "a file was changed while an exclusive command ran"); must(!running.get(file), "two operations on one file ran at the same time"); running.set(file, true); if (inside > 0) S.cover("parallel"); }
      inside++;
      for (let i = 0; i < o.turns; i++) await wait(5);
      if (o.name !== "bash" && !fs.existsSync("/r/" + file)) fs.writeFileSync("/r/" + file, "");
      await wait(1);
      inside--; if (o.name === "bash") exclusive--; else running.set(file, false);
      if (o.fails) { S.cover("failed"); throw new Error("boom"); }
      return o.k;
    };
    const all = [];
    for (const o of ops) {
      await wait(o.gap);
      all.push((o.name === "bash" ? withExclusiveMutationBarrier(body(o)) : withFileMutationQueue(o.name, body(o))).then((v) => { done.push(o.k); must(!o.fails && v === o.k, "an operation got another one's outcome"); }, (e) => { done.push(o.k); must(o.fails && e.message === "boom", "an operation failed for another one's error"); }));
    }
    for (let i = 0; i < 150 && done.length < N; i++) await Promise.resolve();
    for (const l of bad) S.fail(l);
    S.assert(done.length === N && log.length === N, "an operation never ran or never ended");
    for (let i = 0; i < N; i++) for (let j = i + 1; j < N; j++) if (ids[ops[i].name] && ids[ops[i].name] === ids[ops[j].name]) { S.cover("waited"); S.assert(log.indexOf(i) < log.indexOf(j), "operations on one file ran out of order"); }
  } },
  write: { covers: ["written", "collision", "copied", "source changed", "foreign"], async run(S) {
    const how = S.pick("how", ["content", "contentRef", "payloadRef"]), text = S.conc(S.str("text", { min: 0, max: 2, of: "aé\uD800" }));
    const what = S.pick("what", ["none", "occupy", "change source", "remove source"]), at = what === "none" ? 0 : S.upto("at", 14);
    const w = { files: new Map([["/w", null], ["/w/old", "old"]]), n: -1 };
    const err = (c) => Object.assign(new Error(c), { code: c });
    const step = () => { if (w.n >= 0 && w.n++ === at) { if (what === "occupy" && !w.files.has("/w/new")) { S.cover("foreign"); w.files.set("/w/new", "theirs"); } const s = w.source; if (s && what === "change source" && w.files.has(s)) w.files.set(s, "zz"); if (s && what === "remove source") w.files.delete(s); } };
    const hash = (p) => { if (!w.files.has(p)) throw err("ENOENT"); return digest(w.files.get(p)); };
    const c = new FileMutationIntentController({ now: () => S.now, operations: {
      async inspect(p) { step(); return w.files.has(p) ? { kind: w.files.get(p) === null ? "directory" : "file", identity: { dev: "1" } } : p === "/" ? { kind: "directory", identity: {} } : undefined; },
      async access() { step(); },
      async copyFileExclusive(a, b) { step(); if (w.files.has(b)) throw err("EEXIST"); if (!w.files.has(a)) throw err("ENOENT"); w.files.set(b, w.files.get(a)); w.mine = true; },
      async hashFile(p) { step(); return hash(p); },
      async readPayload(p) { step(); return w.files.get(p); },
      async removeFile(p) { step(); if (p === "/w/new") S.assert(w.mine, "a file somebody else made was removed"); if (!w.files.delete(p)) throw err("ENOENT"); },
      async stagePayload(t) { step(); w.staged = "/stage/" + w.files.size; w.files.set(w.staged, wtf(t)); return w.staged; },
    } });
    const tool = createWriteToolDefinition("/w", { intentController: c, operations: { async createFile(p, t) { step(); if (w.files.has(p)) throw err("EEXIST"); w.files.set(p, wtf(t)); w.mine = true; }, async mkdir() { step(); } } });
    const go = (o) => S.tryAsync(() => tool.execute("1", o));
    const ref = (r) => /(?:contentRef|payloadRef) ([a-z-]+:[^. ]+)/.exec(r.ok ? r.value.content[0].text : r.error.message)[1];
    let arg;
    if (how === "content") arg = { content: text };
    else if (how === "contentRef") { const r = await go({ path: "/w/src", content: text }); S.assert(r.ok, "a write to a free path failed"); w.source = "/w/src"; arg = { contentRef: ref(r) }; }
    else { const r = await go({ path: "/w/old", content: text }); S.assert(!r.ok && w.files.get("/w/old") === "old", "a write replaced an existing file"); w.source = w.staged; arg = { payloadRef: ref(r) }; const wrong = await S.tryAsync(() => c.readMutationPayload(arg.payloadRef, "edit")); S.assert(!wrong.ok, "a payload kept for a write was handed to an edit"); }
    w.mine = false; w.n = 0;
    const r = await go({ path: "/w/new", ...arg });
    const now = w.files.get("/w/new");
    if (!w.mine && now === "theirs") { S.cover("collision"); S.assert(!r.ok, "a write that found its path taken reported success"); const again = await go({ path: "/w/new2", ...(how === "content" ? { payloadRef: ref(r) } : arg) }); if (what === "occupy") S.assert(again.ok && w.files.get("/w/new2") === wtf(text), "the payload kept after a collision is not the one that was sent"); return; }
    if (r.ok) { S.cover(how === "content" ? "written" : "copied"); S.assert(now === wtf(text), "what was written is not what was asked for"); return; }
    if (how !== "content" && what !== "none") { S.cover("source changed"); S.assert(now === undefined, "a failed copy left a file behind"); return; }
    S.fail("a write to a free path failed");
  } },
};
const wtf = (t) => Buffer.from(t, "utf-8").toString("utf-8");
import { createHash } from "node:crypto";
const digest = (t) => createHash("sha256").update(t, "utf8").digest("hex");
