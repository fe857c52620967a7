// The durable log of orchestration events: every committed event once, in order, through crashes, compaction, other writers and damage.
import { S } from "symex";
import fs from "node:fs";
import { crash, fault } from "./lib/fault.js";
import { OrchestrationEventStore } from "@repo/packages/coding-agent/src/core/orchestration/event-store.ts";

export const meta = {
  bounds: ["histories of up to 4 (thorough 5) appends and compactions by two stores on one directory, with tails of up to 2 events, keys fresh, repeated with the same or other content or absent, right and wrong expected positions", "a crash at each file operation of such a history, writes cut at any point, followed by repeating the interrupted step", "one file error (disk full, I/O error) at each file operation", "one file of the log missing, cut, emptied or replaced, in each state", "a compaction or append by another process at each read of a reader"],
  outside: ["loss of the newest event together with the position file", "more than 8 crashes inside a snapshot write of one session", "damage that keeps an event well formed"],
  assumptions: [],
};
const DIR = "/agent"; let ids = 0;
const open = (S, o = {}) => new OrchestrationEventStore({ agentDir: DIR, sessionId: "s", now: () => new Date(1e12 + S.now).toISOString(), createEventId: () => "e" + ++ids, maxTailEvents: 2, ...o });
const input = (k, c) => ({ type: "objective.created", aggregateId: "o", actor: "kernel", ...(k ? { idempotencyKey: k } : {}), payload: { c } });
const fold = (events) => ({ seen: events.map((e) => e.ordinal + ":" + e.payload.c).join(",") });
const whole = (st) => { const s = st.readProjectionSnapshot(), t = s ? st.readAfter(s.throughOrdinal) : st.readAll(); return [...(s ? s.projection.seen.split(",") : []), ...t.map((e) => e.ordinal + ":" + e.payload.c)].join(","); };
const list = (cs) => cs.map((c, i) => i + 1 + ":" + c).join(",");
const compact = (st) => { const seen = whole(st), n = seen ? seen.split(",").length : 0; return st.compactIfNeeded(n, () => ({ seen })); };
export const cases = {
  history: { covers: ["repeated", "conflict", "position", "compacted", "reopened", "heard"], run(S) {
    ids = 0; const st = [open(S), open(S)], heard = [[], []], cs = [], keys = {}; st.forEach((x, i) => x.subscribe((e) => { heard[i].push(e.ordinal); e.payload.c = "changed"; if (S.thorough) throw new Error("listener"); }));
    const own = [[], []], N = S.thorough ? 5 : 4;
    for (let k = 0; k < N; k++) {
      const w = k === 0 ? 0 : S.pick("w" + k, [0, 1]), op = S.pick("op" + k, k === 0 ? ["fresh", "plain"] : ["fresh", "plain", "again", "other", "wrong", "right", "compact", "reopen"]);
      if (op === "reopen") { S.cover("reopened"); st[w] = open(S); heard[w] = own[w] = []; continue; }
      if (op === "compact") { const did = compact(st[w]); if (did) S.cover("compacted"); S.assert(whole(st[1 - w]) === list(cs), "compacting changes the history"); continue; }
      if (op === "again" || op === "other") {
        const key = Object.keys(keys)[0]; if (!key) continue; S.cover(op === "again" ? "repeated" : "conflict");
        const r = S.try(() => st[w].append(input(key, op === "again" ? keys[key].c : "x"), S.flag("at" + k) ? { expectedLastOrdinal: 0 } : {}));
        if (op === "again") S.assert(r.ok && r.value.ordinal === keys[key].n && r.value.eventId === keys[key].id && r.value.payload.c === keys[key].c, "a repeated append is not answered with the first event"); else S.assert(!r.ok, "a key used for other content is accepted");
        S.assert(whole(st[w]) === list(cs), "a repeated append changes the log"); continue;
      }
      if (op === "wrong") { S.cover("position"); const r = S.try(() => st[w].append(input("p" + k, "p"), { expectedLastOrdinal: cs.length + S.pick("off", [1, -1]) })); S.assert(!r.ok && whole(st[w]) === list(cs), "an append at a position that is not the last is accepted"); continue; }
      const key = op === "plain" ? undefined : "k" + k, c = "c" + k, r = S.try(() => st[w].append(input(key, c), op === "right" ? { expectedLastOrdinal: cs.length } : {}));
      S.assert(r.ok && r.value.ordinal === cs.length + 1 && r.value.payload.c === c, "an append fails or has the wrong position"); cs.push(c); if (key) keys[key] = { n: cs.length, id: r.value.eventId, c }; own[w].push(cs.length);
      r.value.payload.c = "changed";
    }
    for (const x of [...st, open(S)]) S.assert(whole(x) === list(cs), "a store does not read the history that was committed");
    if (own[0].length) S.cover("heard"); for (const i of [0, 1]) S.assert(heard[i].join() === own[i].join(), "a listener does not hear each of its store's commits once");
  } },
  crash: { covers: ["crashed", "absent", "there", "compaction"], run(S) {
    ids = 0; const steps = S.pick("steps", ["a", "aa", "aac", "aaca", "aacaac"]); let st = open(S); const cs = []; const c = crash(S, 70, { cuts: true }); let pending = null, died = false;
    try { for (const [k, s] of [...steps].entries()) { pending = s === "a" ? "c" + k : "compact"; if (s === "a") { st.append(input("k" + k, "c" + k)); cs.push("c" + k); } else compact(st); pending = null; } } catch (e) { if (e.code !== "EDEAD" && !c.dead) throw e; died = true; }
    died = c.end() && died; if (died) S.cover("crashed"); if (pending === "compact") S.cover("compaction");
    st = open(S); const now = whole(st);
    if (pending && pending !== "compact") { S.assert(now === list(cs) || now === list([...cs, pending]), "after a crash the log is neither with nor without the interrupted event"); S.cover(now === list(cs) ? "absent" : "there"); st.append(input("k" + pending.slice(1), pending)); cs.push(pending); }
    S.assert(whole(st) === list(cs), "events were lost, doubled or changed by a crash"); compact(st); st.append(input("next", "next")); cs.push("next");
    S.assert(st.append(input("next", "next")).ordinal === cs.length, "repeating after a crash adds an event"); if (cs.length > 1) S.assert(st.append(input("k0", "c0")).ordinal === 1, "a key used before the crash is forgotten");
    S.assert(whole(open(S)) === list(cs), "after a crash the log cannot be continued");
  } },
  fails: { covers: ["append failed", "compaction failed", "survived"], run(S) {
    ids = 0; const steps = S.pick("steps", ["a", "aa", "aaca", "aacaac"]); let st = open(S); const cs = [], f = fault(S, 60); let doubt = null;
    for (const [k, s] of [...steps].entries()) {
      const hit = f.hit, r = S.try(() => s === "a" ? st.append(input("k" + k, "c" + k)) : compact(st));
      if (!r.ok && r.error.code === undefined && !f.hit) S.fail("an operation failed without a reason");
      if (s === "a") { if (r.ok) cs.push("c" + k); else { S.cover("append failed"); S.now += 120000; const again = S.try(() => st.append(input("k" + k, "c" + k))); S.assert(again.ok, "after an error nothing can be appended"); cs.push("c" + k); } }
      else if (!r.ok) { S.cover("compaction failed"); S.now += 120000; }
      void hit; void doubt;
    }
    f.end(); S.now += 120000; if (f.hit) S.cover("survived"); S.assert(whole(st) === list(cs), "an error changes the log"); S.assert(whole(open(S)) === list(cs), "an error changes the log on disk");
    compact(st); st.append(input("next", "next")); S.assert(whole(open(S)) === list([...cs, "next"]), "after an error the log cannot be continued");
  } },
  damage: { covers: ["detected", "harmless"], run(S) {
    ids = 0; const n = S.upto("n", 5, 1), cs = []; let st = open(S); for (let k = 0; k < n; k++) { st.append(input("k" + k, "c" + k)); cs.push("c" + k); if (S.flag("compact" + k)) compact(st); }
    const live = S.flag("live") ? st : open(S); if (live === st) whole(st);
    const files = []; const walk = (d) => { for (const x of fs.readdirSync(d)) { const p = d + "/" + x; if (fs.statSync(p).isDirectory()) walk(p); else files.push(p); } }; walk(st.rootDir);
    const p = files[S.upto("file", files.length - 1)], how = S.pick("how", ["missing", "cut", "empty", "garbage", "other"]), text = fs.readFileSync(p, "utf8");
    if (how === "missing") fs.unlinkSync(p); else fs.writeFileSync(p, how === "cut" ? text.slice(0, text.length >> 1) : how === "empty" ? "" : how === "garbage" ? "[]" : fs.readFileSync(files[(files.indexOf(p) + 1) % files.length], "utf8"));
    const pointer = p.endsWith("projection-baseline.json") && how === "missing";
    const r = S.try(() => whole(live)); if (r.ok) S.assert(r.value === list(cs), "a damaged log is read as another history"); S.cover(r.ok ? "harmless" : "detected");
    const a = S.try(() => live.append(input("new", "new"))); void pointer;
    if (a.ok) S.assert(a.value.ordinal === n + 1, "an append to a damaged log takes a used position"); else S.assert(fs.readdirSync(st.eventsDir).length <= n, "a refused append leaves an event");
    const last = S.try(() => whole(open(S))); if (last.ok) S.assert(last.value === list(cs) || (a.ok && last.value === list([...cs, "new"])), "a damaged log is read as another history");
  } },
  reader: { covers: ["disturbed", "older", "newer", "refused"], run(S) {
    ids = 0; const w = open(S), cs = ["c0", "c1"]; w.append(input("k0", "c0")); w.append(input("k1", "c1")); if (S.flag("snapshot")) compact(w); w.append(input("k2", "c2")); cs.push("c2"); if (S.flag("more")) { w.append(input("k3", "c3")); cs.push("c3"); }
    const r = open(S), from = S.upto("from", 3), at = S.upto("at", 14), what = S.pick("what", ["append", "compact", "both"]); let n = 0, did = false;
    S.fs.S.hook = () => { if (did || n++ !== at) return; did = true; S.fs.S.hook = null; if (what !== "compact") { w.append(input("n", "n")); cs.push("n"); } if (what !== "append") compact(w); };
    const got = S.try(() => from === 0 ? whole(r) : r.readAfter(from).map((e) => e.ordinal + ":" + e.payload.c).join(",")); S.fs.S.hook = null; if (!did) return; S.cover("disturbed");
    const after = (x) => x.map((c, i) => i + 1 + ":" + c).slice(from).join(",");
    if (!got.ok) { S.cover("refused"); return; }
    const old = what === "compact" ? cs : cs.slice(0, -1); S.assert(got.value === after(cs) || got.value === after(old), "a reader beside a writer sees a history that never was"); S.cover(got.value === after(cs) ? "newer" : "older");
  } },
};
