// Atomic stores and bounded logs: whole old or whole new content after a crash or I/O error at any point.
import { S } from "symex";
import fs from "node:fs";
import { crash, fault } from "./lib/fault.js";
import { withFileLockSync, withFileLock, writeFileAtomicSync, writeFileAtomic } from "@repo/packages/coding-agent/src/core/util/atomic-file.ts";
import { appendBoundedJsonLineSync, appendBoundedJsonLine } from "@repo/packages/coding-agent/src/core/util/bounded-jsonl.ts";

export const meta = {
  bounds: ["every crash point (before each mutating file operation, or inside a write after any prefix) of one atomic overwrite, synchronous and asynchronous, and one injected ENOSPC or EIO at every operation", "old and new contents: every string of up to 2 characters", "two read-modify-write updates contending for one lock, interleaved at every await", "bounded log: up to 4 (thorough 5) appends of symbolic records under symbolic limits, and a crash in the last one"],
  outside: ["power loss that reorders completed operations", "renames that are not atomic", "Windows retry behaviour"],
  assumptions: ["a process crash keeps what was already written"],
};
const leftovers = () => fs.readdirSync("/w").filter((n) => n !== "f" && n !== "f.lock");
export const cases = {
  overwrite: { covers: ["crashed", "completed"], async run(S) {
    const had = S.flag("had"), old = had ? S.str("old", { min: 0, max: 2 }) : undefined, nu = S.str("new", { min: 0, max: 2 });
    fs.mkdirSync("/w"); if (had) fs.writeFileSync("/w/f", old, { mode: 0o600 });
    const c = crash(S, 8);
    const r = S.flag("async") ? await S.tryAsync(() => writeFileAtomic("/w/f", nu, { mode: 0o600 })) : S.try(() => writeFileAtomicSync("/w/f", nu, { mode: 0o600 }));
    const died = c.end();
    S.cover(died ? "crashed" : "completed");
    const now = fs.existsSync("/w/f") ? fs.readFileSync("/w/f", "utf8") : undefined;
    if (died) S.assert(now === undefined ? !had : now === nu || (had && now === old), "after a crash the file is neither its old nor its new content");
    else { S.assert(r.ok && now === nu, "a completed overwrite is not what was written"); S.assert(leftovers().length === 0, "a completed overwrite leaves a temporary file"); S.assert((fs.statSync("/w/f").mode & 0o777) === 0o600, "the requested permission bits are not on the file"); }
  } },
  faults: { covers: ["failed"], async run(S) {
    const old = S.str("old", { min: 0, max: 1 }), nu = S.str("new", { min: 1, max: 2 });
    fs.mkdirSync("/w"); fs.writeFileSync("/w/f", old);
    const c = fault(S, 5);
    const r = S.flag("async") ? await S.tryAsync(() => writeFileAtomic("/w/f", nu)) : S.try(() => writeFileAtomicSync("/w/f", nu));
    c.end();
    const now = fs.readFileSync("/w/f", "utf8");
    if (r.ok) S.assert(now === nu, "a write that reported success is not there");
    else { S.cover("failed"); S.assert(now === old, "a failed overwrite damaged the old content"); S.assert(leftovers().length === 0 || c.hit === "unlink", "a failed overwrite leaves its temporary file"); }
  } },
  rmw: { covers: ["both"], async run(S) {
    fs.mkdirSync("/w"); fs.writeFileSync("/w/f", "0");
    const pause = async (k) => { const n = S.upto(k, 2); for (let i = 0; i < n; i++) await new Promise((r) => setTimeout(r, 10)); };
    const fails = S.flag("firstFails");
    const upd = (k, bad) => withFileLock("/w/f", async () => { const v = Number(fs.readFileSync("/w/f", "utf8")); await pause(k); if (bad) throw new Error("callback failed"); await writeFileAtomic("/w/f", String(v + 1)); return v; });
    const rs = await Promise.all([S.tryAsync(() => upd("a", fails)), S.tryAsync(async () => { await pause("gap"); return upd("b"); }), S.tryAsync(() => upd("c"))]);
    const ok = rs.filter((r) => r.ok).length;
    S.cover("both");
    S.assert(ok === (fails ? 2 : 3), "an update under the lock failed because of another one");
    S.assert(fs.readFileSync("/w/f", "utf8") === String(ok), "a concurrent update was lost");
    S.assert(!fs.existsSync("/w/f.lock"), "the lock is still held");
    const t = S.try(() => withFileLockSync("/w/f", () => { throw new Error("x"); }));
    S.assert(!t.ok && t.error.message === "x" && !fs.existsSync("/w/f.lock"), "the callback's error and the lock's release survive a failure");
  } },
  bounded: { covers: ["rotated", "appended"], async run(S) {
    fs.mkdirSync("/w");
    const n = S.thorough ? 5 : 4;
    const lim = { maxBytes: S.upto("maxBytes", 30, 12), targetBytes: S.pick("target", [6, 12]), maxRecords: S.upto("maxRecords", 3, 1) };
    const asy = S.flag("async");
    const sent = [];
    for (let i = 0; i < n; i++) {
      const rec = S.pick("rec" + i, ["a", "bcdef"]) + i;
      if (asy) await appendBoundedJsonLine("/w/f", rec, lim); else appendBoundedJsonLineSync("/w/f", rec, lim);
      sent.push(rec);
      const text = fs.readFileSync("/w/f", "utf8");
      const got = text.split("\n").filter((l) => l).map((l) => JSON.parse(l));
      S.assert(Buffer.byteLength(text) <= lim.maxBytes && got.length <= lim.maxRecords, "the log exceeds its limits");
      S.assert(got.length >= 1 && JSON.stringify(got) === JSON.stringify(sent.slice(sent.length - got.length)), "the log is not a suffix of what was appended");
      S.cover(got.length === sent.length ? "appended" : "rotated");
    }
  } },
  boundedCrash: { covers: ["crashed"], async run(S) {
    fs.mkdirSync("/w");
    const lim = { maxBytes: 24, targetBytes: 12, maxRecords: 3 };
    const n = S.upto("n", 3, 1);
    for (let i = 0; i < n; i++) appendBoundedJsonLineSync("/w/f", "r" + i, lim);
    const c = crash(S, 8);
    S.try(() => appendBoundedJsonLineSync("/w/f", "last", lim));
    if (c.end()) S.cover("crashed");
    const lines = fs.readFileSync("/w/f", "utf8").split("\n");
    const whole = lines.slice(0, -1).map((l) => JSON.parse(l));
    S.assert(whole.length >= 1, "a crash while appending lost the whole log");
    const all = []; for (let i = 0; i < n; i++) all.push("r" + i);
    const kept = whole.filter((x) => x !== "last");
    S.assert(kept.length >= 1 && JSON.stringify(kept) === JSON.stringify(all.slice(n - kept.length)), "complete records before the crash are damaged");
  } },
};
