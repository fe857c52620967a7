// The edit tool: the one place asked for is replaced, nothing else in the file moves, and a batch is all or nothing.
import { S } from "symex";
import { planEditsToNormalizedContent, applyEditMatchPlan, applyEditsToNormalizedContent, normalizeForFuzzyMatch } from "@repo/packages/coding-agent/src/core/tools/edit-diff.ts";
import { createEditToolDefinition } from "@repo/packages/coding-agent/src/core/tools/edit.ts";
import { FileMutationIntentController } from "@repo/packages/coding-agent/src/core/tools/file-mutation-intent.ts";

export const meta = {
  bounds: ["file texts of up to 5 (thorough 6) characters over two letters and newline, one or two edits of up to 2 characters each, with or without a line range of any bounds from 0 to 4", "approximate matches: texts of up to 4 (thorough 5) characters over a letter, blank, curly quote, dash and newline, and over a combining accent and a ligature, with the wanted text any slice of the file as a model would retype it"],
  outside: ["files that are not UTF-8", "a write by another process between the last identity check and the write itself, which the code states it cannot see"],
  assumptions: [],
};
const occ = (t, o) => { const r = []; for (let i = 0; i + o.length <= t.length; i++) if (t.slice(i, i + o.length) === o) r.push(i); return r; };
const chars = (t) => t.normalize("NFKC").replace(/[\u201C\u201D]/g, '"').replace(/[\u2013\u2014]/g, "-");
const trimmed = (t) => t.split("\n").map((l) => l.replace(/\s+$/, "")).join("\n");
export const cases = {
  exact: { covers: ["applied", "ambiguous", "absent", "overlap", "same"], run(S) {
    const t = S.str("t", { min: 0, max: S.thorough ? 6 : 5, of: "ab\n" });
    const n = 1 + S.upto("n", 1);
    const edits = [];
    for (let k = 0; k < n; k++) edits.push({ oldText: S.str("o" + k, { min: 1, max: n === 1 ? 3 : 2, of: n === 1 ? "ab\n" : "ab" }), newText: S.pick("n" + k, n === 1 ? ["", "a", "b\n"] : ["", "b"]) });
    const r = S.try(() => applyEditsToNormalizedContent(t, edits, "f"));
    const at = edits.map((e) => occ(t, e.oldText));
    if (at.some((x) => x.length === 0)) { S.cover("absent"); S.assert(!r.ok, "an edit whose text is not in the file was applied"); return; }
    if (at.some((x) => x.length > 1)) { S.cover("ambiguous"); S.assert(!r.ok, "an edit that fits two places was applied"); return; }
    const spans = edits.map((e, k) => [at[k][0], at[k][0] + e.oldText.length, e.newText]).sort((a, b) => a[0] - b[0]);
    if (spans.some((s, k) => k > 0 && spans[k - 1][1] > s[0])) { S.cover("overlap"); S.assert(!r.ok, "overlapping edits were applied"); return; }
    let out = "", p = 0; for (const [i, j, x] of spans) { out += t.slice(p, i) + x; p = j; } out += t.slice(p);
    if (out === t) { S.cover("same"); S.assert(!r.ok, "an edit that changes nothing was reported as done"); return; }
    S.cover("applied");
    S.assert(r.ok && r.value.newContent === out && r.value.baseContent === t, "the result is not the file with exactly the asked places replaced");
  } },
  range: { covers: ["inside", "outside", "bad range"], run(S) {
    const t = S.str("t", { min: 1, max: S.thorough ? 5 : 4, of: "ab\n" });
    const o = S.str("o", { min: 1, max: 2, of: "ab\n" });
    const a = S.upto("from", 4), b = S.upto("to", 4);
    const r = S.try(() => applyEditsToNormalizedContent(t, [{ oldText: o, newText: "X", range: { startLine: a, endLine: b } }], "f"));
    const lines = t.split("\n").length;
    if (a < 1 || b < a || b > lines) { S.cover("bad range"); S.assert(!r.ok, "a range outside the file was accepted"); return; }
    const all = occ(t, o), starts = [0]; for (let i = 0; i < t.length; i++) if (t[i] === "\n") starts.push(i + 1);
    const lo = starts[a - 1], hi = b < lines ? starts[b] : t.length;
    const good = all.length === 1 && all[0] >= lo && all[0] + o.length <= hi;
    if (good) S.cover("inside"); else S.cover("outside");
    S.assert(r.ok === good, good ? "a unique match inside its range was refused" : "an edit outside its range, or of text that occurs twice, was applied");
    if (r.ok) S.assert(r.value.newContent === t.slice(0, all[0]) + "X" + t.slice(all[0] + o.length), "the result is not the file with exactly the asked place replaced");
  } },
  stale: { covers: ["same", "changed"], run(S) {
    const t = S.str("t", { min: 1, max: 4, of: "ab\n" }), u = S.str("u", { min: 1, max: 4, of: "ab\n" });
    const o = S.str("o", { min: 1, max: 2, of: "ab" });
    const plan = S.try(() => planEditsToNormalizedContent(t, [{ oldText: o, newText: "X" }], "f"));
    S.assume(plan.ok);
    const r = S.try(() => applyEditMatchPlan(u, plan.value, "f"));
    if (u === t) { S.cover("same"); S.assert(r.ok, "a fresh plan was refused"); return; }
    S.cover("changed");
    const i = t.indexOf(o);
    if (r.ok) S.assert(u.length === t.length && u.slice(i, i + o.length) === o && r.value.newContent === u.slice(0, i) + "X" + u.slice(i + o.length), "a plan made for another text replaced text nobody asked for");
  } },
  fuzzy: { covers: ["approximate", "refused"], run(S) {
    const t = S.str("t", { min: 1, max: S.thorough ? 5 : 4, of: "a “—\n" });
    const i = S.upto("i", t.length - 1), j = i + 1 + S.upto("len", t.length - i - 1);
    const o = S.flag("trim") ? trimmed(chars(t.slice(i, j))) : chars(t.slice(i, j));
    near(S, t, o, true);
  } },
  composed: { covers: ["approximate", "refused"], run(S) {
    const t = S.str("t", { min: 1, max: S.thorough ? 5 : 4, of: "ef\u0301ﬁ" });
    const nt = chars(t);
    const i = S.upto("i", nt.length - 1), j = i + 1 + S.upto("len", nt.length - i - 1);
    near(S, t, nt.slice(i, j));
  } },
  file: { covers: ["bom", "mixed endings", "lone CR"], async run(S) {
    const pre = S.flag("bom") ? "\uFEFF" : "";
    if (pre) S.cover("bom");
    const head = S.str("head", { min: 0, max: S.thorough ? 4 : 3, of: "a\r\n" }), tail = S.str("tail", { min: 0, max: S.thorough ? 4 : 3, of: "a\r\n" });
    const raw = S.conc(pre + head + "b" + tail);
    const crlf = raw.split("\r\n").length - 1, lf = raw.split("\n").length - 1 - crlf, cr = raw.split("\r").length - 1 - crlf;
    if (cr) S.cover("lone CR"); if (crlf && lf) S.cover("mixed endings");
    const w = world(raw);
    const r = await S.tryAsync(() => w.tool.execute("1", { path: "/w/f", edits: [{ oldText: "b", newText: "X" }] }));
    S.assert(r.ok, "an edit of text that occurs once was refused");
    S.assert(w.text() === pre + head + "X" + tail, "an edit changed line endings or other bytes outside the replaced text");
  } },
  race: { covers: ["seen", "too late", "gone"], async run(S) {
    const other = S.pick("other", ["b2", "2b2", "22", "b1b", ""]), at = S.upto("at", 12);
    const w = world("1b"); let before = "", hit = false; const log = [];
    w.step = (what) => { log.push(what); if (w.n++ === at && !hit) { hit = true; before = what; w.set(other === "" ? undefined : other); } };
    const r = await S.tryAsync(() => w.tool.execute("1", { path: "/w/f", edits: [{ oldText: "b", newText: "X" }] }));
    S.assume(hit);
    if (other === "" && !log.slice(at).includes("write")) { S.cover("gone"); S.assert(!r.ok && w.text() === undefined, "a file that was removed was brought back"); return; }
    const after = log.slice(at), wr = after.indexOf("write");
    if (wr >= 0 && !after.slice(0, wr).includes("inspect")) { S.cover("too late"); return; }
    S.cover("seen");
    const one = other.split("b").length === 2;
    if (w.writes === 0) { S.assert(!r.ok && w.text() === other, "a refused edit changed the file"); return; }
    S.assert(r.ok && (w.text() === other.replace("b", "X") && one), "an edit overwrote a change another process made before it");
  } },
};
function world(raw) {
  const w = { n: 0, v: 1, file: Buffer.from(raw), step: () => {}, writes: 0, set(t) { w.file = t === undefined ? undefined : Buffer.from(t); w.v++; }, text: () => w.file === undefined ? undefined : w.file.toString("utf-8") };
  const gone = () => { const e = new Error("ENOENT"); e.code = "ENOENT"; return e; };
  const intentController = new FileMutationIntentController({ now: () => 1, operations: {
    async inspect() { w.step("inspect"); return w.file === undefined ? undefined : { kind: "file", identity: { dev: "1", ino: "1", mode: "1", size: String(w.file.length), mtimeMs: String(w.v), ctimeMs: String(w.v) } }; },
    async access() { w.step("access"); if (w.file === undefined) throw gone(); },
    async copyFileExclusive() { throw gone(); }, async hashFile() { return ""; }, async readPayload() { return ""; }, async removeFile() {}, async stagePayload() { return "/p"; },
  } });
  w.tool = createEditToolDefinition("/w", { intentController, operations: {
    async readFile() { w.step("read"); if (w.file === undefined) throw gone(); return w.file; },
    async writeFile(_p, t) { w.step("write"); w.writes++; w.file = Buffer.from(t); w.v++; },
    async access() {},
  } });
  return w;
}
function near(S, t, o, plain) {
  S.assume(o.length > 0 && !t.includes(o));
  const r = S.try(() => applyEditsToNormalizedContent(t, [{ oldText: o, newText: "X" }], "f"));
  const want = normalizeForFuzzyMatch(o);
  if (!r.ok) { S.cover("refused"); if (plain) S.assert(want === "" || occ(trimmed(chars(t)), want).length !== 1, "an edit whose text occurs once, up to quotes, dashes and trailing blanks, was refused"); return; }
  S.cover("approximate");
  const out = r.value.newContent;
  const k = out.indexOf("X"), tail = out.slice(k + 1);
  S.assert(out.length >= 1 && k >= 0 && t.startsWith(out.slice(0, k)) && t.endsWith(tail) && k + tail.length <= t.length, "text outside the replaced place changed");
  const span = t.slice(k, t.length - tail.length);
  S.assert(normalizeForFuzzyMatch(span) === want, "what was replaced is not what was asked for");
}
