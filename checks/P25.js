// Long output: what is shown is an unbroken part of the real output, every gap is named, and the whole can be had.
import { S } from "symex";
import fs from "node:fs";
import { crash } from "./lib/fault.js";
import { truncateHead, truncateTail, truncateMiddle, truncateKnownHeadTail } from "@repo/packages/agent/src/utils/truncate.ts";
import { OutputAccumulator } from "@repo/packages/coding-agent/src/core/tools/output-accumulator.ts";
import { createReadToolDefinition } from "@repo/packages/coding-agent/src/core/tools/read.ts";
import { packToolOutput } from "@repo/packages/coding-agent/src/core/context/tool-output-packer.ts";
import { createFileArtifactStore, createInMemoryArtifactStore, isMissingArtifactMarker } from "@repo/packages/coding-agent/src/core/context/context-artifacts.ts";
import { retrieveArtifactSlice } from "@repo/packages/coding-agent/src/core/context/artifact-retrieval.ts";

export const meta = {
  bounds: ["helpers: up to five lines of 0, 1, 3 or 70 characters (one, two or three bytes each), with or without a final newline, under every byte limit from 64 to 130 and every line limit from 3 to 6 (symbolic)", "streamed output: up to five such lines cut into chunks at any byte, with any saved-bytes cap, and a failing file system", "read: files of up to four (thorough five) lines, offset, limit, tail, filters and numbering, whole or sliced with reads of 1 or 3 bytes; and files past the 50 KB and 2000-line limits", "artifacts: four operations of two captures and two holders in two stores over one folder, with a crash at any file operation"],
  outside: ["byte limits too small for the marker line", "images", "lines over 50 KB in a file read (the reply names another way)"],
  assumptions: [],
};
const bytes = (s) => Buffer.byteLength(s, "utf8");
const linesOf = (t) => { if (t === "") return []; const l = t.split("\n"); if (t.endsWith("\n")) l.pop(); return l; };
const fill = (k, c) => k === 0 ? "" : c.repeat(k);
// Some text of a few lines: each line has its own letter so that no two places look alike.
const someText = (n, sizes) => {
  const wide = S.pick("wide", ["", "é", "漢"]), out = [];
  for (let i = 0; i < n; i++) { const k = S.pick("len" + i, sizes); out.push(fill(k, String.fromCharCode(97 + i)) + (i === n - 1 || i === 0 ? fill(k > 0 ? 1 : 0, wide) : "")); }
  return out.join("\n") + (S.flag("newline") ? "\n" : "");
};
const MARK = /^\.\.\.\[middle omitted: (\d+) lines, (\S+)\]$/;
// The shown text is a head run, a named gap and a tail run of the real lines (or only one of the runs).
const partOf = (shown, lines, allowHead, allowTail, must) => {
  const got = shown === "" ? [] : shown.split("\n"), at = got.findIndex((l) => MARK.test(l));
  if (at >= 0) {
    const h = got.slice(0, at), t = got.slice(at + 1), gap = Number(MARK.exec(got[at])[1]);
    must(h.every((l, i) => l === lines[i]), "the lines shown before the gap are not the first lines");
    must(t.every((l, i) => l === lines[lines.length - t.length + i]), "the lines shown after the gap are not the last lines");
    must(gap === lines.length - h.length - t.length && gap > 0, "the gap does not name the number of lines left out");
    return "gap";
  }
  const head = allowHead && got.every((l, i) => l === lines[i]), tail = allowTail && got.every((l, i) => l === lines[lines.length - got.length + i]);
  must(head || tail, "the shown lines are not an unbroken part of the output");
  return head ? "head" : "tail";
};
// Where head and tail meet, a blank last line may count as the end of the line before it.
const lastBlank = (L, t) => t.totalLines === L.length - 1 && L[L.length - 1] === "" ? L.slice(0, -1) : L;
const setup = () => S.stub("packages/coding-agent/src/config.ts", { getAgentDir: () => "/agent", getReadmePath: () => "/pkg/README.md", CONFIG_DIR_NAME: ".pi" });
const must = (c, l) => { if (!c) S.fail(l); };
export const cases = {
  helpers: { covers: ["fits", "head", "tail", "middle", "partial", "first too long"], run(S) {
    const text = someText(S.pick("n", [1, 4, 5]), [0, 1, 70]), total = bytes(text); let L = linesOf(text);
    const maxBytes = S.int("maxBytes", 64, 130), maxLines = S.int("maxLines", 3, 6), o = { maxBytes, maxLines };
    const fn = S.pick("fn", ["head", "tail", "middle", "known"]);
    const fits = S.truth(total <= maxBytes) && S.truth(L.length <= maxLines);
    let r;
    if (fn === "known") { const h = S.upto("known head", Math.min(L.length, 3)), t = S.upto("known tail", Math.min(L.length, 3)); if (fits) return; r = truncateKnownHeadTail(L.slice(0, h), t === 0 ? [] : L.slice(-t), { totalLines: L.length, totalBytes: total }, o); }
    else r = fn === "head" ? truncateHead(text, o) : fn === "tail" ? truncateTail(text, o) : truncateMiddle(text, o);
    if (fn === "known" && !r.truncated) { S.cover("fits"); S.assert(r.content === L.join("\n"), "output was cut without saying so"); return; }
    if (fn === "known") L = lastBlank(L, r);
    S.assert(r.totalLines === L.length, "the total number of lines is wrong");
    if (fn !== "known" || r.totalBytes !== total) S.assert(r.totalBytes === total || (fn === "known" && r.totalBytes === bytes(linesOf(text).join("\n"))), "the total number of bytes is wrong");
    S.assert(r.outputBytes === bytes(r.content), "the size of the shown part is wrong");
    if (fits) { S.cover("fits"); S.assert(!r.truncated && r.content === text, "output within the limits was changed"); return; }
    S.assert(r.truncated, "output was cut without saying so");
    S.assert(S.truth(r.outputBytes <= maxBytes), "more bytes than the limit were shown");
    const shown = r.content === "" && r.outputLines !== 1 ? [] : r.content.split("\n");
    S.assert(S.truth(shown.length <= maxLines), "more lines than the limit were shown");
    S.assert(r.outputLines === shown.length, "the number of shown lines is wrong");
    if (r.lastLinePartial) {
      S.cover("partial"); const last = L[L.length - 1];
      S.assert(fn === "tail" && shown.length === 1 && last.endsWith(r.content) && S.truth(bytes(last) > maxBytes), "a partial line that is not the end of an over-long last line");
      const more = Array.from(last); S.assert(S.truth(bytes(more.slice(more.length - Array.from(r.content).length - 1).join("")) > maxBytes), "a partial line shorter than the limit allows"); return;
    }
    if (r.firstLineExceedsLimit) { S.cover("first too long"); S.assert(r.content === "" && S.truth(bytes(L[0]) > maxBytes), "a first line called too long is not"); return; }
    const kind = partOf(r.content, L, fn !== "tail", fn === "tail" || fn === "known", must);
    if (kind === "gap") { S.cover("middle"); S.assert(fn === "middle" || fn === "known", "a gap in the middle of a head or tail"); return; }
    S.cover(kind);
    if (fn === "head") S.assert(S.truth(shown.length === maxLines) || shown.length === L.length || S.truth(bytes(L.slice(0, shown.length + 1).join("\n")) > maxBytes), "fewer lines than the limits allow were shown");
    if (fn === "tail") S.assert(S.truth(shown.length === maxLines) || shown.length === L.length || S.truth(bytes(L.slice(L.length - shown.length - 1).join("\n")) > maxBytes), "fewer lines than the limits allow were shown");
  } },
  stream: { covers: ["fits", "gap", "tail", "partial", "split character", "preview"], run(S) {
    setup(); fs.mkdirSync("/out");
    const text = someText(S.pick("n", [1, 3, 5]), [0, 40, 100]), raw = Buffer.from(text, "utf8");
    const maxLines = S.pick("maxLines", [3, 20]), maxBytes = S.pick("maxBytes", [80, 128]);
    const mk = () => new OutputAccumulator({ maxLines, maxBytes, tempDirectory: "/out", windowsCompatibleEncoding: false });
    const whole = mk(); whole.append(raw); whole.finish();
    const cuts = raw.length === 0 ? [0] : [...new Set([0, 1, Math.floor(raw.length / 2), raw.length - 1, raw.length - 2].filter((x) => x >= 0))], cut = S.pick("cut", cuts);
    if ((raw[cut] & 0xc0) === 0x80) S.cover("split character");
    const a = mk(); a.append(raw.subarray(0, cut)); if (S.flag("look between")) a.snapshot(); a.append(raw.subarray(cut)); a.finish();
    const s = a.snapshot({ persistIfTruncated: true }), t = s.truncation, L0 = linesOf(text), L = lastBlank(L0, t);
    S.assert(JSON.stringify(whole.snapshot().truncation) === JSON.stringify(t), "how the output arrived changes what is shown");
    S.assert(a.getOutputSignature() === whole.getOutputSignature(), "how the output arrived changes its signature");
    S.assert(t.totalLines === L.length && (t.totalBytes === raw.length || t.totalBytes === bytes(L0.join("\n"))), "the totals are wrong");
    const fits = L0.length <= maxLines && raw.length <= maxBytes;
    if (fits) { S.cover("fits"); S.assert(!t.truncated && s.content === text, "output within the limits was changed"); }
    else if (!t.truncated) S.assert(s.content === L0.join("\n"), "output was cut without saying so");
    else {
      S.assert(bytes(s.content) <= maxBytes, "more bytes than the limit were shown");
      S.assert(fs.existsSync(s.fullOutputPath) && fs.readFileSync(s.fullOutputPath, "utf8") === text, "the saved output is not the whole output");
      if (t.lastLinePartial) { S.cover("partial"); S.assert(L.length > 0 && L[L.length - 1].endsWith(s.content) && L[L.length - 1] !== s.content, "a partial line that is not the end of the last line"); }
      else if (t.firstLineExceedsLimit) S.assert(s.content === "", "content beside a too long first line");
      else S.cover(partOf(s.content, L, true, true, must));
    }
    if (L0.length > 0) {
      const L = L0; S.cover("preview"); const p = a.preview(S.pick("rows", [1, 2]), 60);
      if (bytes(L[L.length - 1]) <= 60) { const shown = (p.skippedLines > 0 ? p.content : p.content.replace(/\n$/, "")).split("\n"); S.assert(shown.every((l, i) => l === L[L.length - shown.length + i]) && p.skippedLines === L.length - shown.length, "the live view is not the end of the output, or miscounts what it skips"); }
      else S.assert(L[L.length - 1].endsWith(p.content), "the live view is not the end of the output");
    }
  } },
  saved: { covers: ["whole", "capped", "failed", "small"], run(S) {
    setup(); if (S.flag("folder")) fs.mkdirSync("/out");
    const sizes = [S.pick("a", [0, 3, 30]), S.pick("b", [0, 3, 30]), S.pick("c", [1, 30])], cap = S.pick("cap", [undefined, 1, 20, 33]);
    const text = sizes.map((k, i) => fill(k, String.fromCharCode(97 + i))).join("");
    const always = S.flag("persistAll"), failAt = S.upto("failAt", 4); let n = 0, hit = false;
    S.fs.S.hook = (op, path, extra) => { if (op === "read" || op === "open:r") return; if (!fs.existsSync("/out") && op !== "open:w") return; if (n++ === failAt) { hit = true; throw S.fs.err("ENOSPC", op, path); } };
    const a = new OutputAccumulator({ maxLines: 5, maxBytes: 24, tempDirectory: "/out", persistAllOutput: always, maxPersistedBytes: cap });
    let o = 0; for (const k of sizes) { a.append(Buffer.from(text.slice(o, o + k))); o += k; }
    a.finish(); const s = a.snapshot({ persistIfTruncated: true }); S.fs.S.hook = null;
    if (s.fullOutputPath === undefined) { if (s.fullOutputError === undefined) { S.cover("small"); S.assert(!s.truncation.truncated && !always, "output was cut and neither a saved file nor an error is reported"); } else { S.cover("failed"); S.assert(hit || !fs.existsSync("/out"), "an error although nothing failed"); } }
    else {
      const file = fs.readFileSync(s.fullOutputPath, "utf8"), want = cap === undefined ? text : text.slice(0, cap);
      S.assert(file === want, "the saved output is not the output up to its cap"); S.assert(s.fullOutputError === undefined, "a saved output with an error");
      if (want !== text) { S.cover("capped"); S.assert(s.persistedOutputTruncated === true && s.persistedOutputBytes === want.length, "the saved output was cut without saying so"); } else { S.cover("whole"); S.assert(!s.persistedOutputTruncated, "the saved output is called cut and is whole"); }
    }
  } },
  read: { covers: ["one page", "more pages", "sliced", "filtered", "beyond", "tail"], async run(S) {
    setup(); fs.mkdirSync("/w");
    const filter = S.pick("filter", ["none", "minimal", "aggressive"]), KINDS = filter === "none" ? ["a", "", "é漢"] : ["a ", "", "# c"];
    const n = S.pick("n", S.thorough ? [1, 3, 5] : [1, 4]), L = []; for (let i = 0; i < n; i++) { const k = S.pick("l" + i, KINDS); L.push(k === "" || k === "# c" ? k : i + k); }
    const end = S.flag("newline"); fs.writeFileSync("/w/f.txt", L.join("\n") + (end ? "\n" : ""));
    const all = end || L[n - 1] !== "" || n === 1 ? L : L.slice(0, -1);
    if (all.length === 0) return;
    const sliced = S.flag("sliced"); if (sliced) { S.cover("sliced"); S.fs.S.readMax = S.pick("chunk", [1, 3]); }
    const tool = createReadToolDefinition("/w", { maxTextReadBytes: sliced ? 0 : undefined });
    const call = async (a) => (await tool.execute("t", { path: "f.txt", lineNumbers: true, filter, ...a }, undefined, undefined, undefined)).content[0].text;
    const start = S.pick("start", ["begin", "offset", "tail"]), limit = S.pick("limit", [1, 3]), seen = [];
    let args = start === "begin" ? { limit } : start === "offset" ? { offset: S.pick("offset", [1, 2, 9]), limit } : { tail: S.pick("tail", [1, 2, 9]), limit };
    const first = start === "begin" ? 1 : start === "offset" ? args.offset : Math.max(1, all.length - args.tail + 1);
    for (let page = 0; ; page++) {
      S.assert(page < 8, "following the pages never ends");
      const r = await S.tryAsync(() => call(args));
      if (!r.ok) { S.cover("beyond"); S.assert(page === 0 && first > all.length, "a part of the file cannot be read"); return; }
      const m = /\n\n\[(.*)\. Use offset=(\d+) to continue\.\]$/.exec(r.value), body = m ? r.value.slice(0, m.index) : r.value;
      for (const l of body === "" ? [] : body.split("\n")) seen.push(l);
      if (!m) { S.cover(page === 0 ? "one page" : "more pages"); break; }
      args = { offset: Number(m[2]), limit };
    }
    if (start === "tail") S.cover("tail");
    const numbers = seen.map((l) => Number(/^(\d+): /.exec(l)?.[1] ?? S.fail("a line without its number")));
    for (let i = 0; i < seen.length; i++) { const raw = all[numbers[i] - 1]; S.assert(raw !== undefined && (seen[i] === numbers[i] + ": " + raw || (filter !== "none" && seen[i] === numbers[i] + ": " + raw.trimEnd())), "a line is shown with another line's text"); if (i > 0) S.assert(numbers[i] > numbers[i - 1], "a line is shown twice or out of order"); }
    for (let k = first; k <= all.length; k++) { const raw = all[k - 1]; if (filter === "none" || raw.endsWith("a ")) S.assert(numbers.includes(k), "a line is never shown"); }
    if (filter !== "none") S.cover("filtered");
  } },
  large: { covers: ["by bytes", "by lines", "too long"], async run(S) {
    setup(); fs.mkdirSync("/w"); const many = S.flag("many"), filter = S.pick("filter", ["none", "aggressive"]);
    const L = many ? Array.from({ length: 2003 }, (_, i) => i === 1 || i === 1000 ? "# note" : "x" + i) : ["# note", fill(S.pick("one", [10, 30000]), "b"), fill(S.pick("two", [20000, 21199, 21200, 51100, 52000]), "c"), "end"];
    fs.writeFileSync("/w/f.txt", L.join("\n"));
    const sliced = !many && S.flag("sliced"), tool = createReadToolDefinition("/w", { maxTextReadBytes: sliced ? 0 : undefined });
    const shown = []; let offset = 1;
    for (let page = 0; ; page++) {
      S.assert(page < 6, "following the pages never ends");
      const text = (await tool.execute("t", { path: "f.txt", offset, filter, lineNumbers: false }, undefined, undefined, undefined)).content[0].text;
      const big = /^\[Line (\d+) is .* exceeds 50\.0KB limit/.exec(text);
      if (big) { S.cover("too long"); const k = Number(big[1]); S.assert(bytes(L[k - 1]) > 50 * 1024 && k >= offset, "another line than the one named is too long"); for (let j = offset; j < k; j++) S.assert(L[j - 1].startsWith("#") && filter !== "none", "lines before the too long one were passed over"); shown.push(L[k - 1]); offset = k + 1; if (offset > L.length) break; continue; }
      const m = /\n\n\[([^\]]*)\. Use offset=(\d+) to continue\.\]$/.exec(text), body = m ? text.slice(0, m.index) : text;
      S.assert(bytes(body) <= 50 * 1024, "a page above the byte limit");
      for (const l of body.split("\n")) shown.push(l);
      if (!m) break;
      S.cover(m[1].includes("KB limit") ? "by bytes" : "by lines");
      const range = /^Showing lines (\d+)-(\d+) of (.*?)(?: \(50\.0KB limit\))?$/.exec(m[1]);
      if (range) S.assert(Number(range[1]) === offset && Number(range[2]) + 1 === Number(m[2]), "the named line range is not what was shown");
      offset = Number(m[2]);
    }
    const want = filter === "none" ? L : L.filter((l) => !l.startsWith("#"));
    S.assert(shown.filter((l) => filter === "none" || !l.startsWith("#")).join("\n") === want.join("\n"), "the pages together are not the file");
  } },
  artifacts: { covers: ["kept", "cleaned", "crashed", "refused id"], run(S) {
    const mk = () => createFileArtifactStore({ baseDir: "/a" }); let st = [mk(), mk()];
    const req = (c) => ({ kind: "tool_output", content: "payload " + c + " é\n", toolName: "grep", createdAtTurn: 1, reproducible: true });
    const ids = {}, held = new Set(), written = new Set(), sure = { held: new Set() };
    const OPS = ["write 1", "write 2", "hold 1a", "hold 1b", "free 1a", "hold 2a", "cleanup"];
    const c = S.flag("crashes") ? crash(S, S.thorough ? 60 : 45, { cuts: true }) : null;
    const setupOps = ["write 1", "hold 1a"]; const N = S.thorough ? 3 : 2; let unsure = null;
    const apply = (op, k) => {
      const alive = () => { if (c && c.dead) throw Object.assign(new Error("dead"), { code: "EDEAD" }); };
      const store = st[k % 2], [verb, arg] = op.split(" "), w = arg?.[0], key = arg;
      if (verb === "write") { const r = store.write(req(w)); alive(); ids[w] = r.ref.id; S.assert(r.content === req(w).content, "a capture returns other content"); written.add(w); }
      else if (verb === "hold") { if (!ids[w]) return; unsure = key; const ok = store.addReference(ids[w], key); alive(); if (ok) held.add(key); else S.assert(!written.has(w), "a live artifact could not be held"); unsure = null; }
      else if (verb === "free") { if (!ids[w]) return; unsure = key; const was = held.has(key); held.delete(key); const did = store.removeReference(ids[w], key); alive(); S.assert(did === was || !written.has(w), "a release that is not what it says"); unsure = null; }
      else { const gone = store.cleanup(); alive(); for (const id of gone) { const w2 = Object.keys(ids).find((x) => ids[x] === id); S.cover("cleaned"); S.assert(![...held].some((h) => h[0] === w2), "a held artifact was cleaned up"); written.delete(w2); } }
    };
    let died = false;
    try { for (const op of setupOps) apply(op, 0); for (let k = 0; k < N; k++) apply(S.pick("op" + k, OPS), S.flag("other") ? k : 0); apply("cleanup", S.flag("last") ? 1 : 0); } catch (e) { if (!c || e.code !== "EDEAD") throw e; died = true; S.cover("crashed"); }
    if (c) died = c.end() || died;
    const fresh = mk(); if (died) fresh.cleanup();
    for (const w of Object.keys(ids)) {
      const live = [...held].some((h) => h[0] === w && h !== unsure);
      const r = fresh.read(ids[w]);
      if (isMissingArtifactMarker(r)) S.assert(!live || !written.has(w) && !live, "an artifact still held cannot be read");
      else { S.cover("kept"); S.assert(r.content === req(w).content && r.ref.id === ids[w] && r.ref.byteLength === bytes(req(w).content), "an artifact reads back as something else"); }
      S.assert(fresh.has(ids[w]) === !isMissingArtifactMarker(r), "whether an artifact exists depends on how one asks");
      if (!died && written.has(w)) S.assert(fresh.referenceCount(ids[w]) === [...held].filter((h) => h[0] === w).length, "the number of holders is wrong");
    }
    if (!died) { S.cover("refused id"); fs.writeFileSync("/secret.payload", "x"); fs.writeFileSync("/secret.meta.json", fs.existsSync("/a") && ids[1] && written.has("1") ? fs.readFileSync("/a/" + ids[1] + ".meta.json", "utf8") : "{}"); for (const bad of ["../secret", "", "ABC", "a/b", "g"]) { S.assert(isMissingArtifactMarker(fresh.read(bad)) && !fresh.has(bad) && fresh.readRef(bad) === undefined && !fresh.addReference(bad, "h"), "an id that is none was followed"); } }
  } },
  packed: { covers: ["small", "packed", "no store", "unprotected", "slice"], run(S) {
    const text = someText(S.pick("n", [1, 5]), [1, 70]), L = linesOf(text), mem = createInMemoryArtifactStore();
    const kind = S.pick("store", ["none", "works", "fails to hold"]), store = kind === "none" ? undefined : kind === "works" ? mem : { ...mem, addReference: () => false };
    const lim = { maxBytes: S.int("maxBytes", 64, 130), maxLines: 4 }, r = packToolOutput({ toolName: "grep", rawContent: text, truncation: lim }, store, "h");
    if (!r.truncation.truncated) { S.cover("small"); S.assert(r.content === text && !r.packed, "small output was changed"); return; }
    if (!r.packed) { S.cover(kind === "none" ? "no store" : "unprotected"); S.assert(r.artifactId === undefined && kind !== "works", "an artifact is named that nothing protects, or none was kept"); return; }
    S.cover("packed"); S.assert(kind === "works" && mem.read(r.artifactId).content === text && mem.referenceCount(r.artifactId) === 1, "the artifact named is not the whole output, or is not held");
    S.assert(mem.cleanup().length === 0, "a held artifact was cleaned up");
    const mode = S.pick("mode", ["head", "tail", "metadata"]), q = retrieveArtifactSlice(mem, { artifactId: r.artifactId, mode, maxLines: S.pick("q lines", [undefined, 0, 2, 100000]), maxBytes: S.pick("q bytes", [undefined, 75, 100000000]) });
    S.assert(q.found && q.ref.id === r.artifactId, "the artifact is not found");
    if (mode !== "metadata") { S.cover("slice"); if (q.truncation.truncated) { if (!q.truncation.lastLinePartial) partOf(q.slice, L, mode === "head", mode === "tail", must); } else S.assert(q.slice === text, "a slice called whole is not"); S.assert(q.truncation.maxLines <= 2000 && q.truncation.maxBytes <= 51200, "the limits asked for go beyond the ceiling"); }
    mem.removeReference(r.artifactId, "h"); mem.cleanup(); const gone = retrieveArtifactSlice(mem, { artifactId: r.artifactId }); S.assert(!gone.found && gone.missingReason === "cleaned_up", "a cleaned artifact is made up");
  } },
};
