// Stream framing: records come out the same however the transport cuts the bytes.
import { S } from "symex";
import { EventEmitter } from "node:events";
import { attachJsonlLineReader, serializeJsonLine } from "@repo/packages/coding-agent/src/modes/rpc/jsonl.ts";
import { StreamingLineDecoder } from "@repo/packages/ai/src/utils/streaming-lines.ts";

export const meta = {
  bounds: ["streams of up to 5 (thorough 6) characters over letter, LF, CR, quote and U+2028, cut into three chunks at every pair of positions", "records holding every string of up to 2 (thorough 4) characters over letter, quote, backslash, LF, CR and U+2028", "multi-byte text cut inside a character at every byte", "line limits 1..3 with both overflow rules"],
  outside: ["the 64 Mi character line limit of the RPC reader itself (its mechanism is checked at small limits)"],
  assumptions: [],
};
const SP = "\u2028";
function chunks(S, text, k = 2) { // cut at k symbolic positions, in order
  const out = []; let from = 0;
  for (let i = 0; i < k; i++) { const c = S.upto("cut" + i, text.length, from); out.push(text.slice(from, c)); from = c; }
  out.push(text.slice(from)); return out;
}
function read(parts) {
  const st = new EventEmitter(), got = [];
  const off = attachJsonlLineReader(st, (l) => got.push(l));
  for (const p of parts) st.emit("data", p);
  st.emit("end"); off();
  st.emit("data", "x\n");
  return got;
}
function lines(text, any) { // reference
  const out = []; let cur = "", i = 0;
  for (; i < text.length; i++) {
    const c = text[i];
    if (c === "\n") { out.push(cur); cur = ""; }
    else if (any && c === "\r") { out.push(cur); cur = ""; if (i + 1 < text.length && text[i + 1] === "\n") i++; }
    else cur += c;
  }
  return { out, rest: cur };
}
const same = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
export const cases = {
  rpc: { covers: ["line", "unterminated"], run(S) {
    const t = S.str("text", { min: 0, max: S.thorough ? 6 : 5, of: 'a\n\r"' + SP });
    const got = read(chunks(S, t));
    const ref = lines(t, false);
    const all = ref.out.concat(ref.rest.length ? [ref.rest] : []).map((l) => (l.endsWith("\r") ? l.slice(0, -1) : l));
    if (ref.out.length) S.cover("line"); if (ref.rest.length) S.cover("unterminated");
    S.assert(same(got, all), "the reader's lines depend on chunking, or are not the LF-separated ones");
  } },
  record: { covers: ["two"], run(S) {
    const a = S.str("a", { min: 0, max: S.thorough ? 4 : 2, of: 'a"\\\n\r' + SP }), b = S.str("b", { min: 0, max: 1, of: "a\n" + SP });
    const wire = serializeJsonLine({ v: a }) + serializeJsonLine([b]);
    const got = read(chunks(S, wire, 1));
    S.cover("two");
    S.assert(got.length === 2, "two records are not two lines");
    S.assert(JSON.parse(got[0]).v === a && JSON.parse(got[1])[0] === b, "a record changed on the wire");
  } },
  bytes: { covers: ["inside a character"], run(S) {
    const t = S.pick("t", ["é\n€x", "😀\n", "a€\r\né", SP + "\n😀"]);
    const buf = Buffer.from(t + "\nend"), c1 = S.upto("c1", buf.length), c2 = S.upto("c2", buf.length, c1);
    if ((buf[c1] & 0xc0) === 0x80) S.cover("inside a character");
    const got = read([buf.subarray(0, c1), buf.subarray(c1, c2), buf.subarray(c2)]);
    const ref = lines(t + "\nend", false);
    S.assert(same(got, ref.out.concat([ref.rest]).map((l) => (l.endsWith("\r") ? l.slice(0, -1) : l))), "text cut inside a character is damaged");
  } },
  decoder: { covers: ["crlf", "overflow", "skipped"], run(S) {
    const t = S.str("text", { min: 0, max: S.thorough ? 5 : 4, of: "a\n\r" });
    const any = S.flag("any"), max = S.upto("max", 3, 1), overflow = S.flag("skip") ? "skip" : "throw";
    const d = new StreamingLineDecoder(max, { overflow, lineEndings: any ? "any" : "lf" });
    const got = []; let threw = false;
    const r = S.try(() => { for (const c of chunks(S, t)) for (const l of d.push(c)) got.push(l); const f = d.finish(); if (f !== undefined) got.push(f); });
    threw = !r.ok;
    const ref = lines(t, any);
    const all = ref.out.concat(ref.rest.length ? [ref.rest] : []);
    const long = all.some((l) => l.length > max);
    if (any && t.includes("\r\n")) S.cover("crlf");
    if (overflow === "throw") { if (long) S.cover("overflow"); S.assert(threw === long, "the line limit is not enforced exactly"); if (!threw) S.assert(same(got, all), "lines depend on chunking"); }
    else { if (long) S.cover("skipped"); S.assert(!threw && same(got, all.filter((l) => l.length <= max)), "an oversized line is not skipped alone"); }
  } },
};
