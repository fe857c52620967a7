// Terminal input: the key and paste events do not depend on how reads cut the byte stream, and nothing is lost or reordered.
import { S } from "symex";
import { StdinBuffer } from "@repo/packages/tui/src/stdin-buffer.ts";
import { BracketedPasteBuffer } from "@repo/packages/tui/src/bracketed-paste.ts";

export const meta = {
  bounds: ["keyboard input of up to 5 (thorough 6) characters over escape, [, O, '<', 'M', ';', '1', 'u', 'a', cut into two chunks at every position", "complete key sequences (arrows, kitty keys, SGR and X10 mouse, OSC, DCS, APC, SS3, meta) in any order of three with text between, cut into three chunks at every pair of positions", "pastes whose content is every string of up to 3 (thorough 4) characters over escape, '[', '2', '0', '1', '~', newline, with text before and after, cut into three chunks at every pair of positions"],
  outside: ["two escape bytes in a row (ambiguous between Alt+Escape and a split sequence)", "the timeout elapsing inside a sequence, other than that nothing is lost", "unframed-paste detection, which depends on chunks by design"],
  assumptions: ["all chunks of one input arrive within the sequence timeout unless stated"],
};
const ESC = "\x1b";
function feed(parts, opt) {
  const b = new StdinBuffer({ timeout: 10, ...opt }), ev = [];
  b.on("data", (d) => ev.push("k" + d)); b.on("paste", (d) => ev.push("p" + d));
  for (const p of parts) if (p.length) b.process(p);
  return { ev, b };
}
const same = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
export const cases = {
  keys: { covers: ["split escape", "incomplete"], async run(S) {
    const t = S.str("in", { min: 1, max: S.thorough ? 6 : 5, of: ESC + "[O<M;1ua" });
    S.assume(!t.includes(ESC + ESC));
    const cut = S.upto("cut", t.length - 1, 0);
    const one = feed([t]), two = feed([t.slice(0, cut), t.slice(cut)]);
    if (cut > 0 && t[cut - 1] === ESC) S.cover("split escape");
    if (one.b.getBuffer().length) S.cover("incomplete");
    S.assert(same(one.ev, two.ev), "key events depend on how the input was cut");
    await S.settle();
    S.fireTimers();
    const all = one.ev.map((e) => e.slice(1)).join("");
    S.assert(all === t, "input was lost, duplicated or reordered");
    S.assert(one.b.getBuffer() === "", "input is held back after the timeout");
  } },
  sequences: { covers: ["mouse", "report", "paste between"], run(S) {
    const SEQ = ["\x1b[A", "\x1b[1;5C", "\x1b[97;5u", "\x1b[<35;20;5M", "\x1b[M !!", "\x1b]11;rgb:0/0/0\x07", "\x1bP>|x\x1b\\", "\x1b_Gi=1;OK\x1b\\", "\x1bOP", "\x1bb", "x", "\r", "\x1b[200~a\nb\x1b[201~"];
    const want = [], parts = [];
    for (let i = 0; i < (S.thorough ? 3 : 2); i++) { const s = S.pick("s" + i, SEQ); parts.push(s); if (s.startsWith("\x1b[200~")) { want.push("pa\nb"); S.cover("paste between"); } else want.push("k" + s); if (s.startsWith("\x1b[<")) S.cover("mouse"); if (s.startsWith("\x1b]")) S.cover("report"); }
    const t = parts.join("") + "z"; want.push("kz");
    const c1 = S.upto("c1", t.length);
    const got = feed([t.slice(0, c1), t.slice(c1)]);
    S.assert(same(got.ev, want), "a key sequence was split, merged or changed");
  } },
  paste: { covers: ["marker-like content", "kept text"], run(S) {
    const body = S.str("body", { min: 0, max: S.thorough ? 4 : 3, of: ESC + "[201~" });
    const text = S.pick("mid", ["", "\x1b[20", "\n"]) + body;
    S.assume(!(text + "\x1b[201~").slice(0, -1).includes("\x1b[201~"));
    const pre = S.pick("pre", ["", "a"]), post = S.pick("post", ["", "b"]);
    const t = pre + "\x1b[200~" + text + "\x1b[201~" + post;
    if (text.includes(ESC)) S.cover("marker-like content");
    const c1 = S.upto("c1", t.length), c2 = S.flag("three") ? S.upto("c2", t.length, c1) : t.length;
    const { ev } = feed([t.slice(0, c1), t.slice(c1, c2), t.slice(c2)]);
    const want = [...[...pre].map((c) => "k" + c), "p" + text, ...[...post].map((c) => "k" + c)];
    if (post || pre) S.cover("kept text");
    S.assert(same(ev, want), "a paste lost or changed content, or was taken for keys");
  } },
  collector: { covers: ["complete", "pending"], run(S) {
    const text = S.str("text", { min: 0, max: S.thorough ? 6 : 5, of: ESC + "[20~" }), marker = "\x1b[201~";
    const t = text + (S.flag("closed") ? marker + "q" : "");
    const b = new BracketedPasteBuffer();
    const c = S.upto("c", t.length);
    let r = b.consume("\x1b[200~" + t.slice(0, c)), content;
    if (r.kind === "pending") r = b.consume(t.slice(c)); else r = { ...r, remainder: r.remainder + t.slice(c) };
    const at = t.indexOf(marker);
    if (at >= 0) { S.cover("complete"); S.assert(r.kind === "complete" && r.content === t.slice(0, at) && r.remainder === t.slice(at + 6), "the collected paste is not the text between the markers"); }
    else { S.cover("pending"); S.assert(r.kind === "pending" && b.flushPending() === t, "an unfinished paste lost text"); }
    void content;
  } },
  stalled: { covers: ["paste", "keys"], async run(S) {
    // a stream that stops anywhere: after the timeout everything typed or pasted has been delivered once, in order
    const body = S.str("body", { min: 0, max: S.thorough ? 4 : 3, of: ESC + "[2x" });
    S.assume(!body.includes(ESC + ESC));
    const paste = S.flag("paste");
    // a sequence a paste cuts short follows the paste, as it may still be completed
    const cut = paste ? S.pick("cut", ["", "\x1b[1;", "\x1b[", "\x1b]0;t"]) : "";
    const { ev, b } = feed(cut && S.flag("separate") ? [cut, "\x1b[200~" + body] : [cut + (paste ? "\x1b[200~" : "") + body]);
    S.cover(paste ? "paste" : "keys");
    await S.settle(); S.fireTimers(); await S.settle(); S.fireTimers();
    S.assert(ev.map((e) => e.slice(1)).join("") === body + cut, "a stalled input lost text");
    b.process("n");
    S.assert(ev[ev.length - 1] === "kn", "the reader is stuck after a stalled input");
  } },
};
