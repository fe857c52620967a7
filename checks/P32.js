import { S } from "symex";
import { extractSegments, normalizeTerminalOutput, setAmbiguousWidthMode, sliceWithWidth, truncateToWidth, visibleWidth, wrapTextWithAnsi } from "@repo/packages/tui/src/utils.ts";
import { Text } from "@repo/packages/tui/src/components/text.ts";
import { TruncatedText } from "@repo/packages/tui/src/components/truncated-text.ts";

export const meta = {
  bounds: ["wrapping plain text: every text of up to 5 (thorough 7) characters over letter, blank, wide ideograph, combining mark, tab and line breaks, in every width from 1 (2 with wide characters) up", "wrapping styled text: every text of up to 3 (thorough 5) letters, blanks and ideographs with one or two of 9 colour, attribute and hyperlink codes at any position, in widths 2 to 4", "slices and overlay segments: texts of up to 4 and 3 characters with up to two codes, every start and length; truncation of up to 4 characters to every width with four ellipses, padded or not, ambiguous characters narrow or wide"],
  outside: ["terminals that disagree with the Unicode width tables", "emoji sequences", "marks that follow no letter"],
  assumptions: ["a terminal line starts unstyled, as the renderer resets every line"],
};
const ST = "\x1b\\", CODES = ["\x1b[31m", "\x1b[4m", "\x1b[0m", "\x1b[1;38;5;9m", "\x1b[48;2;1;2;3m", "\x1b[22;39m", "\x1b[24m", "\x1b]8;;u" + ST, "\x1b]8;;" + ST];
const FEW = [CODES[0], CODES[1], CODES[2], CODES[7]];
// what a terminal shows: one cell per character (marks join the one before), each with its width and its style
const fresh = () => ({ bold: 0, ul: 0, fg: "", bg: "", link: "" });
const apply = (st, code) => {
  if (code.startsWith("\x1b]8;")) { const b = code.slice(4, code.endsWith("\x07") ? -1 : -2); return { ...st, link: b.slice(b.indexOf(";") + 1) }; }
  let s = { ...st }; const p = code.slice(2, -1).split(";").map(Number);
  for (let i = 0; i < p.length; i++) { const c = p[i]; if (c === 0) s = { ...fresh(), link: s.link }; else if (c === 1) s.bold = 1; else if (c === 22) s.bold = 0; else if (c === 4) s.ul = 1; else if (c === 24) s.ul = 0; else if (c === 39) s.fg = ""; else if (c === 49) s.bg = ""; else if (c === 38 || c === 48) { const n = p[i + 1] === 5 ? 3 : 5; s[c === 38 ? "fg" : "bg"] = p.slice(i, i + n).join(";"); i += n - 1; } else if (c >= 30 && c <= 37) s.fg = String(c); else if (c >= 40 && c <= 47) s.bg = String(c); }
  return s;
};
const sameStyle = (a, b) => a.bold === b.bold && a.ul === b.ul && a.fg === b.fg && a.bg === b.bg && a.link === b.link;
const widthOf = (c) => c === "漢" ? 2 : c === "\t" ? 3 : c === "…" && wide ? 2 : 1;
let wide = false;
const show = (text) => {
  const cells = []; let st = fresh(), i = 0;
  while (i < text.length) {
    const c = text[i];
    if (c === "\x1b") { let j = i + 2; if (text[i + 1] === "[") while (text[j] !== "m") j++; else { while (text[j] !== "\x07" && text[j] !== "\\") j++; } st = apply(st, text.slice(i, j + 1)); i = j + 1; continue; }
    if (c === "\u0301" && cells.length) { cells[cells.length - 1].c += c; i++; continue; }
    cells.push({ c, w: widthOf(c), st }); i++;
  }
  return { cells, end: st, width: cells.reduce((n, x) => n + x.w, 0) };
};
const blank = (x) => x.c === " " || x.c === "\t";
const sameCell = (a, b) => a.c === b.c && sameStyle(a.st, b.st);
const plainText = (S, n, marks, tabs = true) => {
  const t = S.str("t", { max: n, of: marks ? tabs ? "a 漢\u0301\t" : "a 漢\u0301" : "a 漢" }); if (!marks) return t;
  for (let i = 0; i < t.length; i++) S.assume(t[i] !== "\u0301" || (i > 0 && t[i - 1] !== " " && t[i - 1] !== "\t" && t[i - 1] !== "\u0301"));
  return t;
};
const styled = (S, n, few = true) => { // text with one or two codes in it
  let t = S.str("t", { max: n, of: "a 漢" }); const p = S.upto("at", t.length), k = S.pick("code", few && !S.thorough ? FEW : CODES), two = S.pick("second", few && !S.thorough ? [undefined, "\x1b[0;1m"] : [undefined, "\x1b[0m", "\x1b[24m", "\x1b[41m"]);
  const q = two === undefined ? p : p + S.upto("gap", t.length - p); return t.slice(0, p) + k + t.slice(p, q) + (two ?? "") + t.slice(q);
};
// wrapped lines against the source: nothing but blanks at breaks is left out, nothing is added, order and style stay
const wrapped = (S, source, lines, width) => {
  const shown = lines.map(show), src = source.split("\n").reduce((a, l, i) => { const carried = i === 0 ? "" : a.codes; const x = show(carried + l); a.lines.push(x.cells); a.codes = carried + (l.match(/\x1b\[[\d;]*m|\x1b\]8;[^\x1b]*\x1b\\/g) ?? []).join(""); return a; }, { lines: [], codes: "" }).lines;
  let at = 0;
  for (const line of src) {
    let i = 0, first = true;
    S.assert(at < shown.length, "a line of the text is missing");
    for (;;) {
      const got = shown[at++].cells; let j = 0;
      if (!first) while (i < line.length && blank(line[i])) i++;
      const start = i;
      for (; j < got.length; j++, i++) { S.assert(i < line.length, "a wrapped line shows text that is not there"); S.assert(got[j].c === line[i].c, "a wrapped line shows other text"); S.assert(blank(got[j]) || sameStyle(got[j].st, line[i].st), "text is shown in another style after wrapping"); }
      S.assert(shown[at - 1].width <= width, "a wrapped line is wider than allowed");
      let k = i; while (k < line.length && blank(line[k])) k++;
      if (k >= line.length) { i = k; break; }
      // a break: the next word did not fit here
      let w = 0, e = k; while (e < line.length && !(line[e].c === " ")) w += line[e++].w;
      let skipped = 0; for (let z = i; z < k; z++) skipped += line[z].w; let used = 0; for (let z = start; z < i; z++) used += line[z].w;
      S.assert(k > i ? used + skipped + w > width || used + skipped > width : used + line[i].w > width || w > width && (i === 0 || blank(line[i - 1])), "a line is broken where the next word would fit");
      const before = k > i || i === 0 || blank(line[i - 1]); S.assert(before || (() => { let ww = 0, z = i - 1; while (z >= 0 && line[z].c !== " ") z--; for (z++; z < line.length && line[z].c !== " "; z++) ww += line[z].w; return ww > width; })(), "a word that fits on a line is broken");
      first = false; S.cover("broken");
      S.assert(at < shown.length, "the rest of a line is missing");
    }
  }
  S.assert(at === shown.length, "lines are added");
  for (let i = 0; i + 1 < lines.length; i++) S.assert(!shown[i].end.ul && shown[i].end.link === "" || i + 1 === lines.length, "an underline or link runs on past the end of its line");
};
export const cases = {
  wrap: { covers: ["broken"], run(S) {
    const t = plainText(S, S.thorough ? 7 : 5, true, false), w = S.upto("w", 7, 1); let min = 1; for (const c of t) if (c === "漢") min = 2; S.assume(w >= min);
    wrapped(S, t, wrapTextWithAnsi(t, w), w);
  } },
  lines: { covers: ["broken"], run(S) { // line breaks of each kind
    const brk = S.pick("brk", ["\n", "\r\n", "\r"]), a = S.str("a", { max: 3, of: "a 漢" }), b = S.str("b", { max: 1, of: "a " }), c = S.pick("code", ["", ...(S.thorough ? CODES : FEW)]), w = S.upto("w", 4, 2);
    wrapped(S, (c + a + "\n" + b), wrapTextWithAnsi(c + a + brk + b, w), w);
  } },
  styles: { covers: ["broken"], run(S) { const t = styled(S, S.thorough ? 5 : 3, false), w = S.upto("w", 4, 2); wrapped(S, t, wrapTextWithAnsi(t, w), w); } },
  width: { covers: ["w"], run(S) {
    wide = false; const t = S.flag("styled") ? styled(S, 4) : plainText(S, 5, true); S.assert(visibleWidth(t) === show(t).width, "the width of a text is wrong"); S.assert(visibleWidth(t) === show(t).width, "the width of a text is wrong the second time"); S.cover("w");
    const n = normalizeTerminalOutput(t); S.assert(visibleWidth(n) === show(t).width && !n.includes("\t"), "text is made wider or narrower for output"); S.assert(n === t.replaceAll("\t", "   "), "text is changed for output");
  } },
  truncate: { covers: ["cut", "whole"], run(S) {
    const t = S.flag("styled") ? styled(S, S.thorough ? 4 : 3) : plainText(S, S.thorough ? 6 : 4, true), el = S.pick("el", ["...", "…", "", "漢"]), max = S.int("max", 0, 7), pad = S.flag("pad"); wide = el === "…" && S.flag("wide"); setAmbiguousWidthMode(wide);
    const out = truncateToWidth(t, max, el, pad), src = show(t), got = show(out), ell = show(el); setAmbiguousWidthMode(false);
    S.assert(got.width <= max, "truncated text is wider than allowed"); if (max > 0) S.assert(!pad || got.width === max, "padded text does not fill its width"); if (max === 0) { S.assert(out === "", "text is shown in no room"); return; }
    if (src.width <= max) { S.cover("whole"); S.assert(pad ? out === t + " ".repeat(max - src.width) : out === t, "text that fits is changed"); return; }
    S.cover("cut"); let n = 0, used = 0; if (ell.width < max) while (n < src.cells.length && used + src.cells[n].w <= max - ell.width) used += src.cells[n++].w;
    const shown = got.cells.slice(0, n); S.assert(shown.length === n && shown.every((x, i) => sameCell(x, src.cells[i])), "truncated text does not show the longest beginning that fits");
    const tail = got.cells.slice(n); if (ell.width <= max) S.assert(tail.slice(0, ell.cells.length).every((x, i) => x.c === ell.cells[i].c && sameStyle({ ...x.st, link: "" }, fresh())) && tail.length >= ell.cells.length, "cut text does not end in the ellipsis, unstyled");
    S.assert(tail.slice(ell.width <= max ? ell.cells.length : tail.length).every((x) => x.c === " " ), "cut text is followed by something else"); S.assert(sameStyle({ ...got.end, link: "" }, fresh()), "a style runs on past cut text");
  } },
  slice: { covers: ["part"], run(S) {
    const t = S.flag("styled") ? styled(S, 3) : plainText(S, S.thorough ? 6 : 4, false), from = S.int("from", 0, 6), len = S.int("len", 0, 6), strict = S.flag("strict"), out = sliceWithWidth(t, from, len, strict), src = show(t), got = show(out.text);
    let col = 0; const want = []; for (const x of src.cells) { if (col >= from && col < from + len && (!strict || col + x.w <= from + len)) want.push(x); col += x.w; }
    S.assert(got.cells.length === want.length && got.cells.every((x, i) => sameCell(x, want[i])), "a slice of a line shows other text or another style"); S.assert(out.width === got.width, "the width of a slice is wrong"); if (want.length && want.length < src.cells.length) S.cover("part");
  } },
  overlay: { covers: ["both"], run(S) {
    const t = S.flag("styled") ? styled(S, 3) : plainText(S, 4, false), be = S.int("be", 0, 3), as = be + S.int("room", 0, 3), al = S.int("al", 0, 4), strict = S.flag("strict"), out = extractSegments(t, be, as, al, strict), src = show(t), b = show(out.before), a = show(out.after);
    let col = 0; const wb = [], wa = []; for (const x of src.cells) { if (col < be) wb.push(x); else if (col >= as && col < as + al && (!strict || col + x.w <= as + al)) wa.push(x); col += x.w; }
    S.assert(b.cells.length === wb.length && b.cells.every((x, i) => sameCell(x, wb[i])), "what stands before an overlay is shown otherwise"); S.assert(a.cells.length === wa.length && a.cells.every((x, i) => sameCell(x, wa[i])), "what stands behind an overlay is shown otherwise"); S.assert(out.beforeWidth === b.width && out.afterWidth === a.width, "the width of a segment is wrong"); if (wb.length && wa.length) S.cover("both");
  } },
  boxes: { covers: ["rows"], run(S) { // components fill exactly the width they are given
    const t = S.flag("styled") ? styled(S, S.thorough ? 3 : 2) : plainText(S, S.thorough ? 4 : 3, false), w = S.upto("w", 6, 4), px = S.upto("px", 1), py = S.upto("py", 1), bg = S.flag("bg"), rows = S.flag("cut") ? new TruncatedText(t, px, py).render(w) : new Text(t, px, py, bg ? (x) => "\x1b[44m" + x + "\x1b[49m" : undefined).render(w);
    for (const r of rows) S.assert(show(r).width <= w, "a row of a component is wider than it may be"); if (rows.length) S.cover("rows");
  } },
};
