import { S } from "symex";
import { CURSOR_MARKER, TUI } from "@repo/packages/tui/src/tui.ts";
import { Screen, cellsOf, fresh, sameCell } from "./lib/cells.js";

export const meta = {
  bounds: ["terminals of 4 columns and 3 rows, started on the first or the last row; first frames of 0 to 5 lines", "every sequence of 3 (thorough 4) changes of the frame: lines appended, removed at the end, inserted or deleted anywhere, changed anywhere (empty, shorter, filling the row, too wide, wide characters, styled), two at a time, cursor mark moved, columns or rows changed, redraw forced, stopped and started again, an overlay shown at any of 7 places, changed or hidden; the characters symbolic"],
  outside: ["inline images", "terminals that do not follow the control codes as xterm does", "Termux"],
  assumptions: ["on a resize a terminal keeps its rows without rewrapping them; the renderer clears it anyway", "what stood on the terminal before the start is above the first row used", "the blanks that fill an overlay up to its width may keep the style its line ends with"],
};
const widthOf = (c) => c === "漢" ? 2 : 1, COLS = 4, ROWS = 3;
const fit = (cells, w) => { const out = []; let n = 0; for (const x of cells) { if (n + x.w > w) break; n += x.w; out.push(x); } return out; };
class Fake {
  constructor(S, cols, rows, at) { this.s = new Screen(cols, rows, at, widthOf); this.cursor = true; }
  get columns() { return this.s.columns; } get rows() { return this.s.rows; } get kittyProtocolActive() { return false; }
  start(_i, r) { this.onResize = r; } stop() {} async drainInput() {} write(t) { this.s.write(t); } moveBy(n) { this.s.write(n < 0 ? `\x1b[${-n}A` : n > 0 ? `\x1b[${n}B` : ""); } hideCursor() { this.cursor = false; } showCursor() { this.cursor = true; } clearLine() { this.s.write("\x1b[2K"); } clearFromCursor() { this.s.write("\x1b[J"); } clearScreen() { this.s.write("\x1b[2J\x1b[H"); } setTitle() {} setProgress() {}
}
// what must be on the terminal: every line of the frame on its row, nothing else, the cursor at its mark
const expected = (lines, over, cols, rows) => {
  const out = lines.map((l) => fit(cellsOf(l.replace(CURSOR_MARKER, ""), widthOf).cells, cols)); if (!over) return out;
  while (out.length < rows) out.push([]); const top = out.length - rows;
  over.lines.forEach((l, i) => {
    const row = out[top + over.row + i], line = []; let col = 0; const blank = () => ({ c: " ", w: 1, st: fresh() });
    for (const x of row) { if (col >= over.col) break; line.push(x); col += x.w; } while (col < over.col) { line.push(blank()); col++; }
    let used = 0; for (const x of cellsOf(l, widthOf).cells) { if (used + x.w > over.w) break; line.push(x); used += x.w; } while (used < over.w) { line.push({ ...blank(), any: true }); used++; } col += used;
    let at = 0; for (const x of row) { if (at >= over.col + over.w && at + x.w <= cols) { while (col < at) { line.push(blank()); col++; } line.push(x); col += x.w; } at += x.w; } while (col < cols) { line.push(blank()); col++; } out[top + over.row + i] = fit(line, cols);
  });
  return out;
};
const flat = (cells, cols) => { const out = []; for (const x of cells) if (x.w > 0) { out.push(x); if (x.w === 2) out.push({ c: "", w: 0, st: x.st }); } while (out.length < cols) out.push({ c: " ", w: 1, st: fresh() }); return out; };
const plainStyle = (x) => !x.st.ul && !x.st.inv && x.st.bg === "" && x.st.link === "";
const check = (S, f, lines, over, kept) => {
  const s = f.s, want = expected(lines, over, s.columns, s.rows); S.assert(s.bad === undefined, s.bad ?? "");
  for (let r = kept ? 0 : -s.top; r < s.rows; r++) {
    const abs = s.top + r, i = abs - s.base, got = s.lines[abs] ?? []; if (i < 0) { if (s.first) S.assert(got.length === 1 && got[0].c === "?", "what stood on the terminal before is overwritten"); continue; }
    const g = flat(got, s.columns), w = flat(want[i] ?? [], s.columns);
    for (let c = 0; c < s.columns; c++) S.assert(g[c].c === w[c].c, i < want.length ? "the terminal shows other text than the frame" : "text that is gone from the frame is still shown");
    for (let c = 0; c < s.columns; c++) S.assert(w[c].any || sameCell(g[c], w[c]) || g[c].c === " " && plainStyle(g[c]) && plainStyle(w[c]), "the terminal shows the frame in another style");
  }
  if (want.length) { const last = s.base + want.length - 1 - s.top; S.assert(last >= 0 && last < s.rows, "the end of the frame is off the screen"); }
  const m = lines.findIndex((l) => l.includes(CURSOR_MARKER)); if (m >= 0 && !over && s.base + m < s.top) S.assert(!f.cursor, "the cursor is shown although its mark is off the screen"); else if (m >= 0 && !over) { S.assert(s.base + m - s.top === s.r, "the cursor is on another row than its mark"); const col = cellsOf(lines[m].slice(0, lines[m].indexOf(CURSOR_MARKER)), widthOf).width; S.assert(s.c === Math.min(col, s.columns - 1), "the cursor is in another column than its mark"); S.assert(f.cursor, "the cursor is not shown at its mark"); }
};
const draw = async (S) => { await S.settle(3); S.advance(20); await S.settle(3); };
let made = 0;
const text = (S, kind) => { const n = "x" + ++made; return kind === "empty" ? "" : kind === "one" ? S.str(n, { len: 1, of: "ab" }) : kind === "full" ? "c" + S.str(n, { len: 2, of: "ab" }) + "c" : kind === "over" ? "ddd漢" + S.str(n, { len: 1, of: "ab" }) : kind === "styled" ? "\x1b[31m" + S.str(n, { len: 1, of: "ab" }) + "\x1b[4m漢" : "漢" + S.str(n, { len: 1, of: "ab" }); };
const KINDS = ["empty", "one", "full", "over", "styled", "wide"];
const OPS = ["append", "append2", "drop", "drop2", "change", "insert", "delete", "mark", "unmark", "both", "wider", "narrower", "taller", "lower", "force", "restart", "same", "clear"];
const put = (S, n) => S.pick("kind" + n, n === 0 || S.thorough ? KINDS : ["empty", "over"]);
const change = async (S, n, op, st) => {
  const { tui, f, lines } = st, any = (k) => S.upto(k + n, lines.length - 1), add = () => lines.push(text(S, "one"));
  switch (op) {
    case "append": lines.push(text(S, put(S, n))); break; case "append2": add(); add(); break; case "drop": if (!lines.length) return false; lines.pop(); break; case "drop2": if (lines.length < 2) return false; lines.length -= 2; break;
    case "change": { if (!lines.length) return false; lines[any("i")] = text(S, put(S, n)); break; } case "insert": lines.splice(S.upto("i" + n, lines.length), 0, text(S, "one")); break; case "delete": if (!lines.length) return false; lines.splice(any("i"), 1); break;
    case "mark": { if (!lines.length) return false; for (let i = 0; i < lines.length; i++) lines[i] = lines[i].replace(CURSOR_MARKER, ""); const i = any("i"), l = lines[i]; lines[i] = S.flag("end" + n) ? l + CURSOR_MARKER : CURSOR_MARKER + l; break; } case "unmark": { const i = lines.findIndex((l) => l.includes(CURSOR_MARKER)); if (i < 0) return false; lines[i] = lines[i].replace(CURSOR_MARKER, ""); break; }
    case "both": { if (!lines.length) return false; lines[any("i")] = text(S, "one"); if (S.flag("grow" + n)) add(); else lines.pop(); break; }
    case "wider": f.s.resize(f.columns + 1, f.rows); f.onResize(); return true; case "narrower": f.s.resize(f.columns - 1, f.rows); f.onResize(); return true; case "taller": f.s.resize(f.columns, f.rows + 1); f.onResize(); return true; case "lower": f.s.resize(f.columns, f.rows - 1); f.onResize(); return true;
    case "force": tui.requestRender(true); return true; case "restart": tui.stop(); f.s.bad = undefined; tui.start(); st.kept = true; f.s.first = false; return true; case "clear": lines.length = 0; break; case "same": break;
  }
  tui.requestRender(); return true;
};
const begin = async (S, most) => {
  made = 0; S.env.procEnv.TERM = "xterm"; const how = S.pick("start", ["top", "low", "shrink"]), at = how === "low" ? ROWS - 1 : 0, f = new Fake(S, COLS, ROWS, at); f.s.first = true; const tui = new TUI(f, true), lines = [], view = { lines, render: () => [...lines] }; for (let i = S.pick("n", most); i > 0; i--) lines.push(text(S, "one"));
  tui.addChild(view); tui.setClearOnShrink(how === "shrink"); tui.start(); await draw(S); return { tui, f, lines };
};
export const cases = {
  frames: { covers: OPS, async run(S) {
    const st = await begin(S, S.thorough ? [0, 1, 2, 3, 4, 5] : [0, 2, 4]); check(S, st.f, st.lines, undefined, st.kept);
    for (let n = 0; n < (S.thorough ? 3 : 2); n++) { const op = S.pick("op" + n, OPS); if (!await change(S, n, op, st)) return; if (["wider", "narrower", "taller", "lower", "force"].includes(op)) { st.f.s.first = false; } await draw(S); check(S, st.f, st.lines, undefined, st.kept); S.cover(op); }
  } },
  // an overlay lies over the frame where it is asked to and leaves the rest as it is
  overlay: { covers: ["shown", "gone"], async run(S) {
    const st = await begin(S, S.thorough ? [0, 1, 3, 4, 5] : [1, 4]), { tui, f, lines } = st; if (S.flag("styled")) { for (let i = 0; i < lines.length; i++) lines[i] = "\x1b[4m" + lines[i] + "漢"; tui.requestRender(); await draw(S); }
    const two = S.flag("two"), w = S.pick("w", S.thorough ? [1, 2, 3] : [1, 3]), body = [S.flag("fat") ? "漢漢" : S.str("o0", { max: 1, of: "xy" }), ...(two ? ["\x1b[4m" + S.str("o1", { len: 1, of: "xy" })] : [])], h = body.length, place = S.pick("place", ["tl", "br", "mid", "at", "out", "pct", "off"]);
    const pos = () => { const R = f.rows - h, C = f.columns - w, cl = (v, m) => Math.max(0, Math.min(v, m)); return place === "tl" ? [0, 0] : place === "br" ? [cl(R, R), cl(C, C)] : place === "mid" ? [cl(Math.floor(R / 2), R), cl(Math.floor(C / 2), C)] : place === "at" ? [cl(1, R), cl(1, C)] : place === "out" ? [cl(9, R), cl(9, C)] : place === "pct" ? [cl(Math.floor(Math.max(0, R) / 2), R), cl(Math.max(0, C), C)] : [cl(1, R), cl(C - 1, C)]; };
    const options = { width: w, ...(place === "tl" ? { anchor: "top-left" } : place === "br" ? { anchor: "bottom-right" } : place === "at" ? { row: 1, col: 1 } : place === "out" ? { row: 9, col: 9 } : place === "pct" ? { row: "50%", col: "100%" } : place === "off" ? { anchor: "top-right", offsetX: -1, offsetY: 1 } : {}) };
    const over = () => { const [row, col] = pos(); return { lines: body, row, col, w }; }, handle = tui.showOverlay({ render: () => [...body], invalidate() {} }, options); await draw(S); check(S, f, lines, over(), false); S.cover("shown");
    const op = S.pick("op", ["change", "append2", "drop", "body", "wider", "taller", "hide", "hidden", "insert"]); if (op === "hide") handle.hide(); else if (op === "hidden") handle.setHidden(true); else if (op === "body") { body[0] = "zz"; tui.requestRender(); } else if (!await change(S, 1, op, st)) return; if (op === "wider" || op === "taller") f.s.first = false;
    await draw(S); check(S, f, lines, op === "hide" || op === "hidden" ? undefined : over(), false); if (op.startsWith("hid")) S.cover("gone");
  } },
};
