import { S } from "symex";
import { Editor } from "@repo/packages/tui/src/components/editor.ts";
import { Input } from "@repo/packages/tui/src/components/input.ts";
import { cellsOf } from "./lib/cells.js";

export const meta = {
  bounds: ["every sequence of 2 (thorough 3) inputs out of 33 (typing, line break, deleting and killing in each unit and direction, moving, jumping, yank, yank-pop, undo, paste small and large, history, setting and inserting text, submit) from each of 9 prepared states; 4 (thorough 5) of the killing, folding and undoing ones; over letters, blanks, punctuation, letters with marks, wide characters, several lines and folded pastes", "2 (3) inputs in single-line inputs, open and masked, and 2 in private editors", "drawn in widths 3 to 30 with paddings 0 to 2, after each of 2 (3) inputs"],
  outside: ["completion lists", "words of scripts written without blanks", "emoji sequences", "pasted text that itself reads like the mark of another folded paste"],
  assumptions: ["keys arrive one per input, as the stdin buffer delivers them (P12)"],
};
const KEY = { left: "\x1b[D", right: "\x1b[C", wleft: "\x1bb", wright: "\x1bf", home: "\x01", end: "\x05", up: "\x1b[A", down: "\x1b[B", pgup: "\x1b[5~", pgdn: "\x1b[6~", bs: "\x7f", del: "\x1b[3~", kw: "\x17", kwf: "\x1bd", ku: "\x15", kk: "\x0b", yank: "\x19", pop: "\x1by", undo: "\x1f", enter: "\r", nl: "\x1b[13;2u", jf: "\x1d", jb: "\x1b\x1d" };
const BIG = (t) => Array.from({ length: 12 }, (_, i) => t + i).join("\n");
// the text as a person sees it: characters and folded pastes, each one unit
const ch = (c) => ({ c }), fold = (c) => ({ c, fold: true }), units = (t) => { const out = []; for (const c of t) if (c === "\u0301" && out.length) out[out.length - 1].c += c; else out.push(ch(c)); return out; };
const textOf = (atoms) => { let t = ""; for (const a of atoms) t += a.c; return t; };
const same = (a, b) => a.length === b.length && a.every((x, i) => x.c === b[i].c && !x.fold === !b[i].fold);
const kind = (a) => a.fold ? "fold" : a.c === " " || a.c === "\t" ? "blank" : a.c === "\n" ? "nl" : /^[.,\\/\-]$/.test(a.c) ? "punct" : a.c[0] === "漢" ? "han" : "word";
class Model {
  constructor() { this.a = []; this.i = 0; this.kills = []; this.last = ""; this.past = []; }
  save() { this.past.push({ a: [...this.a], i: this.i }); }
  put(atoms) { this.a.splice(this.i, 0, ...atoms); this.i += atoms.length; }
  cut(from, to) { const out = this.a.splice(from, to - from); this.i = from; return out; }
  start() { let i = this.i; while (i > 0 && this.a[i - 1].c !== "\n") i--; return i; }
  stop() { let i = this.i; while (i < this.a.length && this.a[i].c !== "\n") i++; return i; }
  wordLeft() { let i = this.i; if (i === 0) return 0; if (this.a[i - 1].c === "\n") return i - 1; while (i > 0 && kind(this.a[i - 1]) === "blank") i--; if (i === 0 || this.a[i - 1].c === "\n") return i; const k = kind(this.a[i - 1]); if (k === "fold") return i - 1; while (i > 0 && kind(this.a[i - 1]) === k) i--; return i; }
  wordRight() { let i = this.i, n = this.a.length; if (i === n) return n; if (this.a[i].c === "\n") return i + 1; while (i < n && kind(this.a[i]) === "blank") i++; if (i === n || this.a[i].c === "\n") return i; const k = kind(this.a[i]); if (k === "fold") return i + 1; while (i < n && kind(this.a[i]) === k) i++; return i; }
  kill(from, to, back) { if (from === to) return false; const out = this.cut(from, to), top = this.kills[this.kills.length - 1]; if (this.last === "kill" && top) this.kills[this.kills.length - 1] = back ? [...out, ...top] : [...top, ...out]; else this.kills.push(out); this.last = "kill"; return true; }
}
const MARK = /^\[paste #\d+( (\+\d+ lines|\d+ chars))?\]/;
// reads the editor's text along the model: where each unit begins; a folded paste may also stand written out
const walk = (S, ed, m) => {
  const t = ed.getText(), at = [0]; let p = 0, open = false; for (const u of m.a) { const r = t.slice(p); if (u.fold) { const k = MARK.exec(r); if (k) p += k[0].length; else { open = true; p += u.c.length; } } else p += u.c.length; at.push(p); }
  return { t, at, open, end: p };
};
const flatCursor = (ed) => { const { line, col } = ed.getCursor(), ls = ed.getLines(); let p = col; for (let i = 0; i < line; i++) p += ls[i].length + 1; S.assert(line >= 0 && line < ls.length && col >= 0 && col <= ls[line].length, "the cursor is outside the text"); return p; };
const agree = (S, ed, m, free) => {
  S.assert(ed.getExpandedText() === textOf(m.a), "the text is not what was entered");
  const w = walk(S, ed, m), c = flatCursor(ed), i = w.at.indexOf(c); if (w.open) return false;
  S.assert(i >= 0, "the cursor is inside a character or a folded paste"); if (free) m.i = i; else S.assert(i === m.i, "the cursor is in another place than it was moved to"); return true;
};
const paste = (t) => "\x1b[200~" + t + "\x1b[201~";
const step = (S, ed, m, op, n, opt) => { // returns false where nothing more is to be learned, else whether the cursor is free
  const type = (t) => { m.save(); m.put(units(t)); m.last = "type"; ed.handleInput(t); return true; };
  const before = { a: [...m.a], i: m.i }, pushed = () => m.past.push(before);
  switch (op) {
    case "type": return type(S.str("c" + n, { len: 1, of: "ab" })); case "blank": return type(" "); case "dot": return type("."); case "marked": return type("e\u0301"); case "wide": return type("漢"); case "slash": return type("\\");
    case "nl": if (opt.one) return false; m.save(); m.put([ch("\n")]); m.last = ""; ed.handleInput(KEY.nl); return true;
    case "small": m.save(); m.put(units(opt.one ? opt.keep ? "x\n.y" : "x.y" : "x\n.y")); m.last = ""; ed.handleInput(paste("x\r\n.y")); return true;
    case "tabs": if (opt.keep) return false; m.save(); m.put(units("    z")); m.last = ""; { const p = paste("\tz"); const k = S.upto("cut" + n, 3); const at = [6, 8, 9, 12][k]; ed.handleInput(p.slice(0, at)); ed.handleInput(p.slice(at)); } return true;
    case "big": case "big2": { if (opt.one) return false; const t = BIG(op); m.save(); m.put(opt.keep ? units(t) : [fold(t)]); m.last = ""; ed.handleInput(paste(t)); return true; }
    case "left": if (m.i > 0) m.i--; m.last = ""; ed.handleInput(KEY.left); return true; case "right": if (m.i < m.a.length) m.i++; m.last = ""; ed.handleInput(KEY.right); return true;
    case "wleft": case "wright": case "kw": case "kwf": if (textOf(m.a).includes("漢漢")) return false;
  }
  switch (op) {
    case "wleft": m.i = m.wordLeft(); m.last = ""; ed.handleInput(KEY.wleft); return true; case "wright": m.i = m.wordRight(); m.last = ""; ed.handleInput(KEY.wright); return true;
    case "home": m.i = m.start(); m.last = ""; ed.handleInput(KEY.home); return true; case "end": m.i = m.stop(); m.last = ""; ed.handleInput(KEY.end); return true;
    case "bs": if (m.i > 0) { pushed(); m.cut(m.i - 1, m.i); } m.last = ""; ed.handleInput(KEY.bs); return true; case "del": if (m.i < m.a.length) { pushed(); m.cut(m.i, m.i + 1); } m.last = ""; ed.handleInput(KEY.del); return true;
    case "kw": if (m.kill(m.wordLeft(), m.i, true)) pushed(); ed.handleInput(KEY.kw); return true; case "kwf": if (m.kill(m.i, m.wordRight(), false)) pushed(); ed.handleInput(KEY.kwf); return true;
    case "ku": if (m.kill(m.i > 0 && m.start() === m.i ? m.i - 1 : m.start(), m.i, true)) pushed(); ed.handleInput(KEY.ku); return true; case "kk": if (m.kill(m.i, m.i < m.a.length && m.stop() === m.i ? m.i + 1 : m.stop(), false)) pushed(); ed.handleInput(KEY.kk); return true;
    case "yank": if (opt.keep) { ed.handleInput(KEY.yank); return true; } if (m.kills.length) { pushed(); m.put(m.kills[m.kills.length - 1]); m.last = "yank"; } ed.handleInput(KEY.yank); return true;
    case "pop": if (!opt.keep && m.last === "yank" && m.kills.length > 1) { pushed(); const t = m.kills.pop(); m.cut(m.i - t.length, m.i); m.kills.unshift(t); m.put(m.kills[m.kills.length - 1]); } ed.handleInput(KEY.pop); return true;
    case "undo": { ed.handleInput(KEY.undo); if (opt.keep) return true; m.last = ""; undone(S, ed, m); return true; }
    case "up": case "down": case "pgup": case "pgdn": { if (opt.one) return false; if (op === "up" && m.a.length === 0 && opt.history) { m.save(); m.a = units("h1\nz"); m.i = m.a.length; m.last = ""; ed.handleInput(KEY.up); S.cover("history"); return true; } m.last = ""; const i = m.i; ed.handleInput(KEY[op]); if (opt.browsing) return false; agree(S, ed, m, true); S.assert(op === "up" || op === "pgup" ? m.i <= i : m.i >= i, "the cursor moved the other way"); return true; }
    case "jf": case "jb": { if (opt.one) return false; const c = S.pick("j" + n, ["a", "p", "\u6f22"]); ed.handleInput(KEY[op]); ed.handleInput(c); m.last = ""; if (op === "jf") { const k = m.a.findIndex((x, i) => i > m.i && !x.fold && x.c === c); if (k >= 0) m.i = k; } else for (let i = m.i - 1; i >= 0; i--) if (!m.a[i].fold && m.a[i].c === c) { m.i = i; break; } return true; }
    case "set": m.save(); m.a = units("n a"); m.last = ""; if (opt.one) { m.i = Math.min(m.i, 3); } else m.i = 3; if (opt.one) return false; ed.setText("n a"); return true;
    case "insert": if (opt.one) return false; m.save(); m.put(units("q\nr")); m.last = ""; ed.insertTextAtCursor("q\r\nr"); return true;
    case "enter": { if (!opt.one && m.i > 0 && m.a[m.i - 1].c === "\\") { pushed(); m.cut(m.i - 1, m.i); m.put([ch("\n")]); m.last = ""; ed.handleInput(KEY.enter); return true; } let got; ed.onSubmit = (t) => { got = t; }; ed.handleInput(KEY.enter); const t = textOf(m.a); S.assert(got === (opt.one || opt.keep ? t : t.trim()), "what is submitted is not what was entered"); S.cover("submitted"); if (opt.one) return true; m.a = []; m.i = 0; m.kills = []; m.past = []; m.last = ""; return true; }
  }
};
// undo goes back to something that was there before, further back each time
const undone = (S, ed, m) => { const t = ed.getValue ? ed.getValue() : ed.getExpandedText(); let k = m.past.length - 1; while (k >= 0 && textOf(m.past[k].a) !== t) k--; if (k < 0) { S.assert(textOf(m.a) === t, "undo brings up a text that was never there"); return false; } const p = m.past[k]; m.past.length = k; m.a = [...p.a]; m.i = p.i; return ed.getValue ? true : agree(S, ed, m, true); };
const fake = { terminal: { rows: 24, columns: 80 }, requestRender() {} }, theme = { borderColor: (s) => s, selectList: {} };
const widthOf = (c) => c[0] === "漢" ? 2 : 1;
const STARTS = { empty: [], words: ["words"], lines: ["lines"], big: ["big"], two: ["big", "big2"], mixed: ["type", "big", "wide"], killed: ["words", "kw", "left", "ku"], copied: ["big", "kw", "yank", "yank"], history: ["hist"] };
const OPS = ["type", "blank", "dot", "marked", "wide", "slash", "nl", "small", "tabs", "big", "left", "right", "wleft", "wright", "home", "end", "bs", "del", "kw", "kwf", "ku", "kk", "yank", "pop", "undo", "up", "down", "pgup", "jf", "jb", "set", "insert", "enter"];
const prepare = (S, ed, m, how, opt) => { let n = 0; for (const op of STARTS[how]) { if (op === "words") for (const c of "ab .ca e\u0301") { if (c === "\u0301") continue; const t = c === "e" ? "e\u0301" : c; m.save(); m.put(units(t)); m.last = "type"; ed.handleInput(t); } else if (op === "lines") { m.save(); m.put(units("ab a\n\n漢 p.a")); ed.insertTextAtCursor("ab a\n\n漢 p.a"); m.i = m.a.length; } else if (op === "hist") ed.setHistory(["old", "h1\nz"]); else step(S, ed, m, op, "s" + n++, opt); } };
// what is drawn is the text, wrapped at the width, with the cursor where it is
const drawn = (S, ed, m, width, pad) => {
  ed.setPaddingX(pad); const rows = ed.render(width), body = rows.slice(1, -1).map((r) => cellsOf(r, widthOf)); S.assert(cellsOf(rows[0], widthOf).width === width, "the frame is not as wide as it should be");
  const p = Math.min(pad, Math.max(0, Math.floor((width - 1) / 2))), inner = Math.max(1, width - 2 * p), room = Math.max(1, inner - (p ? 0 : 1)); if (room < 2) return; const t = ed.getText(), c = flatCursor(ed); let at = 0, seen = -1;
  if (!/^─+$/.test(rows[0]) || !/^─+$/.test(rows[rows.length - 1])) return;
  for (const b of body) {
    S.assert(b.width <= width, "a line is drawn wider than the terminal"); const cells = b.cells.slice(p); let col = 0, took = 0; const blanks = cells.length - (cells.findLastIndex((x) => x.c !== " ") + 1), solid = cells.length - blanks;
    for (let k = 0; k < cells.length; k++) { const x = cells[k]; if (x.st.inv && !(k > 0 && cells[k - 1].st.inv)) { S.assert(seen < 0, "two cursors are drawn"); seen = at; } if (col + x.w > room && k >= solid) break; col += x.w; if (k < solid || t[at] === " ") { S.assert(t.startsWith(x.c, at), "the text drawn is not the text entered"); at += x.c.length; took++; } else if (seen >= 0 || c !== at) break; }
    for (const x of cells.slice(took)) if (x.st.inv && seen < 0) seen = at; if (t[at] === "\n") at++;
  }
  S.assert(at === t.length, "part of the text is not drawn"); S.assert(seen === c, "the cursor is drawn elsewhere");
};
const play = (S, ed, opt, starts, ops, len, end) => {
  const m = new Model(), how = S.pick("start", starts); prepare(S, ed, m, how, opt); opt.browsing = false; opt.history = how === "history";
  for (let n = 0; n < len; n++) { const op = S.pick("op" + n, ops); if (how === "history" && n === 0 && op !== "up") return; const free = step(S, ed, m, op, n, opt); if (free === false) return; if (how === "history") opt.browsing = m.a.length > 0; if (!agreeAny(S, ed, m, opt)) return; S.cover(op); }
  end(m);
};
const agreeAny = (S, ed, m, opt) => opt.one ? (S.assert(ed.getValue() === textOf(m.a), "the value is not what was entered"), true) : agree(S, ed, m, false);
const drain = (S, ed, m, get) => { const first = m.past.length ? textOf(m.past[0].a) : textOf(m.a); for (let i = 0; i < 40; i++) ed.handleInput(KEY.undo); S.assert(get() === first, "undoing everything does not lead back to the beginning"); };
export const cases = {
  editor: { covers: OPS, run(S) {
    const ed = new Editor(fake, theme, {}); play(S, ed, {}, Object.keys(STARTS), OPS, S.thorough ? 3 : 2, (m) => drain(S, ed, m, () => ed.getExpandedText()));
  } },
  // folded pastes: killed, copied, deleted and brought back among others
  folds: { covers: ["yank"], run(S) { const ed = new Editor(fake, theme, {}); play(S, ed, {}, ["two", "copied", "mixed", "big"], ["kw", "bs", "left", "yank", "undo", "set", "big", "home", "enter"], S.thorough ? 5 : 4, () => {}); } },
  kills: { covers: ["kw", "pop", "undo"], run(S) { const ed = new Editor(fake, theme, {}); play(S, ed, {}, ["words", "lines", "killed"], ["kw", "kwf", "ku", "kk", "yank", "pop", "undo", "left", "type", "wleft", "home"], S.thorough ? 5 : 4, (m) => drain(S, ed, m, () => ed.getExpandedText())); } },
  drawing: { covers: ["drawn"], run(S) {
    const ed = new Editor(fake, theme, {}), m = new Model(), opt = {}, width = S.pick("width", [3, 5, 8, 30]), pad = S.upto("pad", 2); ed.focused = S.flag("focused"); prepare(S, ed, m, S.pick("start", ["words", "lines", "two", "mixed"]), opt); drawn(S, ed, m, width, pad);
    for (let n = 0; n < (S.thorough ? 3 : 2); n++) { if (step(S, ed, m, S.pick("op" + n, ["up", "down", "pgup", "left", "home", "wleft", "type", "wide", "blank", "bs", "nl", "right"]), n, opt) === false || !agree(S, ed, m, false)) return; if (n === 1 && S.flag("resize")) drawn(S, ed, m, width + 2, pad); else drawn(S, ed, m, width, pad); S.cover("drawn"); }
  } },
  // what is private is kept as it is entered and nowhere else
  privately: { covers: ["submitted"], run(S) {
    const ed = new Editor(fake, theme, { privateContent: true }); ed.setHistory(["old"]); ed.addToHistory("new"); const opt = { keep: true }; play(S, ed, opt, ["empty", "words", "lines"], ["type", "blank", "nl", "small", "big", "kw", "ku", "kk", "yank", "pop", "undo", "up", "bs", "del", "left", "home", "set", "insert", "enter"], 2, (m) => { const t = textOf(m.a); for (let i = 0; i < 5; i++) ed.handleInput(KEY.undo); ed.handleInput(KEY.yank); S.assert(ed.getExpandedText() === t, "private text comes back from undo or yank"); });
  } },
  input: { covers: ["submitted", "hidden"], run(S) {
    const sensitive = S.flag("sensitive"), ed = new Input({ sensitive }), m = new Model(), opt = { one: true, keep: sensitive }; ed.focused = true;
    for (const c of S.pick("start", ["", "ab .c", "ae\u0301漢"])) { if (c === "\u0301") continue; const t = c === "e" ? "e\u0301" : c; m.save(); m.put(units(t)); m.last = "type"; ed.handleInput(t); }
    for (let n = 0; n < (S.thorough ? 3 : 2); n++) {
      const op = S.pick("op" + n, ["type", "blank", "dot", "marked", "wide", "small", "tabs", "left", "right", "wleft", "wright", "home", "end", "bs", "del", "kw", "kwf", "ku", "kk", "yank", "pop", "undo", "enter"]); if (step(S, ed, m, op, n, opt) === false) return; S.assert(ed.getValue() === textOf(m.a), "the value is not what was entered"); if (sensitive && op === "small") return;
    }
    const width = S.pick("width", [4, 6, 12]), row = ed.render(width)[0], shown = cellsOf(row, widthOf), cells = shown.cells.slice(2); S.assert(shown.width <= width, "the input is drawn wider than the terminal"); const k = cells.findIndex((x) => x.st.inv); S.assert(k >= 0, "the cursor is not drawn");
    if (sensitive) { for (const x of cells) S.assert(x.c === " " || x.c === "•", "what is typed in secret is shown"); S.cover("hidden"); }
    else { const at = m.a[m.i]; S.assert(cells[k].c === (at ? at.c : " ") || at && widthOf(at.c) === 2 && width < 6, "another character is under the cursor"); let j = k - 1; for (let i = m.i - 1; i >= 0 && j >= 0; i--, j--) S.assert(cells[j].c === m.a[i].c, "other text is shown before the cursor"); }
  } },
};
