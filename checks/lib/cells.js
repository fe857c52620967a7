// What a terminal shows: one cell per character (marks join the one before), each with its width and its style.
export const fresh = () => ({ bold: 0, ul: 0, inv: 0, fg: "", bg: "", link: "" });
export const restyle = (st, code) => {
  if (code.startsWith("\x1b]8;")) { const b = code.slice(4, code.endsWith("\x07") ? -1 : -2); return { ...st, link: b.slice(b.indexOf(";") + 1) }; }
  if (!code.startsWith("\x1b[")) return st;
  let s = { ...st }; const p = code.slice(2, -1).split(";").map(Number);
  for (let i = 0; i < p.length; i++) { const c = p[i]; if (c === 0) s = { ...fresh(), link: s.link }; else if (c === 1) s.bold = 1; else if (c === 22) s.bold = 0; else if (c === 4) s.ul = 1; else if (c === 24) s.ul = 0; else if (c === 7) s.inv = 1; else if (c === 27) s.inv = 0; else if (c === 39) s.fg = ""; else if (c === 49) s.bg = ""; else if (c === 38 || c === 48) { const n = p[i + 1] === 5 ? 3 : 5; s[c === 38 ? "fg" : "bg"] = p.slice(i, i + n).join(";"); i += n - 1; } else if (c >= 30 && c <= 37) s.fg = String(c); else if (c >= 40 && c <= 47) s.bg = String(c); }
  return s;
};
export const sameStyle = (a, b) => a.bold === b.bold && a.ul === b.ul && a.inv === b.inv && a.fg === b.fg && a.bg === b.bg && a.link === b.link;
export const sameCell = (a, b) => a.c === b.c && sameStyle(a.st, b.st);
export const codeEnd = (text, i) => { let j = i + 2; if (text[i + 1] === "[") while (!/[@-~]/.test(text[j])) j++; else while (text[j] !== "\x07" && text[j] !== "\\") j++; return j + 1; };
export const cellsOf = (text, widthOf) => {
  const cells = []; let st = fresh(), i = 0;
  while (i < text.length) {
    const c = text[i]; if (c === "\x1b") { const e = codeEnd(text, i), code = text.slice(i, e); if (code.endsWith("m") || code.startsWith("\x1b]8;")) st = restyle(st, code); i = e; continue; }
    if (c === "\u0301" && cells.length) { cells[cells.length - 1].c += c; i++; continue; }
    cells.push({ c, w: widthOf(c), st }); i++;
  }
  return { cells, end: st, width: cells.reduce((n, x) => n + x.w, 0) };
};
// a terminal: rows of cells (screen and what scrolled off), interpreted as an xterm does
export class Screen {
  constructor(columns, rows, at, widthOf) { this.columns = columns; this.rows = rows; this.widthOf = widthOf; this.lines = []; this.top = 0; this.r = at; this.c = 0; this.pend = false; this.st = fresh(); this.base = at; for (let i = 0; i < rows; i++) this.lines.push(i < at ? ["?"].map((c) => ({ c, w: 1, st: fresh() })) : []); this.visible = true; this.bad = undefined; this.written = 0; }
  row(r) { while (this.lines.length <= this.top + r) this.lines.push([]); return this.lines[this.top + r]; }
  feed() { if (this.r === this.rows - 1) this.top++; else this.r++; this.row(this.r); this.pend = false; }
  put(c) {
    const w = this.widthOf(c); if (this.pend || this.c + w > this.columns) { this.c = 0; this.feed(); this.bad = "a line runs over the edge of the terminal"; }
    const l = this.row(this.r); while (l.length < this.c) l.push({ c: " ", w: 1, st: fresh() });
    const hole = () => ({ c: " ", w: 1, st: this.st }); if (l[this.c]?.w === 0 && this.c > 0) l[this.c - 1] = hole(); if (l[this.c + w]?.w === 0) l[this.c + w] = hole();
    l[this.c] = { c, w, st: this.st }; if (w === 2) l[this.c + 1] = { c: "", w: 0, st: this.st }; this.c += w; if (this.c >= this.columns) { this.c = this.columns - 1; this.pend = true; }
  }
  write(text) {
    this.written += text.length;
    for (let i = 0; i < text.length; i++) {
      const c = text[i];
      if (c === "\r") { this.c = 0; this.pend = false; } else if (c === "\n") this.feed(); else if (c === "\x1b") {
        const e = codeEnd(text, i), code = text.slice(i, e); i = e - 1; const n = Number(code.slice(2, -1)) || 1, f = code[code.length - 1];
        if (code.startsWith("\x1b_")) continue; if (code.startsWith("\x1b]")) { if (code.startsWith("\x1b]8;")) this.st = restyle(this.st, code); continue; }
        if (f === "m") this.st = restyle(this.st, code); else if (f === "A") { this.r = Math.max(0, this.r - n); this.pend = false; } else if (f === "B") { this.r = Math.min(this.rows - 1, this.r + n); this.pend = false; } else if (f === "G") { this.c = Math.min(this.columns - 1, n - 1); this.pend = false; }
        else if (code === "\x1b[K") { const l = this.row(this.r); if (l[this.c]?.w === 0) l[this.c - 1] = { c: " ", w: 1, st: this.st }; l.length = Math.min(l.length, this.c); } else if (code === "\x1b[2K") this.row(this.r).length = 0; else if (code === "\x1b[H") { this.r = 0; this.c = 0; this.pend = false; this.base = this.top; } else if (code === "\x1b[2J") for (let k = 0; k < this.rows; k++) this.row(k).length = 0; else if (code === "\x1b[3J") { this.lines.splice(0, this.top); this.base -= this.top; this.top = 0; } else if (code === "\x1b[J") { this.row(this.r).length = Math.min(this.row(this.r).length, this.c); for (let k = this.r + 1; k < this.rows; k++) this.row(k).length = 0; }
        else if (f !== "h" && f !== "l" && f !== "n" && f !== "t") this.bad = "an unknown control code is written " + JSON.stringify(code);
      } else this.put(c);
    }
  }
  resize(columns, rows) { // rows stay where they are, what no longer fits scrolls off or is cut
    this.columns = columns; if (rows < this.rows) { const used = this.r + 1; if (used > rows) { this.top += used - rows; this.r = rows - 1; } this.lines.length = Math.min(this.lines.length, this.top + rows); } else if (rows > this.rows) { const back = Math.min(this.top, rows - this.rows); this.top -= back; this.r += back; }
    this.rows = rows; this.c = Math.min(this.c, columns - 1); this.pend = false;
  }
}
