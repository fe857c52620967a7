// Synchronous SMT solver over FIFOs.
import { execFileSync, spawn } from "node:child_process";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { emit, varsOf, vname } from "./term.mjs";

export class Solver {
  constructor(opts = {}) {
    this.cmd = opts.cmd ?? process.env.VERIF_Z3 ?? "z3-new";
    this.timeoutMs = opts.timeoutMs ?? 20000;
    this.queries = 0;
    this.timeMs = 0;
    this.unknown = 0;
    this.sat = 0;
    this.unsat = 0;
    this.cacheHits = 0;
    this.start();
  }
  start() {
    const dir = fs.mkdtempSync(path.join(os.tmpdir(), "vsolver-"));
    const fin = path.join(dir, "in"), fout = path.join(dir, "out");
    execFileSync("mkfifo", [fin, fout]);
    this.fdIn = fs.openSync(fin, "r+");
    this.fdOut = fs.openSync(fout, "r+");
    this.child = spawn(this.cmd, ["-in", "-smt2", "-memory:3000"], { stdio: [this.fdIn, this.fdOut, "ignore"] });
    this.child.unref();
    fs.unlinkSync(fin); fs.unlinkSync(fout); fs.rmdirSync(dir);
    this.buf = Buffer.alloc(1 << 16);
    this.pending = "";
    this.reset();
  }
  reset() {
    this.defined = new Set();
    this.stack = [];
    this.cache = new Map();
    this.send(`(reset)\n(set-option :global-declarations true)\n(set-option :timeout ${this.timeoutMs})\n(set-option :produce-models true)\n`);
  }
  send(s) {
    const b = Buffer.from(s);
    let off = 0;
    while (off < b.length) off += fs.writeSync(this.fdIn, b, off, Math.min(b.length - off, 32768));
  }
  readLine() {
    for (;;) {
      const i = this.pending.indexOf("\n");
      if (i >= 0) {
        const l = this.pending.slice(0, i);
        this.pending = this.pending.slice(i + 1);
        return l;
      }
      const n = fs.readSync(this.fdOut, this.buf, 0, this.buf.length, null);
      this.pending += this.buf.toString("latin1", 0, n);
    }
  }
  readSexpr() {
    let depth = 0, text = "", inBar = false;
    for (;;) {
      const l = this.readLine();
      text += l + "\n";
      for (const ch of l) {
        if (ch === "|") inBar = !inBar;
        else if (!inBar) { if (ch === "(") depth++; else if (ch === ")") depth--; }
      }
      if (depth <= 0) return text;
    }
  }
  // pc: array of terms (conjunction); q: term or undefined. Returns {r:'sat'|'unsat'|'unknown', model}
  check(pc, q, wantModel = true) {
    const t0 = performance.now();
    // relevance slicing: conjuncts transitively sharing variables with q
    let rel = pc;
    if (q !== undefined) {
      const vs = new Set(varsOf(q));
      const remaining = pc.slice();
      rel = [];
      let changed = true;
      const inRel = new Set();
      while (changed) {
        changed = false;
        for (let i = 0; i < remaining.length; i++) {
          const c = remaining[i];
          if (c === null) continue;
          let hit = false;
          for (const v of varsOf(c)) if (vs.has(v)) { hit = true; break; }
          if (hit) {
            for (const v of varsOf(c)) vs.add(v);
            remaining[i] = null;
            inRel.add(c);
            changed = true;
          }
        }
      }
      for (const c of pc) if (inRel.has(c)) rel.push(c);
    }
    const key = rel.map((c) => c.id).join(",") + "?" + (q ? q.id : "");
    const hit = this.cache.get(key);
    if (hit) { this.cacheHits++; return hit; }
    this.queries++;
    const out = [];
    const st = this.stack;
    let common = 0;
    while (common < st.length && common < rel.length && st[common] === rel[common]) common++;
    if (st.length > common) { out.push(`(pop ${st.length - common})`); st.length = common; }
    for (let i = common; i < rel.length; i++) {
      const ref = emit(rel[i], this.defined, out);
      out.push("(push 1)", `(assert ${ref})`);
      st.push(rel[i]);
    }
    if (q !== undefined) {
      const ref = emit(q, this.defined, out);
      out.push("(push 1)", `(assert ${ref})`);
    }
    out.push("(check-sat)");
    this.send(out.join("\n") + "\n");
    let r = this.readLine().trim();
    while (r === "") r = this.readLine().trim();
    if (r.startsWith("(error")) throw new Error("solver error: " + r);
    let model;
    if (r === "sat" && wantModel) {
      const vars = new Map();
      for (const c of rel) for (const v of varsOf(c)) vars.set(v.v, v);
      if (q) for (const v of varsOf(q)) vars.set(v.v, v);
      model = new Map();
      if (vars.size > 0) {
        this.send(`(get-value (${[...vars.keys()].map(vname).join(" ")}))\n`);
        parseValues(this.readSexpr(), model);
      }
    }
    if (q !== undefined) this.send("(pop 1)\n");
    if (r === "sat") this.sat++;
    else if (r === "unsat") this.unsat++;
    else { this.unknown++; r = "unknown"; }
    this.timeMs += performance.now() - t0;
    const res = { r, model };
    if (r !== "unknown") this.cache.set(key, res);
    if (this.cache.size > 200000) this.cache.clear();
    return res;
  }
  close() {
    try { this.send("(exit)\n"); } catch {}
    try { this.child.kill("SIGKILL"); } catch {}
    try { fs.closeSync(this.fdIn); fs.closeSync(this.fdOut); } catch {}
  }
}

function parseValues(text, model) {
  // tokens
  const toks = [];
  const re = /\|[^|]*\||[()]|[^\s()|]+/g;
  let m;
  while ((m = re.exec(text))) toks.push(m[0]);
  let i = 0;
  const parse = () => {
    const t = toks[i++];
    if (t === "(") {
      const l = [];
      while (toks[i] !== ")") l.push(parse());
      i++;
      return l;
    }
    return t;
  };
  const val = (x) => {
    if (x === "true") return true;
    if (x === "false") return false;
    if (typeof x === "string") { if (x.endsWith("?")) x = x.slice(0, -1); return Number(x); }
    if (x[0] === "-") return -val(x[1]);
    if (x[0] === "/") return val(x[1]) / val(x[2]);
    throw new Error("value " + JSON.stringify(x));
  };
  const l = parse();
  for (const [n, v] of l) model.set(n.startsWith("|") ? n.slice(1, -1) : n, val(v));
}
