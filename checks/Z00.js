// Self test of the symbolic executor: every path is replayed natively and all notes are compared.
import { S } from "symex";
import path from "node:path";
import fs from "node:fs";
import { createHash } from "node:crypto";
export const meta = { bounds: ["engine self test"] };
class Acc { #n = 0; static made = 0; constructor(k = 2) { this.k = k; Acc.made++; } add(x) { this.#n += x * this.k; return this; } get n() { return this.#n; } set n(v) { this.#n = v; } *gen() { for (let i = 0; i < this.k; i++) yield this.#n + i; } }
const sw = (x) => { switch (x) { case "a": return 1; case "b": case "c": return 2; default: return x.length; } };
export const cases = {
  arith: { run(S) {
    const a = S.int("a", -20, 100), b = S.int("b", 0, 9);
    const q = new Acc(3); q.add(a).add(b);
    S.note([q.n, [...q.gen()], a % 7, a & 12, a | 3, a ^ 5, a << 2, a >> 1, ~a, Math.floor(a / 4), Math.round(a / 4), Math.ceil(a / 3), Math.trunc(a / 2), Math.abs(a), Math.sign(a), Math.min(a, b, 5), Math.max(a, b)]);
    S.note([a ?? 1, a || "z", a && "y", !a, -a, +a, a > b ? a : b, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10][b], a === b, a != b, typeof a, Number.isInteger(a / 2), a.toString(), String(b) + 1, `${a}`.padStart(5, "0")]);
    let i = 0; while (i < b) { i += 3; if (i > 7) break; } S.note(i);
    const o = { a, b, [b]: 1 }; const { a: x, ...r } = o; S.note([x, r, Object.keys(o), { ...o, a: 1 }]);
    const l = [a, b, 3].sort((p, q) => p - q); S.note(l); S.note([a, b].reduce((s, v) => s + v, 0)); S.note([5, a, b].map((v) => v * 2).filter((v) => v > 10));
    S.note([a / 2 > 3.5, b * 0.25, a === 5 && b > 2, Number.isSafeInteger(a), parseInt(String(b), 10), Number.isFinite(a), isNaN(a)]);
    let t = 0; for (const k in { p: 1, q: 2 }) t += k === "p" ? a : b; S.note(t); let c = 0; c ||= b; c &&= a; c ??= 1; S.note(c); let w = a; S.note([w++, ++w, w--, w]); w += 3; w *= 2; S.note(w);
  } },
  strs: { run(S) {
    const s = S.str("s", { min: 0, max: 3, of: "aB/. 1" });
    S.note([s.length, s.trim(), s.split("/"), s.replace(/a+/g, "X$&"), s.replaceAll("a", "zz"), s.toUpperCase(), s.toLowerCase(), s.indexOf("B"), s.lastIndexOf("/"), s.includes("a/"), s.startsWith("a"), s.endsWith("1"), s.slice(1), s.slice(-2), s.substring(2, 0), s.charAt(1), s[0], s.at(-1), s.codePointAt(0), s.padEnd(4, "-"), s.repeat(2), s.concat("q", s)]);
    S.note([/^(a|B)+(\.\w)?/.exec(s)?.slice(), s.match(/[a-z]/gi), [...s.matchAll(/(\w)(\W)?/g)].map((m) => [m[0], m[1], m[2], m.index]), /\d/.test(s), s.search(/B/), s.split(/[./]/), /^\s*$/.test(s), s.replace(/(\w)\/(\w)/, "$2-$1"), s.replace(/[aB]/g, (c, p) => c + p), s.match(/(?<x>a)(?=\/)/)?.groups?.x]);
    S.note([JSON.stringify({ s, n: [1, s] }), JSON.parse(JSON.stringify({ s })).s === s, Number(s), parseInt(s, 10), s < "b", s >= "B", s == "a", sw(s), `<${s}>`, [s, "x"].join(","), encodeURIComponent(s), [...s], Array.from(s, (c) => c + "!"), Buffer.byteLength(s)]);
    const o = {}; o[s] = 1; o["a"] = 2; S.note([Object.keys(o), o[s], s in o, Object.entries(o), "a" in o]); delete o[s]; S.note(o);
    const mp = new Map([[s, 1]]); mp.set("aB", 5); S.note([mp.get(s), mp.size, [...mp.keys()], mp.has("aB")]);
    const st = new Set(["a", s, "B"]); S.note([...st]);
    S.note([path.resolve("/r", s), path.join("a", s), path.normalize(s), path.basename(s), path.dirname(s), path.extname(s), path.isAbsolute(s), path.relative("/a", "/" + s)]);
    try { throw new TypeError("bad " + s); } catch (e) { S.note([e.message, e instanceof TypeError, e instanceof Error, e.name, String(e)]); }
    S.note(structuredClone({ s, l: [s] }));
    S.note([["b", s, "a"].sort(), ["b", s].includes("a"), ["b", s].indexOf("a"), [s].some((x) => x === "a"), [s, "a"].every((x) => x.length > 0), s.localeCompare === undefined]);
    const h = createHash("sha256").update(s).digest("hex"), h2 = createHash("sha256").update("a").digest("hex"); S.note([h === h2, h.length]);
  } },
  uni: { run(S) {
    const s = S.str("s", { len: 2, of: [[0x41, 0x42], [0xe9, 0xe9], [0x4e00, 0x4e00], [0xd83d, 0xd83d], [0xde00, 0xde00]] });
    S.note([[...s].length, s.codePointAt(0), Buffer.byteLength(s), [...Buffer.from(s)], Buffer.from(s, "utf8").toString("utf8"), JSON.stringify(s), s.isWellFormed(), s.toWellFormed(), new TextEncoder().encode(s).length, /\p{L}/u.test(s[0]), s.replace(/[^\x00-\x7f]/g, "?"), s.replace(/./gu, "#"), [...s].map((c) => c.codePointAt(0))]);
  } },
  json: { run(S) {
    const s = S.str("s", { min: 1, max: 3, of: '{}[]":1a,n' });
    const r = S.try(() => JSON.parse(s)); S.note(r.ok ? r.value : "bad");
    const n = S.str("n", { min: 0, max: 3, of: "0-.e1 x" }); S.note([Number(n), parseInt(n, 10), parseFloat(n), Number.isFinite(Number(n)), isNaN(n)]);
  } },
  fsm: { async run(S) {
    const d = S.str("d", { min: 0, max: 2, of: "xy\n" });
    fs.mkdirSync("/w/a", { recursive: true }); fs.writeFileSync("/w/a/f", d); fs.appendFileSync("/w/a/f", "!\n");
    fs.renameSync("/w/a/f", "/w/g"); S.note([fs.readFileSync("/w/g", "utf8").split("\n"), fs.existsSync("/w/a/f"), fs.statSync("/w/g").size, fs.readdirSync("/w")]);
    const r = S.try(() => fs.readFileSync("/w/none", "utf8")); S.note([r.ok, r.error.code, r.error.message]);
    const x = S.int("x", 0, 3), out = [];
    const f = async (n) => { await new Promise((r) => setTimeout(r, 10 * n)); out.push(n); };
    await Promise.all([f(2), f(1), x > 1 ? f(3) : f(0)]);
    S.note([out, Date.now(), new Date(1700000000000 + 5).toISOString()]);
    const lbl = []; outer: for (let i = 0; i < 3; i++) { for (let j = 0; j < 3; j++) { if (i * j > x) break outer; if (j > i) continue outer; lbl.push(i * 10 + j); } } S.note(lbl);
    const o = { f() { return this.v; }, v: x }; const g = o.f?.(); S.note([g, o?.v, o.zz?.q, o["v"], o.zz?.(), (() => o)().v]); const [p0, , p2 = 7, ...rest] = [x, 1, undefined, 4, 5]; S.note([p0, p2, rest]); function dd({ a = 1, b: { c } = { c: x } } = {}, ...zs) { return [a, c, zs, arguments.length]; } S.note([dd(), dd({ a: 5 }, x)]);
  } },
};
