import { S } from "symex";
import fs from "node:fs";
import { deflateRawSync } from "node:zlib";
import { extractZipFile, ZipExtractionError } from "@repo/packages/coding-agent/src/utils/zip-extractor.ts";

export const meta = {
  bounds: ["every entry name of up to 4 (thorough 5) characters over letters, dot, slash, backslash, colon and a control character, as a file or folder, beside one of five other entries", "archives of two entries, stored or deflated, with every single byte of their headers and names given every value (thorough: any two header fields), cut at every place, and with the content damaged", "destinations that are new, hold files, folders and links at any place of the entry's path; a failing write"],
  outside: ["archives changed while they are read", "case folding of file systems", "content other than the samples"],
  assumptions: ["the checksum of the samples is computed by the check itself"],
};
const crc = (t) => { let c = -1; for (const b of Buffer.from(t)) { c ^= b; for (let k = 0; k < 8; k++) c = (c >>> 1) ^ (c & 1 ? 0xedb88320 : 0); } return ~c >>> 0; };
const le = (v, n) => { const out = []; for (let k = 0; k < n; k++) { out.push(v % 256); v = Math.floor(v / 256); } return out; };
// the archive as fields, each [value, bytes] or literal bytes
const local = (e) => [[0x04034b50, 4], [20, 2], [e.flags ?? 0x800, 2], [e.method, 2], [0, 4], [crc(e.text), 4], [e.data.length, 4], [e.text.length, 4], [e.name.length, 2], [0, 2]].flatMap(([v, n]) => le(v, n));
const central = (e, at) => [[0x02014b50, 4], [e.made ?? 0x314, 2], [20, 2], [e.flags ?? 0x800, 2], [e.method, 2], [0, 4], [crc(e.text), 4], [e.data.length, 4], [e.text.length, 4], [e.name.length, 2], [0, 2], [0, 2], [0, 2], [0, 2], [e.mode ?? (e.dir ? 0o40755 * 65536 + 16 : 0o100600 * 65536), 4], [at, 4]].flatMap(([v, n]) => le(v, n));
const entry = (name, text, deflated) => ({ name: typeof name === "string" ? [...Buffer.from(name)] : name, text, method: deflated ? 8 : 0, data: deflated ? [...deflateRawSync(Buffer.from(text))] : [...Buffer.from(text)], dir: typeof name === "string" && name.endsWith("/") });
const archive = (list, note = "") => { const out = [], dirs = []; for (const e of list) { const at = out.length; out.push(...local(e), ...e.name, ...e.data); dirs.push(...central(e, at), ...e.name); } const at = out.length; out.push(...dirs, ...[[0x06054b50, 4], [0, 2], [0, 2], [list.length, 2], [list.length, 2], [dirs.length, 4], [at, 4], [note.length, 2]].flatMap(([v, n]) => le(v, n)), ...Buffer.from(note)); return { bytes: out, at, dirs: dirs.length }; };
const give = (S, bytes) => { fs.mkdirSync("/w", { recursive: true }); fs.writeFileSync("/w/a.zip", "x"); S.fs.S.bytes = new Map([["/w/a.zip", Buffer.from(bytes)]]); };
// everything below a folder: path → text, "/" for folders, "→target" for links
const tree = (dir, at = "") => { const out = {}; for (const n of fs.readdirSync(dir).sort()) { const p = dir + "/" + n, st = fs.lstatSync(p); if (st.isSymbolicLink()) out[at + n] = "→" + fs.readlinkSync(p); else if (st.isDirectory()) { out[at + n] = "/"; Object.assign(out, tree(p, at + n + "/")); } else out[at + n] = fs.readFileSync(p, "utf8"); } return out; };
const eq = (a, b) => { const x = Object.keys(a), y = Object.keys(b); return x.length === y.length && x.every((k) => a[k] === b[k]); };
const run = async (S, dest = "/w/out") => { const r = await S.tryAsync(() => extractZipFile("/w/a.zip", dest)); if (!r.ok) S.assert(r.error instanceof ZipExtractionError, "a refusal is not reported as such"); return r.ok; };
// what a name stands for: the parts of a path inside, or nothing
const parts = (name) => { const p = name.replace(/\\/g, "/"); if (p === "" || p.startsWith("/") || p.includes("\0")) return; const dir = p.endsWith("/"), s = (dir ? p.slice(0, -1) : p).split("/"); if (s.some((x) => x === "" || x === "." || x === ".." || x.includes(":"))) return; return { dir, s }; };
const setting = () => { fs.mkdirSync("/w", { recursive: true }); fs.writeFileSync("/w/secret", "s"); fs.mkdirSync("/other", { recursive: true }); fs.writeFileSync("/other/f", "o"); };
const untouched = (S) => { S.assert(fs.readFileSync("/w/secret", "utf8") === "s" && eq(tree("/other"), { f: "o" }) && !fs.existsSync("/w/out.zip"), "something outside the destination was changed"); S.assert(fs.readdirSync("/w").every((n) => n === "a.zip" || n === "secret" || n === "out") && fs.readdirSync("/").every((n) => n === "w" || n === "other" || n === "tmp" || n === "home" || n === "root"), "something was created outside the destination"); };
export const cases = {
  names: { covers: ["kept", "refused", "folder"], async run(S) {
    setting(); const name = S.str("name", { min: 1, max: S.thorough ? 5 : 4, of: "ab./\\:\u0001" }), mate = S.pick("mate", [undefined, "a", "a/", "a/b", "b/a"]), list = [entry(name, "hi", false)]; if (mate !== undefined) list.push(entry(mate, mate.endsWith("/") ? "" : "yo", false)); give(S, archive(list).bytes);
    const ok = await run(S), p = parts(name); untouched(S); const want = {}; let good = p !== undefined;
    const add = (q, text) => { let at = ""; for (let i = 0; i < q.s.length - (q.dir ? 0 : 1); i++) { at += (i ? "/" : "") + q.s[i]; if (want[at] !== undefined && want[at] !== "/") good = false; want[at] = "/"; } if (!q.dir) { const k = q.s.join("/"); if (want[k] !== undefined) good = false; want[k] = text; } };
    if (good) { add(p, "hi"); if (mate !== undefined) { const q = parts(mate); if (q.s.join("/") === p.s.join("/")) good = false; else add(q, "yo"); } }
    S.assert(ok === good, good ? "a sound archive is refused" : "an entry that leads elsewhere or clashes is not refused"); if (good) { S.assert(eq(tree("/w/out"), want), "the files unpacked are not those of the archive"); for (const k of Object.keys(want)) S.assert(fs.lstatSync("/w/out/" + k).mode % 512 === (want[k] === "/" ? 0o700 : 0o600), "what is unpacked is open to others"); S.cover(p.dir ? "folder" : "kept"); } else S.cover("refused");
  } },
  header: { covers: ["same", "kept", "refused", "folder"], async run(S) {
    setting(); const made = S.pick("made", [0x314, 0x14]), deflated = S.flag("deflated"), texts = deflated ? ["hihihihihi", "yoyoyoyoyo"] : ["hi", "yo"], list = ["a", "d/b"].map((n, k) => ({ ...entry(n, texts[k], deflated), made })), { bytes, at } = archive(list, "n"), l1 = 30 + 1 + list[0].data.length, c1 = 46 + 1;
    // every field: where it starts, its bytes, and what another value means
    const fields = [];
    for (const [k, base] of [[0, 0], [1, l1]]) { let o = base; for (const [n, what] of [[4, "no"], [2, "ignored"], [2, "no"], [2, "no"], [4, "ignored"], [4, "ignored"], [4, "ignored"], [4, "ignored"], [2, "no"], [2, "no"], [list[k].name.length, "ignored"]]) { fields.push([o, n, what, k]); o += n; } }
    for (const [k, base] of [[0, at], [1, at + c1]]) { let o = base; for (const [n, what] of [[4, "no"], [1, "ignored"], [1, "host"], [2, "ignored"], [2, "no"], [2, "no"], [4, "ignored"], [4, "no"], [4, deflated ? "any" : "no"], [4, "no"], [2, "any"], [2, "no"], [2, "no"], [2, "no"], [2, "ignored"], [1, "dosdir"], [1, "ignored"], [1, "ignored"], [1, "type"], [4, "no"], [list[k].name.length, "any"]]) { fields.push([o, n, what, k]); o += n; } }
    fields.push([bytes.length - 23, 4, "no"], [bytes.length - 19, 8, "no"], [bytes.length - 11, 4, "no"], [bytes.length - 7, 4, "no"], [bytes.length - 3, 2, "no"], [bytes.length - 1, 1, "ignored"]);
    const [from, n, what, who] = fields[S.upto("field", fields.length - 1)], pos = from + (n > 1 ? S.upto("byte", n - 1) : 0), old = bytes[pos], value = S.int("value", 0, 255); bytes[pos] = value; give(S, bytes);
    const ok = await run(S); untouched(S); const same = value === old;
    const plain = { a: texts[0], d: "/", "d/b": texts[1] }, asDir = { ...plain, [list[who ?? 0].text === texts[0] ? "a" : "d/b"]: "/" };
    if (same || what === "ignored") { S.assert(ok && eq(tree("/w/out"), plain), "a sound archive is not unpacked as it is"); S.cover("same"); return; }
    if (what === "no") { S.assert(!ok, "an archive at odds with itself is unpacked"); S.cover("refused"); return; }
    if (what === "host") { S.assert(ok && eq(tree("/w/out"), plain), "a file made on another system is not unpacked as it is"); S.cover("kept"); return; }
    if (what === "dosdir") { const d = Math.floor(value / 16) % 2 === 1; S.assert(ok && eq(tree("/w/out"), d ? asDir : plain), "an entry is unpacked as another kind than its header says"); if (d) S.cover("folder"); return; }
    if (what === "type") { const t = Math.floor(value / 16); if (made === 0x314 && t !== 0 && t !== 4 && t !== 8) { S.assert(!ok, "a link or device is unpacked"); S.cover("refused"); return; } const d = made === 0x314 && t === 4; S.assert(ok && eq(tree("/w/out"), d ? asDir : plain), "an entry is unpacked as another kind than its header says"); return; }
    if (!ok) { S.cover("refused"); return; }
    const t = tree("/w/out"), got = Object.values(t).filter((x) => x !== "/"); S.assert(got.filter((x) => x === texts[0]).length + got.filter((x) => x === texts[1]).length === got.length && got.length >= 1, "a file other than those packed is unpacked"); S.cover("kept");
  } },
  damage: { covers: ["whole", "refused"], async run(S) {
    setting(); const deflated = S.flag("deflated"), list = [entry("a", "hihihihihi".slice(0, deflated ? 10 : 3), deflated), entry("b", "yo", false)], { bytes } = archive(list);
    if (S.flag("cut")) { const n = S.upto("n", bytes.length), more = S.flag("more"); give(S, more ? [...bytes, ...bytes.slice(0, n)] : bytes.slice(0, n)); const ok = await run(S); untouched(S); const whole = more ? n === 0 || n === bytes.length : n === bytes.length; if (!whole) { S.assert(!ok, "a cut archive is unpacked"); S.cover("refused"); } else if (!more || n === 0) { S.assert(ok && eq(tree("/w/out"), { a: list[0].text, b: "yo" }), "a sound archive is refused"); S.cover("whole"); } return; }
    const k = S.upto("at", list[0].data.length - 1), v = S.conc(S.int("value", 0, 255)), old = bytes[31 + k]; bytes[31 + k] = v; give(S, bytes); const ok = await run(S); untouched(S);
    if (v === old) { S.assert(ok && eq(tree("/w/out"), { a: list[0].text, b: "yo" }), "a sound archive is refused"); S.cover("whole"); } else if (ok) S.assert(deflated && eq(tree("/w/out"), { a: list[0].text, b: "yo" }), "damaged content is unpacked"); else { S.cover("refused"); S.assert(!fs.existsSync("/w/out/a"), "damaged content is left behind"); }
  } },
  places: { covers: ["kept", "refused", "failed"], async run(S) {
    setting(); const at = S.pick("at", ["new", "folder", "deep", "file", "link", "dangling"]), dest = at === "deep" ? "/w/out/x/y" : "/w/out";
    if (at === "folder") { fs.mkdirSync("/w/out"); fs.writeFileSync("/w/out/mine", "m"); } else if (at === "file") fs.writeFileSync("/w/out", "m"); else if (at === "link") fs.symlinkSync("/other", "/w/out"); else if (at === "dangling") fs.symlinkSync("/other/new", "/w/out");
    let d = "none", f = "none"; if (at === "folder") { d = S.pick("d", ["none", "folder", "file", "link", "inner", "dangling"]); const q = "/w/out/d"; if (d === "folder") fs.mkdirSync(q); else if (d === "file") fs.writeFileSync(q, "m"); else if (d === "link") fs.symlinkSync("/other", q); else if (d === "inner") { fs.mkdirSync("/w/out/e"); fs.symlinkSync("/w/out/e", q); } else if (d === "dangling") fs.symlinkSync("/other/new", q);
      if (d === "folder") { f = S.pick("f", ["none", "file", "folder", "link", "dangling"]); const t = q + "/f"; if (f === "file") fs.writeFileSync(t, "m"); else if (f === "folder") fs.mkdirSync(t); else if (f === "link") fs.symlinkSync("/w/secret", t); else if (f === "dangling") fs.symlinkSync("/other/new", t); } }
    const asDir = S.flag("asDir"), source = S.pick("source", ["file", "link", "folder", "missing"]), before = fs.existsSync("/w/out") && at === "folder" ? tree("/w/out") : {};
    give(S, archive(asDir ? [entry("d/f/", "", false)] : [entry("d/f", "hi", false)]).bytes); if (source !== "file") { fs.unlinkSync("/w/a.zip"); if (source === "link") { fs.writeFileSync("/w/secret2", "x"); S.fs.S.bytes.set("/w/secret2", S.fs.S.bytes.get("/w/a.zip")); fs.symlinkSync("/w/secret2", "/w/a.zip"); } else if (source === "folder") fs.mkdirSync("/w/a.zip"); }
    const fault = source === "file" && S.flag("fault"); let hit = false; if (fault) S.fs.S.hook = (op, p) => { if ((op === "write" || op === "mkdir") && !hit && String(p).startsWith("/w/out")) { hit = true; const e = new Error("EIO: i/o error"); e.code = "EIO"; throw e; } };
    const ok = await run(S, dest); S.fs.S.hook = undefined; S.assert(fs.readFileSync("/w/secret", "utf8") === "s" && eq(tree("/other"), { f: "o" }), "something outside the destination was changed");
    const good = source === "file" && (at === "new" || at === "deep" || (at === "folder" && (d === "none" || (d === "folder" && (f === "none" || (asDir && f === "folder")))))) && !hit;
    S.assert(ok === good, good ? "a sound archive is refused" : hit ? "a failed write is not reported" : "an entry is unpacked over or through what is there"); S.cover(hit ? "failed" : good ? "kept" : "refused");
    if (at === "folder") { const after = tree("/w/out"); for (const k of Object.keys(before)) S.assert(after[k] === before[k], "what was there already was changed"); if (good) S.assert(after["d"] === "/" && after["d/f"] === (asDir ? "/" : "hi"), "the entry is not unpacked"); } else if (good) { const t = tree(dest); S.assert(eq(t, { d: "/", "d/f": asDir ? "/" : "hi" }), "the files unpacked are not those of the archive"); } else if (at === "file") S.assert(fs.readFileSync("/w/out", "utf8") === "m", "what was there already was changed");
  } },
};
