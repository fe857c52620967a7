// Module loader: loads repository sources (and harnesses) either instrumented ("sym") or as they are ("conc").
import { createHash } from "node:crypto";
import fs from "node:fs";
import { createRequire, builtinModules } from "node:module";
import os from "node:os";
import path from "node:path";
import vm from "node:vm";
import { fileURLToPath } from "node:url";
import { ts, toCommonJs, instrument, INSTRUMENT_VERSION } from "./instrument.mjs";

const HERE = path.dirname(fileURLToPath(import.meta.url));
export const VERIF = path.dirname(HERE);
export const REPO = process.env.VERIF_REPO ?? "/repo";
const CACHE = path.join(os.tmpdir(), `verif-symex-${process.getuid?.() ?? 0}`);
const nodeRequire = createRequire(path.join(REPO, "packages/coding-agent/package.json"));
const BUILTINS = new Set(builtinModules);
// small pure packages executed from their source, so that their results stay symbolic
const SOURCED = new Map([["get-east-asian-width", "get-east-asian-width/index.js"]]);
const PKGS = { "@caupulican/pi-agent-core": "agent", "@caupulican/pi-ai": "ai", "@caupulican/pi-tui": "tui", "@caupulican/pi-adaptative": "coding-agent", "@earendil-works/pi-ai": "ai" };
const sha = (s) => createHash("sha256").update(s).digest("hex");
const instSelf = sha(fs.readFileSync(path.join(HERE, "instrument.mjs")) + INSTRUMENT_VERSION).slice(0, 12);

export class Loader {
  // opts: mode "sym"|"conc", globals {name: value} injected, rt ($), stubs: Map(spec -> module factory)
  constructor(opts) {
    this.mode = opts.mode;
    this.globals = opts.globals;
    this.rt = opts.rt;
    this.builtin = opts.builtin; // (name) => module or undefined
    this.external = opts.external; // (name, nativeModule) => module
    this.guardEval = opts.guardEval ?? ((f) => f());
    this.compiled = new Map();
    this.cache = new Map();
    this.persist = new Map();
    this.stubs = {};
    this.usedFiles = new Set();
  }
  reset() { this.cache = new Map(); }

  resolve(spec, from) {
    if (spec === "symex") return { kind: "api" };
    if (spec.startsWith("node:")) return { kind: "builtin", name: spec.slice(5) };
    if (BUILTINS.has(spec)) return { kind: "builtin", name: spec };
    if (spec.startsWith("@repo/")) return { kind: "file", file: this.fileOf(path.join(REPO, spec.slice(6))) };
    if (spec.startsWith(".") || spec.startsWith("/")) return { kind: "file", file: this.fileOf(path.resolve(path.dirname(from), spec)) };
    for (const [n, d] of Object.entries(PKGS)) {
      if (spec === n || spec.startsWith(n + "/")) {
        const root = path.join(REPO, "packages", d);
        const sub = "." + spec.slice(n.length);
        const pj = JSON.parse(fs.readFileSync(path.join(root, "package.json"), "utf8"));
        const ex = pj.exports?.[sub] ?? matchExport(pj.exports, sub);
        const t = ex?.["pi-source"] ?? ex?.source;
        if (t) return { kind: "file", file: this.fileOf(path.join(root, t)) };
        const any = typeof ex === "string" ? ex : ex?.import ?? ex?.default;
        if (any) return { kind: "file", file: this.fileOf(path.join(root, any.replace(/^\.\/dist\//, "src/").replace(/\.js$/, ".ts"))) };
        throw new Error(`cannot resolve ${spec}`);
      }
    }
    // TypeBox's checker is executed from its source too, so that schema checks stay symbolic
    if (this.mode === "sym" && this.typeboxSource && spec === "typebox/value") return { kind: "file", persist: true, file: path.join(REPO, "node_modules/typebox/build/value/index.mjs") };
    if (this.mode === "sym" && SOURCED.has(spec)) return { kind: "file", persist: true, file: path.join(REPO, "node_modules", SOURCED.get(spec)) };
    return { kind: "external", name: spec };
  }
  fileOf(p) {
    const c = [p];
    if (p.endsWith(".js")) c.push(p.slice(0, -3) + ".ts", p.slice(0, -3) + ".tsx");
    c.push(p + ".ts", path.join(p, "index.ts"));
    for (const x of c) if (fs.existsSync(x) && fs.statSync(x).isFile()) return x;
    throw new Error(`module file not found: ${p}`);
  }

  // names of the runtime exports of a source file (types may be included: harmless, they read as undefined)
  exportNames(file, seen = new Set()) {
    const memo = (this.names ??= new Map());
    if (memo.has(file)) return memo.get(file);
    if (seen.has(file)) return [];
    seen.add(file);
    const src = fs.readFileSync(file, "utf8");
    const key = sha("names|" + src);
    const cf = path.join(CACHE, key.slice(0, 2), key + ".names.json");
    let rec;
    try { rec = JSON.parse(fs.readFileSync(cf, "utf8")); } catch {}
    if (!rec) {
      rec = exportRecord(src, file);
      try { fs.mkdirSync(path.dirname(cf), { recursive: true }); fs.writeFileSync(cf + "." + process.pid, JSON.stringify(rec)); fs.renameSync(cf + "." + process.pid, cf); } catch {}
    }
    const out = new Set(rec.names);
    for (const st of rec.stars) { const r = this.resolve(st, file); if (r.kind === "file") for (const n of this.exportNames(r.file, seen)) out.add(n); }
    const l = [...out];
    memo.set(file, l);
    return l;
  }

  compile(file) {
    let c = this.compiled.get(file);
    if (c) return c;
    const src = fs.readFileSync(file, "utf8");
    const label = path.relative(REPO, file).startsWith("..") ? path.relative(VERIF, file) : path.relative(REPO, file);
    const key = sha(`${this.mode}|${instSelf}|${label}|${src}`);
    const cf = path.join(CACHE, key.slice(0, 2), key + ".json");
    let out;
    try { out = JSON.parse(fs.readFileSync(cf, "utf8")); } catch {}
    if (!out) {
      const js = /\.cjs$|models_[a-z]+\.js$|prelude\.js$/.test(file) ? src : toCommonJs(src, file);
      out = this.mode === "sym" ? instrument(js, label) : { code: js, fnNames: [] };
      try {
        fs.mkdirSync(path.dirname(cf), { recursive: true });
        const tmp = cf + "." + process.pid;
        fs.writeFileSync(tmp, JSON.stringify(out));
        fs.renameSync(tmp, cf);
      } catch {}
    }
    // `import.meta` in CommonJS output
    let code = out.code.replace(/\bimport\.meta\b/g, "__importMeta").replace(/\bimport\((?=["'`a-zA-Z_(])/g, "__dynImport(");
    const gnames = Object.keys(this.globals);
    const params = ["$", "$fn", "__importMeta", "__dynImport", ...gnames];
    const body = `return function(exports, require, module${/\.ts$/.test(file) ? "" : ", __filename, __dirname"}) {${code}\n};`;
    const make = vm.compileFunction(body, params, { filename: file });
    const ids = this.mode === "sym" ? out.fnNames.map((n) => this.rt.regFn(`${label}#${n}`)) : [];
    c = { make, ids, label, file };
    this.compiled.set(file, c);
    return c;
  }

  load(file, persist = false) {
    const st = persist ? this.persist : this.cache;
    const hit = st.get(file) ?? this.persist.get(file);
    if (hit) return hit.exports;
    const c = this.compile(file);
    this.usedFiles.add(c.label);
    const module = { exports: {} };
    st.set(file, module);
    const req = (spec) => this.require(spec, file);
    const dyn = async (spec) => { await null; return this.forceRequire(spec, file); };
    const fn = c.make(this.rt, c.ids, { url: "file://" + file, dirname: path.dirname(file), filename: file }, dyn, ...Object.values(this.globals));
    const helpers = {
      __importDefault: (m) => (m && m[LAZY] ? lazyDefault(m) : m && m.__esModule ? m : { default: m }),
      __importStar: (m) => m,
      __exportStar: (m, ex) => {
        if (m && m[LAZY]) { for (const k of this.exportNames(m[LAZYFILE])) if (k !== "default" && !Object.hasOwn(ex, k)) Object.defineProperty(ex, k, { enumerable: true, configurable: true, get: () => m[k] }); return; }
        for (const k of Object.keys(m)) if (k !== "default" && !Object.hasOwn(ex, k)) Object.defineProperty(ex, k, { enumerable: true, get: () => m[k] }); },
      __createBinding: (o, m, k, k2) => { k2 = k2 ?? k; Object.defineProperty(o, k2, { enumerable: true, get: () => m[k] }); },
    };
    try {
      this.guardEval(() => fn.call(helpers, module.exports, req, module, file, path.dirname(file)));
    } catch (e) { st.delete(file); throw e; }
    return module.exports;
  }
  forceRequire(spec, from) {
    const r = this.require(spec, from);
    return r && r[LAZY] ? r[LAZY]() : r;
  }
  require(spec, from) {
    const r = this.resolve(spec, from);
    if (r.kind === "api") return this.api;
    const key = r.kind === "file" ? path.relative(REPO, r.file) : r.kind === "builtin" ? "node:" + r.name : r.name;
    if (Object.hasOwn(this.stubs, key)) return this.stubs[key];
    if (r.kind === "builtin") return this.builtin(r.name);
    if (r.kind === "external") return this.external(r.name, () => nodeRequire(r.name));
    if (/\.json$/.test(r.file)) return JSON.parse(fs.readFileSync(r.file, "utf8"));
    const self = this;
    let mod;
    const force = () => mod ?? (mod = self.load(r.file, r.persist || r.file.includes("/node_modules/typebox/")));
    return new Proxy({}, {
      get(_, k) { if (k === LAZY) return force; if (k === LAZYFILE) return r.file; if (k === "__esModule") return true; return force()[k]; },
      has(_, k) { return k in force(); },
      ownKeys() { return Reflect.ownKeys(force()); },
      getOwnPropertyDescriptor(_, k) { const d = Object.getOwnPropertyDescriptor(force(), k); if (d) d.configurable = true; return d; },
    });
  }
}
export const LAZY = Symbol("lazy");
const LAZYFILE = Symbol("lazyfile");
function exportRecord(src, file) {
  const sf = ts.createSourceFile(file, src, ts.ScriptTarget.ES2022, false, ts.ScriptKind.TS);
  const names = [], stars = [];
  const SK = ts.SyntaxKind;
  const binding = (n) => { if (ts.isIdentifier(n)) names.push(n.text); else for (const e of n.elements) if (e.name) binding(e.name); };
  for (const st of sf.statements) {
    if (ts.isExportDeclaration(st)) {
      if (st.isTypeOnly) continue;
      if (!st.exportClause) stars.push(st.moduleSpecifier.text);
      else if (ts.isNamedExports(st.exportClause)) { for (const e of st.exportClause.elements) if (!e.isTypeOnly) names.push(e.name.text); }
      else names.push(st.exportClause.name.text);
      continue;
    }
    if (!st.modifiers?.some((m) => m.kind === SK.ExportKeyword)) continue;
    if (st.modifiers.some((m) => m.kind === SK.DefaultKeyword)) { names.push("default"); continue; }
    if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) binding(d.name);
    else if ((ts.isFunctionDeclaration(st) || ts.isClassDeclaration(st) || ts.isEnumDeclaration(st)) && st.name) names.push(st.name.text);
  }
  return { names, stars };
}
function lazyDefault(m) { return m; }
function matchExport(ex, sub) {
  for (const [k, v] of Object.entries(ex ?? {})) {
    if (!k.includes("*")) continue;
    const [a, b] = k.split("*");
    if (sub.startsWith(a) && sub.endsWith(b)) {
      const star = sub.slice(a.length, sub.length - b.length);
      return JSON.parse(JSON.stringify(v).replaceAll("*", star));
    }
  }
  return undefined;
}
