// Path scope containment: what the scope check admits is where the file system really puts the bytes.
import { S } from "symex";
import path from "node:path";
import fs from "node:fs";
import { checkPathScope, isPathWithinScope, pathScopesOverlap } from "@repo/packages/coding-agent/src/core/autonomy/path-scope.ts";
import { isPathWithinEnvelope } from "@repo/packages/coding-agent/src/core/autonomy/envelope-enforcement.ts";

export const meta = {
  bounds: ["file tree with the workspace /p, its subdirectories /p/s and /p/d, an outside directory /o, a sibling /pp whose name extends the workspace's, and one or two symbolic links inside the workspace whose targets are symbolic (absolute or relative, up to 4 characters, dangling or not)", "requested path: every string of up to 5 (thorough 6) characters over the path alphabet '/.psdlox' ", "scope with and without allowed and denied sub-paths"],
  outside: ["Windows path syntax", "links replaced between the check and the access", "file systems that are case-insensitive"],
  assumptions: ["node:fs is replaced by an in-memory POSIX tree model with symbolic links; node:path by a POSIX model; both are cross-checked against the native replay of every path"],
};
// physical locations that hold the marker
function where(mark) {
  const out = [];
  const go = (d) => { for (const n of fs.readdirSync(d)) { const p = d === "/" ? "/" + n : d + "/" + n; const st = fs.lstatSync(p); if (st.isSymbolicLink()) continue; if (st.isDirectory()) go(p); else if (fs.readFileSync(p, "utf8") === mark) out.push(p); } };
  go("/");
  return out;
}
const under = (p, root) => p === root || p.startsWith(root + "/");
function tree(S, two) {
  for (const d of ["/p/s", "/p/d", "/o", "/pp"]) fs.mkdirSync(d, { recursive: true });
  fs.symlinkSync(two && S.flag("deep") ? S.pick("far", ["../q", "../p/q", "../../q", "s/../q"]) : S.str("link1", { min: 1, max: two ? 2 : 3, of: "/.pdo" }), "/p/l");
  if (two) fs.symlinkSync(S.str("link2", { min: 1, max: 3, of: "/.dol" }), "/p/s/l");
}
function decide(S, raw, verdict, scope) {
  const target = path.resolve("/p", raw);
  const w = S.try(() => fs.writeFileSync(target, "MARK"));
  if (!w.ok) { S.cover("not writable"); return; }
  const at = where("MARK");
  S.assert(at.length === 1, "model: the marker is in one place");
  const p = at[0];
  const denied = (scope.deniedPaths ?? []).some((d) => under(p, d));
  const allowed = (scope.allowedPaths ?? ["/p"]).some((a) => under(p, a));
  const inside = under(p, "/p") && allowed && !denied;
  S.note([p, verdict]);
  if (verdict) { S.cover("admitted"); S.assert(inside, "an admitted path was written outside the scope"); }
  else { S.cover("refused"); const lex = under(target, "/p") && (scope.allowedPaths ?? ["/p"]).some((a) => under(target, a)); S.assert(!(inside && lex), "a path inside the scope was refused"); }
}
const SC = [{ root: "/p" }, { root: "/p", deniedPaths: ["/p/d"] }, { root: "/p", allowedPaths: ["/p/s", "/p/d"], deniedPaths: ["/p/d"] }];
export const cases = {
  scope: { covers: ["admitted", "refused"], run(S) {
    tree(S, false);
    const scope = S.pick("scope", SC);
    const raw = S.str("path", { min: 1, max: S.thorough ? 5 : 4, of: "/.psdlox" });
    const r = checkPathScope(scope, path.resolve("/p", raw));
    decide(S, raw, r.kind === "inside", scope);
  } },
  envelope: { covers: ["admitted", "refused"], run(S) {
    tree(S, false);
    const e = S.pick("env", [{ allowedPaths: ["/p"] }, { allowedPaths: ["."], deniedPaths: ["d"] }, { allowedPaths: ["/p/s"], deniedPaths: ["/p/d"] }]);
    const raw = S.str("path", { min: 1, max: S.thorough ? 5 : 4, of: "/.psdlox" });
    const ok = isPathWithinEnvelope({ id: "e", capabilities: [], ...e }, raw, "/p");
    decide(S, raw, ok, { allowedPaths: e.allowedPaths.map((x) => path.resolve("/p", x)), deniedPaths: (e.deniedPaths ?? []).map((x) => path.resolve("/p", x)) });
  } },
  chain: { covers: ["admitted", "refused"], run(S) {
    tree(S, true);
    const scope = { root: "/p", deniedPaths: ["/p/d"] };
    const raw = S.pick("path", ["l", "s/l", "l/x", "s/l/x", "l/s/l", "s/l/l", "s/../l/x"]);
    const r = checkPathScope(scope, path.resolve("/p", raw));
    decide(S, raw, r.kind === "inside", scope);
  } },
  lexical: { covers: ["in", "out"], run(S) {
    const a = "/" + S.str("a", { min: 0, max: 4, of: "/.aA" }), b = "/" + S.str("b", { min: 0, max: S.thorough ? 4 : 3, of: "/.aA" });
    const norm = (p) => { const o = []; for (const s of p.split("/")) { if (s === "" || s === ".") continue; if (s === "..") o.pop(); else o.push(s); } return o; };
    S.assume(!a.startsWith("//") && !b.startsWith("//"));
    const na = norm(a), nb = norm(b);
    const inn = nb.length <= na.length && nb.every((s, i) => s === na[i]);
    const rev = na.length <= nb.length && na.every((s, i) => s === nb[i]);
    const got = isPathWithinScope(a, b);
    S.cover(inn ? "in" : "out");
    S.assert(got === inn, "lexical containment is component-wise prefix");
    S.assert(pathScopesOverlap(a, b) === (inn || rev), "overlap is containment one way or the other");
  } },
};
