// Mutation campaign: node tools/mutate.mjs TREE PROP COUNT SEED  — TREE is a scratch copy of /repo. Prints killed/survived/noanswer per mutant.
import { createRequire } from "node:module"; import fs from "node:fs"; import { spawn } from "node:child_process"; import path from "node:path"; import crypto from "node:crypto";
const ts = createRequire("/opt/veriftools/node/node_modules/x.js")("typescript");
const [tree, prop, count, seed] = process.argv.slice(2);
const files = (process.env.FILES?.split(",")) ?? fs.readFileSync((process.env.VER ?? "/verif") + "/properties.jsonl", "utf8").trim().split("\n").map((l) => JSON.parse(l)).find((p) => p.id === prop).anchors.files;
const uniq = [...new Set(files)].filter((f) => f.endsWith(".ts"));
let rs = crypto.createHash("sha256").update(prop + seed).digest().readUInt32BE();
const rnd = () => { rs ^= rs << 13; rs >>>= 0; rs ^= rs >>> 17; rs ^= rs << 5; rs >>>= 0; return rs / 4294967296; };
const muts = [];
for (const f of uniq) {
  const src = fs.readFileSync(path.join(process.env.BASE ?? "/repo", f), "utf8");
  const sf = ts.createSourceFile(f, src, ts.ScriptTarget.Latest, true);
  const K = ts.SyntaxKind;
  const SW = new Map([[K.LessThanToken, "<="], [K.LessThanEqualsToken, "<"], [K.GreaterThanToken, ">="], [K.GreaterThanEqualsToken, ">"], [K.EqualsEqualsEqualsToken, "!=="], [K.ExclamationEqualsEqualsToken, "==="], [K.AmpersandAmpersandToken, "||"], [K.BarBarToken, "&&"], [K.MinusToken, "+"]]);
  const add = (a, b, t, d) => muts.push({ f, a, b, t, d, line: sf.getLineAndCharacterOfPosition(a).line + 1 });
  const visit = (n, inFn) => {
    if (ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n)) return;
    const fn = inFn || ts.isFunctionLike(n);
    if (fn) {
      if (ts.isBinaryExpression(n) && SW.has(n.operatorToken.kind)) add(n.operatorToken.getStart(), n.operatorToken.end, SW.get(n.operatorToken.kind), "op");
      if (ts.isIfStatement(n)) { add(n.expression.getStart(), n.expression.end, "false", "if-false"); add(n.expression.getStart(), n.expression.end, "true", "if-true"); }
      if (ts.isExpressionStatement(n) && !/^(super|console|this\.\w+ = )/.test(n.getText())) add(n.getStart(), n.end, ";", "drop");
      if (ts.isExpressionStatement(n) && /^this\.\w+ = /.test(n.getText()) && !ts.isConstructorDeclaration(n.parent.parent)) add(n.getStart(), n.end, ";", "drop");
      if ((ts.isContinueStatement(n) || ts.isBreakStatement(n)) && n.parent.kind !== K.CaseClause && n.parent.kind !== K.DefaultClause) add(n.getStart(), n.end, ";", "drop");
      if (ts.isNumericLiteral(n)) add(n.getStart(), n.end, String(Number(n.text.replace(/_/g, "")) + 1), "num+1");
      if (ts.isConditionalExpression(n)) { add(n.condition.getStart(), n.condition.end, "true", "cond-true"); add(n.condition.getStart(), n.condition.end, "false", "cond-false"); }
      if (ts.isSpreadAssignment(n)) add(n.getStart(), n.end, "", "drop-spread");
      if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ["trim", "sort", "reverse", "toLowerCase", "slice", "filter"].includes(n.expression.name.text) && n.arguments.length <= 1) add(n.expression.expression.end, n.end, "", "drop-call");
      if (ts.isReturnStatement(n) && n.expression && (n.expression.kind === K.TrueKeyword || n.expression.kind === K.FalseKeyword)) add(n.expression.getStart(), n.expression.end, n.expression.kind === K.TrueKeyword ? "false" : "true", "flip");
    }
    ts.forEachChild(n, (c) => visit(c, fn));
  };
  visit(sf, false);
}
const run = () => new Promise((res) => {
  const p = spawn("node", ["symex/run.mjs", prop, "--jobs", process.env.JOBS ?? "4", "--deadline", "200"], { cwd: process.env.VER ?? "/verif", env: { ...process.env, VERIF_REPO: tree }, detached: true });
  let out = "", t = setTimeout(() => kill("timeout"), 240000), done = false;
  const kill = (v) => { if (done) return; done = true; clearTimeout(t); try { process.kill(-p.pid, "SIGKILL"); } catch {} res([v, out]); };
  p.stdout.on("data", (d) => { out += d; if (out.includes("VIOLATION property")) kill("killed"); });
  p.stderr.on("data", (d) => { out += d; });
  p.on("close", (c) => kill(c === 0 ? "SURVIVED" : c === 1 ? "killed" : "NOANSWER"));
});
let n = 0;
const seen = new Set(); const tally = {};
while (n < Number(count) && seen.size < muts.length) {
  const m = muts[Math.floor(rnd() * muts.length)];
  const key = m.f + m.a + m.t; if (seen.has(key)) continue; seen.add(key);
  const src = fs.readFileSync(path.join(process.env.BASE ?? "/repo", m.f), "utf8");
  const mod = src.slice(0, m.a) + m.t + src.slice(m.b);
  fs.writeFileSync(path.join(tree, m.f), mod);
  const t0 = Date.now();
  const [v, out] = await run();
  fs.writeFileSync(path.join(tree, m.f), src);
  tally[v] = (tally[v] ?? 0) + 1;
  console.log(`${v} ${prop} ${m.f.split("/").pop()}:${m.line} ${m.d} ${Math.round((Date.now() - t0) / 1000)}s | ${src.slice(src.lastIndexOf("\n", m.a) + 1, src.indexOf("\n", m.a)).trim().slice(0, 130)} => [${src.slice(m.a, m.b).replace(/\s+/g, " ").slice(0, 50)}]${v === "NOANSWER" ? " :: " + out.split("\n").filter((l) => /INCOMPLETE|VACUOUS|Error/.test(l)).join(" ").slice(0, 200) : ""}`);
  n++;
}
console.log("TALLY", prop, JSON.stringify(tally), "of", muts.length);
