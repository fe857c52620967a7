// Command risk gate: no quoting arrangement hides a command the shell would run from the approval gate.
import { S } from "symex";
import { assessOperationRisk } from "@repo/packages/coding-agent/src/core/risk-classifier.ts";
import { evaluateToolGate } from "@repo/packages/coding-agent/src/core/autonomy/gates.ts";

export const meta = {
  bounds: ["a dangerous command between a prefix and a suffix that are every string of up to 3 (thorough 4 and 3) characters over quotes, backslash, dollar, hash, blank, newline and a letter, after one of five openings", "local commits: every message argument of up to 4 (thorough 5) characters over the same alphabet with control operators", "41 dangerous commands, bare or after an operator or a harmless command, with single or other blanks between words", "envelopes that grant process execution"],
  outside: ["commands hidden by expansion, eval or another interpreter's arguments", "words split by quotes (r'm')", "Python source beyond string literals and comments"],
  assumptions: ["the check's own lexer states POSIX shell quoting, ANSI-C quoting and comments"],
};
// Returns, per character, whether the shell reads it outside any quoting or comment; null if quoting is unterminated.
function lex(s) {
  const out = []; let i = 0, word = false;
  while (i < s.length) {
    const c = s[i];
    if (c === "\\") { out.push("q"); i++; if (i < s.length) { out.push("q"); i++; } word = true; continue; }
    if (c === "'" || (c === "$" && s[i + 1] === "'")) {
      const ansi = c === "$"; if (ansi) { out.push("q"); i++; }
      out.push("q"); i++;
      while (i < s.length && s[i] !== "'") { if (ansi && s[i] === "\\") { out.push("q"); i++; if (i >= s.length) return null; } out.push("q"); i++; }
      if (i >= s.length) return null;
      out.push("q"); i++; word = true; continue;
    }
    if (c === '"') {
      out.push("q"); i++;
      while (i < s.length && s[i] !== '"') { if (s[i] === "\\") { out.push("q"); i++; if (i >= s.length) return null; out.push("q"); i++; continue; } out.push(s[i] === "`" || (s[i] === "$" && s[i + 1] === "(") ? "x" : "q"); i++; }
      if (i >= s.length) return null;
      out.push("q"); i++; word = true; continue;
    }
    if (c === "#" && !word) { while (i < s.length && s[i] !== "\n") { out.push("c"); i++; } continue; }
    if (c === "$" && s[i + 1] === "$") { out.push("u"); out.push("u"); i += 2; word = true; continue; }
    out.push("u"); i++;
    word = !(c === " " || c === "\n" || c === ";" || c === "&" || c === "|" || c === "<" || c === ">");
  }
  return out;
}
const DANGER = ["rm -rf x", "rm x", "mv a b", "cp a b", "chmod 7 x", "git push", "git reset x", "git clean x", "git rebase x", "git stash", "git -C d push", "git -C d rebase x", "git -C d stash", "git -C d reset x", "git -C d commit --amend", "git commit --amend", "git commit -a --amend", "git commit --amend -m m", "git tag v1", "npm publish", "npm install x", "npm i x", "pnpm up", "yarn remove x", "bun rm x", "npm run y", "npm uninstall x", "yarn update", "dd if=a", "deploy x", "release x", "x > f", "x >> f", "x < f", "x 2>f", "chown a b", "install a b", "cat token", "cat secret", "cat credentials", "cat credential", "cat api_key", "cat api-key", "cat auth", "delete x", "reset"];
const AL = "'\"\\$# \na";
const gate = (toolName, command) => evaluateToolGate({ toolName, args: { command }, cwd: "/p", envelope: { id: "e", capabilities: ["process.exec", "tests.execute"], allowedPaths: ["/p"] } });
export const cases = {
  hidden: { covers: ["runs", "quoted"], run(S) {
    const open = S.pick("open", ["echo ", 'echo "', "git commit -m ", "git commit -m \"it", "x "]);
    const mid = open.startsWith("x") ? ";git push;" : ";rm -rf b;";
    const cmd = open + S.str("pre", { min: 0, max: S.thorough ? 4 : 3, of: AL }) + mid + S.str("post", { min: 0, max: S.thorough ? 3 : 2, of: "'\"\\$#a" });
    const l = lex(cmd);
    if (l === null) { S.cover("unterminated"); return; }
    const at = cmd.indexOf(mid);
    let runs = true; for (let k = 0; k < mid.length; k++) if (l[at + k] !== "u") runs = false;
    const r = assessOperationRisk({ operation: "Tool bash", toolName: "bash", command: cmd });
    S.cover(runs ? "runs" : "quoted");
    if (runs) S.assert(r.requiresApproval && gate("bash", cmd).outcome === "ask-user", "a destructive command the shell would run is not held for approval");
  } },
  commit: { covers: ["plain", "composed"], run(S) {
    const msg = S.str("msg", { min: 1, max: S.thorough ? 5 : 4, of: AL + ";&|`(>" });
    const cmd = "git commit -m " + msg;
    const l = lex(cmd);
    if (l === null) { S.cover("unterminated"); return; }
    let control = false;
    const end = cmd.trimEnd().length;
    for (let i = 0; i < end; i++) { const c = cmd[i]; if (l[i] === "x") control = true; if (l[i] === "u") { if (c === ";" || c === "&" || c === "|" || c === "`" || c === ">" || c === "\n") control = true; if (c === "$" && cmd[i + 1] === "(") control = true; } }
    const r = assessOperationRisk({ operation: "Tool bash", toolName: "bash", command: cmd });
    S.cover(control ? "composed" : "plain");
    if (control) S.assert(r.requiresApproval, "a composed command was accepted as a plain local commit");
  } },
  words: { covers: ["held"], run(S) {
    const d = S.pick("danger", DANGER);
    const gapped = S.flag("gapped");
    const cmd = S.pick("lead", ["", "cd x && ", "a; ", "  ", "echo 'x' | ", "true\n", "(", "a&", "A=1 ", "git commit -m x; ", "git commit -m 'it' && ", "list ", "show x; "]) + (gapped ? d.replaceAll(" ", S.pick("blank", ["  ", "\t"])) : d) + S.pick("tail", ["", " # 'note'", " && echo 'done'", " 'arg'"]);
    S.cover("held");
    S.assert(assessOperationRisk({ operation: "Run shell", command: cmd }).requiresApproval, "a destructive command is not classified as needing approval");
    S.assert(gate(S.thorough ? S.pick("tool", ["bash", "powershell", "shell"]) : gapped ? "bash" : "powershell", cmd).outcome === "ask-user", "a destructive command is not held for approval");
  } },
  quotedData: { covers: ["allowed"], run(S) {
    const cmd = "echo '" + S.str("data", { min: 0, max: S.thorough ? 5 : 4, of: "a b;&|\"#" }) + S.pick("word", ["", "rm -rf x", "git push"]) + "'";
    S.cover("allowed");
    S.assert(!assessOperationRisk({ operation: "Run shell", command: cmd }).requiresApproval, "single-quoted data is treated as a command");
  } },
  python: { covers: ["runs", "quoted"], run(S) {
    const mid = S.pick("call", [";shutil.rmtree(p);", "\nos.remove(p)\n", ";subprocess.run(c);"]);
    const pre = S.str("pre", { min: 0, max: S.thorough ? 4 : 3, of: "'\"\\#a" }), post = S.str("post", { min: 0, max: 2, of: "'\"\\#a" });
    const code = "x=" + pre + mid + post;
    // short strings: track the Python literal state
    let i = 0, st = null, at = code.indexOf(mid), ok = true;
    while (i < code.length) {
      const c = code[i];
      if (i >= at && i < at + mid.length && st !== null) ok = false;
      if (st === "#") { if (c === "\n") st = null; i++; continue; }
      if (st === null) {
        if (c === "#") { st = "#"; i++; continue; }
        if (c === "'" || c === '"') { st = code[i + 1] === c && code[i + 2] === c ? c + c + c : c; i += st.length; continue; }
        i++; continue;
      }
      if (c === "\\") { i += 2; continue; }
      if (st.length === 1 ? c === st : c === st[0] && code[i + 1] === c && code[i + 2] === c) { i += st.length; st = null; continue; }
      if (c === "\n" && st.length === 1) { ok = false; st = null; }
      i++;
    }
    if (st !== null && st !== "#") ok = false;
    const r = gate("python", undefined) && evaluateToolGate({ toolName: "python", args: { code }, cwd: "/p", envelope: { id: "e", capabilities: ["process.exec"], allowedPaths: ["/p"] } });
    S.cover(ok ? "runs" : "quoted");
    if (ok) S.assert(r.outcome === "ask-user", "a destructive Python call that would run is not held for approval");
  } },
};
