// Tool arguments: what runs is what the model sent, or a repaired shape of it with every value kept and named, or nothing.
import { S } from "symex";
import { validateToolArguments } from "@repo/packages/ai/src/utils/validation.ts";

export const meta = {
  bounds: ["objects of a required string, a list of objects and one or two further fields of each kind a tool declares (number, integer, boolean, choice, list of strings, list of numbers, object), declared closed or open", "each field given as the right value or as any of 18 other shapes around symbolic text of up to 1 (thorough 2) characters; two fields wrong at a time; keys spelled in other case, with underscores or by an alias", "shell commands as lists of up to 3 words of up to 2 (thorough 3) characters or as wrapped objects", "malformed argument text: text of up to 3 (thorough 4) characters whose quotes are not escaped, a missing comma, extra words, an inner object, cut-off numbers, typographic quotes"],
  outside: ["malformed text in which a stray quote is followed by what reads as another field", "schemas with alternatives at the top", "numbers beyond double precision"],
  assumptions: [],
};
const str = { type: "string" };
const FIELDS = { n: { type: "number" }, i: { type: "integer", minimum: 1 }, b: { type: "boolean" }, e: { type: "string", enum: ["Fast Run", "slow"] }, ss: { type: "array", items: str }, ns: { type: "array", items: { type: "number" } }, o: { type: "object", properties: { oldText: str, k: { type: "number" } }, required: ["oldText"] }, edits: { type: "array", items: { type: "object", properties: { oldText: str, newText: str }, required: ["oldText", "newText"], additionalProperties: false } } };
const ALIAS = [["newText", "replacementContent", "new_text"], ["oldText", "targetText", "old_text"], ["path", "file_path", "filename"], ["edits", "changes"]];
const keyName = (k) => { for (const g of ALIAS) if (g.includes(k)) return g[0].toLowerCase(); return k.toLowerCase().replaceAll("_", ""); };
const kind = (p) => ({ n: "number", i: "number", k: "number", b: "bool", e: "enum", ns: "number" })[p.split(".").at(-1)];
// every value with the field it belongs to, whatever the wrapping
function values(x, path, out) {
  if (x === null || x === undefined) return out;
  if (Array.isArray(x)) { for (const y of x) values(y, path, out); return out; }
  if (typeof x === "object") { for (const k of Object.keys(x)) values(x[k], path ? path + "." + keyName(k) : keyName(k), out); return out; }
  const f = path.split(".")[0];
  if (typeof x === "string" && /^\s*[[{]/.test(x) && (path === "" || ["ss", "ns", "o", "edits"].includes(path))) { try { return values(JSON.parse(x), path, out); } catch { /* not JSON */ } }
  const k = kind(path);
  if (k === "number" && typeof x === "string" && x.trim() !== "" && Number.isFinite(Number(x))) x = Number(x);
  if (k === "bool" && typeof x === "string" && /^\s*(true|false)\s*$/i.test(x)) x = x.trim().toLowerCase() === "true";
  if (k === "enum" && typeof x === "string") x = x.trim().replace(/\s+/g, " ").toLowerCase();
  void f; out.push(path + "=" + typeof x + ":" + String(x)); return out;
}
const bag = (x) => values(x, "", []).sort().join("\u0001");
const valid = (t, v) => t.type === "string" ? typeof v === "string" && (!t.enum || t.enum.includes(v)) : t.type === "number" ? typeof v === "number" : t.type === "integer" ? Number.isInteger(v) && v >= (t.minimum ?? v) : t.type === "boolean" ? typeof v === "boolean" : t.type === "array" ? Array.isArray(v) && v.every((y) => valid(t.items, y)) : typeof v === "object" && v !== null && !Array.isArray(v) && (t.required ?? []).every((k) => k in v) && Object.keys(v).every((k) => (t.properties[k] ? valid(t.properties[k], v[k]) : t.additionalProperties !== false));
function decide(S, name, parameters, args, disabled) {
  const before = JSON.stringify(args), call = { type: "toolCall", id: "c", name, arguments: args }; let event;
  const r = S.try(() => validateToolArguments({ name, description: "", parameters }, call, { telemetry: (e) => { event = e; throw new Error("sink"); }, repairEnabled: !disabled }));
  S.assert(JSON.stringify(args) === before && call.arguments === args, "what the model sent was changed in place");
  if (valid(parameters, args)) { S.cover("clean"); S.assert(r.ok && r.value === args && !call.repairNotes && !event, "valid arguments are not passed on as they are"); return undefined; }
  if (!r.ok) { S.cover("refused"); S.assert(r.error.name === "ToolArgumentValidationError" && r.error.message.includes(name), "a refusal is not a validation error"); S.assert(!call.repairNotes && event && event.outcome === "bounced", "a refused call is reported as repaired"); return undefined; }
  S.cover("repaired"); S.assert(!disabled, "a repair although it is switched off"); S.assert(valid(parameters, r.value), "arguments that do not fit the declaration are passed on");
  S.assert(call.repairNotes && call.repairNotes.length > 0 && event && event.outcome === "repaired", "a repair is not reported");
  const again = S.try(() => validateToolArguments({ name, description: "", parameters }, { type: "toolCall", id: "d", name, arguments: r.value })); S.assert(again.ok && again.value === r.value, "repaired arguments are not accepted as they are");
  return { value: r.value, notes: call.repairNotes };
}
const SHAPES = ["text", "number text", "blank number", "number", "true", "True text", "null", "{}", "[]", "[text]", "[number text]", "[text,text]", "[null,text]", "{oldText}", "{old_text,newText}", "json list", "json object", "enum", "list of objects"];
function shape(S, nm, sent) {
  const k = sent.kind = S.pick(nm, SHAPES), t = () => S.conc(S.str(nm + ".t", { max: S.thorough ? 2 : 1, of: "1 a\"" })), d = () => S.pick(nm + ".d", ["3", " 4.5 ", "1e2", "0x10", "-0"]);
  switch (k) {
    case "text": return t(); case "number text": return d(); case "blank number": return " "; case "number": return S.pick(nm + ".v", [2, 0, 1.5]); case "true": return true; case "True text": return " False"; case "null": return null; case "{}": return {}; case "[]": return [];
    case "[text]": return [t()]; case "[number text]": return [d(), "7"]; case "[text,text]": return [t(), "z"]; case "[null,text]": return [null, t(), null, {}]; case "{oldText}": return { oldText: t() }; case "{old_text,newText}": return { old_text: t(), NewText: "y" };
    case "json list": return JSON.stringify([t()]) + S.pick(nm + ".j", ["", " ", "x"]); case "json object": return JSON.stringify({ oldText: t(), newText: "q", Old_Text: "z" }); case "enum": return S.pick(nm + ".e", ["fast  run", "SLOW ", "medium"]); default: return [{ oldText: t(), newText: "n" }, { targetText: "a", replacementContent: "b" }];
  }
}
export const cases = {
  fields: { covers: ["clean", "refused", "repaired", "named"], run(S) {
    const names = Object.keys(FIELDS), a = S.upto("a", names.length - 1), b = S.pick("b", [0, 4, 7]); if (a === b) return;
    const also = S.pick("also", ["nothing", "required", "closed", "Path", "file_path", "extra", "disabled"]), parameters = { type: "object", properties: { path: str, [names[a]]: FIELDS[names[a]], [names[b]]: FIELDS[names[b]] }, required: also === "required" ? ["path", names[a]] : ["path"], additionalProperties: also !== "closed" };
    const sent = {}; sent.value = shape(S, "x", sent);
    const args = { [["Path", "file_path", "extra"].includes(also) ? also : "path"]: "p", [names[a]]: sent.value };
    const second = also === "nothing" || also === "closed" ? S.pick("second", ["none", "good", "null", "number text"]) : "none"; if (second !== "none") args[names[b]] = second === "null" ? null : second === "number text" ? "5" : b === 0 ? 9 : b === 4 ? ["u"] : [{ oldText: "1", newText: "2" }];
    const r = decide(S, "tool", parameters, args, also === "disabled");
    const clear = { n: ["number text", "null", "{}"], b: ["True text", "null", "{}"], ss: ["null", "text"], ns: ["null", "number", "[number text]"], edits: ["null", "{old_text,newText}"] }[names[a]];
    if (!r && also === "nothing" && second === "none" && clear && clear.includes(sent.kind) && !valid(parameters, args)) S.fail("arguments with only one reading are refused");
    if (!r) return;
    S.assert(bag(r.value) === bag(args), "a repair changed, lost, added or moved a value");
    for (const k of Object.keys(r.value)) if (JSON.stringify(r.value[k]) !== JSON.stringify(args[k])) { S.cover("named"); S.assert(r.notes.some((n) => n.includes("`" + k) || n.includes("bash")), "a changed field is not named"); }
    for (const k of Object.keys(args)) if (!(k in r.value) && (args[k] === null || JSON.stringify(args[k]) === "{}")) S.assert(!(parameters.required.includes(k)), "a required field was dropped");
  } },
  shell: { covers: ["joined", "unwrapped", "refused"], run(S) {
    const name = S.pick("name", ["bash", "powershell"]), parameters = { type: "object", properties: { command: str, timeout: { type: "number" } }, required: ["command"] };
    const how = S.pick("how", ["words", "cmd", "command", "two keys"]), w = (k) => S.conc(S.str("w" + k, { max: S.thorough ? 3 : 2, of: "a -'$;" }));
    if (how === "words") {
      const n = S.pick("n", [1, 2, 3]), words = [n === 3 ? "ls" : w(0)]; if (n > 1) words.push(w(1)); if (n > 2) words.push(w(2));
      const r = decide(S, name, parameters, { command: words, timeout: "3" }, false); if (!r) return; S.cover("joined");
      if (n === 1) S.assert(r.value.command === words[0], "a wrapped command was changed");
      else S.assert(r.value.command.split(" ").length === n && words.every((x, i) => x === r.value.command.split(" ")[i] && /^[^'$;]+$/.test(x)), "words joined to a command the shell splits or reads in another way");
    } else {
      const c = w(0), args = { command: how === "two keys" ? { cmd: c, cwd: "/x" } : { [how === "cmd" ? "cmd" : "command"]: c } }, r = decide(S, name, parameters, args, false);
      if (r) { S.cover("unwrapped"); S.assert(how !== "two keys" && r.value.command === c, "a wrapped command was changed"); }
    }
  } },
  malformed: { covers: ["quotes", "repaired", "refused"], run(S) {
    const parameters = { type: "object", properties: { path: str, content: str, limit: { type: "number" } }, required: S.flag("all") ? ["path", "content"] : [] };
    const c = S.conc(S.str("c", { max: S.thorough ? 4 : 3, of: "\"a,:} " })), want = { path: "p q", content: c, limit: 12 };
    S.assume(!/"\s*,?\s*("a+"|a+)\s*:/.test(c + "\"") && !/"\s*,?\s*\}\s*$/.test(c)); if (c.includes("\"")) S.cover("quotes");
    const esc = S.flag("escaped"), q = esc ? JSON.stringify(c) : "\"" + c + "\"", how = S.pick("how", ["plain", "no comma", "extra", "inner", "number", "curly", "cut"]), order = S.flag("content first");
    const p = how === "curly" ? "“path”:“p q”" : "\"path\":\"p q\"", k = "\"content\":" + q, sep = how === "no comma" ? " " : ","; let t = order ? k + sep + p : p + sep + k;
    if (how === "extra") t += " extra:1000"; if (how === "inner") t += ",\"meta\":{\"path\":\"other\",\"limit\":5} x:1"; if (how === "number") t += ",\"limit\":12ab";
    const text = how === "cut" ? "{" + t : "{" + t + "}";
    const r = decide(S, "write", parameters, text, false); if (!r) return;
    for (const key of Object.keys(r.value)) if (key in want) S.assert(how === "inner" && key === "limit" ? false : r.value[key] === want[key] && (how !== "number" || key !== "limit"), "a part of a value is passed on as the whole");
  } },
};
