// Tool history: what earlier tool results and failures the model is shown, and when an unproductive operation may run again.
import { S } from "symex";
import { Agent } from "@repo/packages/agent/src/agent.ts";
import { AgentToolExecutionError } from "@repo/packages/agent/src/types.ts";
import { createAssistantMessageEventStream } from "@repo/packages/ai/src/utils/event-stream.ts";
import { sanitizeToolFailureContext, createToolFailureResult, rememberToolFailure } from "@repo/packages/agent/src/tool-failure-memory.ts";
import { ToolFailureRecoveryGate } from "@repo/packages/agent/src/tool-failure-recovery-gate.ts";

export const meta = {
  bounds: ["3 (thorough 4) tool calls that repeat, nearly repeat or differ in tool and arguments, 10 kinds of result, in one or several messages", "runs of 4 (thorough 5) calls of two operations, each succeeding, failing, timing out or reporting a negative outcome, with a user message or a resumed session at any point", "one failure followed by 0 to 130 other operations"],
  outside: ["the wording of guidance", "failures only the owner can clear"],
  assumptions: ["the provider is a stub that plays a script"],
};
const usage = () => ({ input: 0, output: 0, cacheRead: 0, cacheWrite: 0, totalTokens: 0, cost: { input: 0, output: 0, cacheRead: 0, cacheWrite: 0, total: 0 } });
const am = (content, stopReason) => ({ role: "assistant", content, api: "a", provider: "p", model: "m", usage: usage(), stopReason, timestamp: 0 });
const call = (id, name, args) => ({ type: "toolCall", id, name, arguments: args });
const LONG = "0123456789".repeat(14), C = (x) => LONG.slice(0, 70) + x + LONG.slice(71);
const SHA = (c) => c.repeat(40);
const ARGS = [{ path: "a" }, { path: "b" }, { rev: SHA("a") }, { rev: SHA("b") }, { path: "a", timeout: 5 }, { id: 1234567890123 }];
// two calls are the same operation when their arguments differ at most in how long to wait
const same = (i, j) => i === j || (i === 0 && j === 4) || (i === 4 && j === 0);
const KINDS = ["short", "longA", "longB", "two", "image", "note", "raw", "record", "directive", "outcome", "none"];
const T = (text) => ({ type: "text", text });
export const cases = {
  context: { covers: ["dropped", "kept", "failed"], run(S) {
    const n = S.thorough ? 4 : 3, items = [], messages = [{ role: "user", content: [T("go")], timestamp: 0 }], tracker = new Map();
    const layout = S.pick("layout", ["apart", "apart, spoken", "one message, spoken"]);
    const grouped = layout.startsWith("one"), spoken = layout.endsWith("spoken");
    const kinds = S.thorough ? KINDS : S.pick("set", [["short", "longA", "longB", "note", "raw"], ["longA", "two", "image", "record", "outcome"], ["longA", "directive", "short", "none", "raw"]]);
    const base = S.pick("args", [0, 2]); // a path or a revision; the other calls repeat it, come near it, or differ
    for (let i = 0; i < n; i++) { const rel = i === 0 ? "same" : S.pick("rel" + i, ["same", "near", "tool"]); items.push({ id: "c" + i, tool: rel === "tool" ? "u" : "t", a: rel === "near" ? (base === 2 ? 3 : i === 1 ? 4 : 1) : base, kind: S.pick("k" + i, kinds) }); }
    const results = items.map((it) => {
      const r = (content, isError = false, extra = {}) => ({ role: "toolResult", toolCallId: it.id, toolName: it.tool, content, isError, timestamp: 0, ...extra });
      if (it.kind === "none") return undefined;
      if (it.kind === "short") return r([T("done")]);
      if (it.kind === "longA") return r([T(C("A"))]);
      if (it.kind === "longB") return r([T(C("B"))]);
      if (it.kind === "two") return r([T(C("A")), T("tail " + it.id)]);
      if (it.kind === "image") return r([T(C("A")), { type: "image", data: "img" + it.id, mimeType: "image/png" }]);
      if (it.kind === "note") return r([T("[harness] jsonStringParse: note")]);
      if (it.kind === "outcome") return r([T("exit 1")], true, { errorKind: "operation_outcome" });
      if (it.kind === "raw") return r([T("Error: <broken> " + "x".repeat(5000))], true);
      if (it.kind === "directive") return r([T("[harness] {}")], true, { details: { piToolFailureDirective: { version: 1, state: "failed", phase: "execution", failureCode: "corrupt", nextAction: "change " + it.id } } });
      const res = createToolFailureResult(rememberToolFailure(tracker, it.tool, ARGS[it.a], "failed", "exit_1", "fix it", "diag " + it.id));
      return r(res.content, true, { details: res.details });
    });
    if (grouped) { messages.push(am([...(spoken ? [T("say")] : []), ...items.map((it) => call(it.id, it.tool, ARGS[it.a]))], "toolUse")); for (const r of results) if (r) messages.push(r); }
    else items.forEach((it, i) => { messages.push(am([...(spoken ? [T("say " + i)] : []), call(it.id, it.tool, ARGS[it.a])], "toolUse")); if (results[i]) messages.push(results[i]); });
    const before = JSON.stringify(messages);
    const out = sanitizeToolFailureContext(messages, "BASE");
    S.assert(JSON.stringify(messages) === before, "the transcript itself was changed");
    const ok = (i) => ["short", "longA", "longB", "two", "image", "note"].includes(items[i].kind);
    const sameOp = (i, j) => items[i].tool === items[j].tool && same(items[i].a, items[j].a);
    const text = (i) => results[i].content.every((b) => b.type === "text") ? results[i].content.map((b) => b.text).join("\n") : undefined;
    const calls = new Set(), seen = new Set(); let order = -1;
    for (const m of out.messages) {
      if (m.role === "assistant") for (const b of m.content) if (b.type === "toolCall") { const i = +b.id.slice(1); S.assert(i > order || grouped, "calls were reordered"); order = i; S.assert(!calls.has(b.id), "a call is shown twice"); calls.add(b.id); S.assert(JSON.stringify(b) === JSON.stringify(call(b.id, items[i].tool, ARGS[items[i].a])), "a call was changed"); }
      if (m.role === "toolResult") { S.assert(calls.has(m.toolCallId) && !seen.has(m.toolCallId), "a result is shown without its call or twice"); seen.add(m.toolCallId); }
    }
    const said = out.messages.filter((m) => m.role === "assistant").flatMap((m) => m.content.filter((b) => b.type === "text")).length;
    S.assert(said === (spoken ? (grouped ? 1 : n) : 0), "what the model said was dropped");
    for (let i = 0; i < n; i++) {
      const has = calls.has("c" + i);
      if (results[i]) S.assert(seen.has("c" + i) === has, "a call and its result were not kept or dropped together");
      if (items[i].kind === "directive") { S.assert(!has, "an attempt the harness has withdrawn is shown"); continue; }
      let superseded = false;
      if (ok(i)) for (let j = i + 1; j < n; j++) if (ok(j) && (sameOp(i, j) || (text(i) !== undefined && text(i) === text(j)))) superseded = true;
      if (!has) { S.cover("dropped"); S.assert(superseded, "a tool result that nothing later repeats was dropped: " + items[i].kind); continue; }
      S.cover("kept");
      if (!results[i]) continue;
      const shown = out.messages.find((m) => m.role === "toolResult" && m.toolCallId === "c" + i);
      if (items[i].kind === "raw") { S.cover("failed"); S.assert(shown.isError && shown.content.length === 1 && shown.content[0].text.length < 3000, "an unbounded failure was shown in full"); }
      else S.assert(JSON.stringify([shown.content, shown.isError]) === JSON.stringify([results[i].content, results[i].isError]), "a tool result was changed: " + items[i].kind);
    }
    // the ledger: exactly the failures no later completion of the same operation has cleared
    S.assert(out.systemPrompt.startsWith("BASE"), "the system prompt was lost");
    S.assert(!out.systemPrompt.includes("<broken>"), "failure text is not inert data");
    for (let i = 0; i < n; i++) {
      if (items[i].kind !== "record") continue;
      let cleared = false, replaced = false;
      const close = (j) => items[j].tool === items[i].tool && (same(items[i].a, items[j].a) || ([2, 3].includes(items[i].a) && [2, 3].includes(items[j].a)));
      for (let j = i + 1; j < n; j++) { if (sameOp(i, j) && (ok(j) || items[j].kind === "outcome")) cleared = true; if (close(j) && items[j].kind !== "directive" && items[j].kind !== "none") replaced = true; }
      const listed = out.systemPrompt.includes("diag c" + i);
      if (!cleared && !replaced) S.assert(listed, "an unresolved failure is not remembered");
      if (cleared) S.assert(!listed, "a resolved failure is still held against the model");
    }
  } },
  governor: { covers: ["ran", "refused", "retried", "resumed", "user"], async run(S) {
    const n = S.thorough ? 5 : 4;
    const ops = [], outs = [];
    for (let i = 0; i < n; i++) { ops.push(i === 0 ? 0 : S.upto("op" + i, 1)); outs.push(i === n - 1 ? "ok" : S.pick("out" + i, ["ok", "fail", "timeout", "outcome"])); }
    const event = S.pick("event", ["none", "user", "resume"]), at = event === "none" ? 0 : S.upto("at", n - 1, 1);
    const ran = []; let step = 0;
    const tool = { name: "t", label: "t", description: "", parameters: { type: "object", properties: { k: { type: "number" }, timeout: { type: "number" } }, required: ["k"] }, async execute(id, args) {
      const i = +id.slice(1); ran.push(i);
      if (outs[i] === "ok") return { content: [T("fine " + i)], details: {} };
      if (outs[i] === "timeout") throw new Error("Command timed out after 5 seconds");
      if (outs[i] === "outcome") throw new AgentToolExecutionError("Command exited with code 1", "exit_1", undefined, "operation_outcome");
      throw new Error("boom");
    } };
    let agent, stop = -1;
    const fn = () => {
      const st = createAssistantMessageEventStream();
      let msg;
      if (step === n) msg = am([T("end")], "stop");
      else if (step === stop) { msg = am([], "error"); msg.errorMessage = "x"; }
      else { const i = step++; if (event === "user" && i + 1 === at) agent.steer({ role: "user", content: [T("hm")], timestamp: 0 }); msg = am([call("c" + i, "t", i % 2 ? { k: ops[i], timeout: i } : { k: ops[i] })], "toolUse"); }
      st.push({ type: "start", partial: { ...msg, content: [] } });
      if (msg.stopReason === "error") st.push({ type: "error", reason: "error", error: msg }); else st.push({ type: "done", reason: msg.stopReason, message: msg });
      return st;
    };
    const make = (messages) => new Agent({ initialState: { model: { id: "m", provider: "p", api: "a", name: "m", baseUrl: "", reasoning: false, input: ["text"], cost: usage().cost, contextWindow: 100000, maxTokens: 100 }, systemPrompt: "", tools: [tool], messages }, getApiKey: () => "k", maxStallTurns: 0, streamFn: fn });
    agent = make([]);
    if (event === "resume") stop = at;
    await agent.prompt("go"); await S.settle(2);
    if (event === "resume") { stop = -1; const kept = agent.state.messages.filter((m) => !(m.role === "assistant" && m.stopReason === "error")); agent = make(structuredClone(kept)); S.cover("resumed"); await agent.continue(); await S.settle(2); }
    S.assert(step === n, "the run ended before the script did");
    // oracle
    let cursor = 0; const last = [undefined, undefined];
    const expect = [];
    for (let i = 0; i < n; i++) {
      if (event === "user" && i === at) { cursor++; S.cover("user"); }
      if (event === "resume" && i === at) for (const l of last) if (l) l.left = 0; // a resumed session shows its earlier attempts
      const l = last[ops[i]];
      if (l && l.cursor === cursor) { if (l.left > 0) { l.left--; S.cover("retried"); } else { S.cover("refused"); continue; } }
      expect.push(i); S.cover("ran");
      if (outs[i] === "ok") { cursor++; last[ops[i]] = undefined; }
      else last[ops[i]] = { cursor, left: l && l.cursor === cursor ? l.left : outs[i] === "timeout" ? 1 : 0 };
    }
    S.assert(JSON.stringify(ran) === JSON.stringify(expect), "operations that ran: " + ran + ", those that could tell something new: " + expect);
    const res = agent.state.messages.filter((m) => m.role === "toolResult");
    S.assert(res.length === n, "a call was not answered exactly once");
    res.forEach((r, i) => {
      S.assert(r.isError === (!expect.includes(i) || outs[i] !== "ok"), "a refused or failed call is reported as success, or the reverse");
      const t = r.content.map((c) => c.text).join("");
      if (expect.includes(i) && outs[i] === "ok") S.assert(t === "fine " + i, "a successful result was changed");
      if (expect.includes(i) && outs[i] === "outcome") S.assert(t === "Command exited with code 1", "an operation's own negative report was rewritten");
    });
  } },
  evicted: { covers: ["refused", "allowed"], run(S) {
    const many = S.pick("many", [0, 1, 62, 63, 64, 65, 130]);
    const moved = S.pick("moved", ["no", "user", "success", "itself"]);
    const where = S.pick("where", ["after", "before"]);
    const gate = new ToolFailureRecoveryGate(), messages = [{ role: "user", content: [T("go")], timestamp: 0 }], tracker = new Map();
    const tool = { name: "t", label: "t", description: "", parameters: {}, execute: async () => ({ content: [], details: {} }) };
    gate.restoreFromMessages(messages);
    let c = 0;
    const run = (args, good) => {
      const id = "c" + c++;
      const record = rememberToolFailure(new Map(), "t", args, "failed", "exit_1", "fix");
      messages.push(am([call(id, "t", args)], "toolUse"));
      gate.apply(good ? { kind: "success", tool, args } : { kind: "unproductive", tool, record, args });
      messages.push({ role: "toolResult", toolCallId: id, toolName: "t", content: good ? [T("ok")] : createToolFailureResult(record).content, details: good ? {} : createToolFailureResult(record).details, isError: !good, timestamp: 0 });
    };
    const others = () => { for (let i = 0; i < many; i++) run({ other: i }, false); };
    const move = () => { if (moved === "user") { gate.noteWorldAdvance(); messages.push({ role: "user", content: [T("x")], timestamp: 0 }); } if (moved === "success") run({ s: 1 }, true); if (moved === "itself") run({ k: 1 }, true); };
    run({ k: 1 }, false);
    if (where === "after") { others(); move(); } else { move(); others(); }
    const got = gate.admit(tool, { k: 1, ...(S.flag("to") ? { timeoutMs: 9 } : {}) }, undefined, messages).kind;
    S.cover(moved === "no" ? "refused" : "allowed");
    S.assert(got === (moved === "no" ? "blocked" : "allowed"), moved === "no" ? "an unproductive operation was repeated after " + many + " others though nothing had changed" : "an operation was refused though something had changed");
    const fresh = new ToolFailureRecoveryGate(); fresh.restoreFromMessages(structuredClone(messages));
    S.assert(fresh.admit(tool, { k: 1 }, undefined, messages).kind === got, "a resumed session admits what the live one refuses, or the reverse");
    S.assert(fresh.admit(tool, { k: 2 }, undefined, messages).kind === "allowed" && gate.admit(tool, { k: 2 }, undefined, messages).kind === "allowed", "an operation that never ran was refused");
  } },
};
