// Agent runs: tool calls and results, queued messages, provider-request limits, background hand-off.
import { S } from "symex";
import { Agent } from "@repo/packages/agent/src/agent.ts";
import { createAssistantMessageEventStream } from "@repo/packages/ai/src/utils/event-stream.ts";

export const meta = {
  bounds: ["one batch of up to 5 (thorough 6) tool calls, each succeeding, reporting an error, throwing, unknown, refused by policy, or cancelled before or while it runs, executed sequentially or in waves", "up to 4 provider turns with steering and follow-up messages queued at every point, cancellation at every provider call and tool call", "provider-request limits 0 to 4 and stall limits 0 to 3 over every sequence of two operations", "hand-off to the background by deadline or by hand, before or after completion"],
  outside: ["the content of failure records", "listeners that throw", "image budgets and context planning (provider side)"],
  assumptions: ["the provider is a stub that answers at once and reports an aborted message when its signal is already aborted"],
};
const model = { id: "m", provider: "p", api: "a", name: "m", baseUrl: "", reasoning: false, input: ["text"], cost: { input: 0, output: 0, cacheRead: 0, cacheWrite: 0 }, contextWindow: 1000, maxTokens: 100 };
const usage = () => ({ input: 0, output: 0, cacheRead: 0, cacheWrite: 0, totalTokens: 0, cost: { input: 0, output: 0, cacheRead: 0, cacheWrite: 0, total: 0 } });
const am = (content, stopReason) => ({ role: "assistant", content, api: "a", provider: "p", model: "m", usage: usage(), stopReason, timestamp: 0 });
const call = (id, name, args) => ({ type: "toolCall", id, name, arguments: args });
const user = (t) => ({ role: "user", content: [{ type: "text", text: t }], timestamp: 0 });
// a provider that plays a script; the script is a function of the request number
function provider(script, log) {
  let n = 0;
  return (m, ctx, opts) => {
    const i = n++; log.push({ n: i, messages: ctx.messages.slice(), tools: ctx.tools ? ctx.tools.length : 0, aborted: !!(opts && opts.signal && opts.signal.aborted) });
    const st = createAssistantMessageEventStream();
    const r = script(i, ctx, opts);
    const msg = opts && opts.signal && opts.signal.aborted ? am([], "aborted") : r;
    st.push({ type: "start", partial: { ...msg, content: [] } });
    if (msg.stopReason === "error" || msg.stopReason === "aborted") st.push({ type: "error", reason: msg.stopReason, error: msg }); else st.push({ type: "done", reason: msg.stopReason, message: msg });
    return st;
  };
}
const schema = { type: "object", properties: { k: { type: "number" } }, required: ["k"] };
const text = (r) => r.content.map((c) => c.text || "").join("");
// what must hold of any run's events and transcript
function wellFormed(S, events, agent, before) {
  const msgs = agent.state.messages.slice(before);
  const ended = events.filter((e) => e.type === "message_end").map((e) => e.message);
  S.assert(ended.length === msgs.length && ended.every((m, i) => m === msgs[i]), "the transcript is not exactly the messages that ended, in order");
  S.assert(events[0].type === "agent_start" && events[events.length - 1].type === "agent_end" && events.filter((e) => e.type === "agent_end").length === 1, "a run does not end exactly once");
  S.assert(!agent.state.isStreaming && agent.state.streamingMessage === undefined && agent.state.pendingToolCalls.size === 0, "state of a finished run is left behind");
  const open = new Set(), done = new Set();
  for (const e of events) {
    if (e.type === "tool_execution_start") { S.assert(!open.has(e.toolCallId) && !done.has(e.toolCallId), "a tool call started twice"); open.add(e.toolCallId); }
    if (e.type === "tool_execution_update") S.assert(open.has(e.toolCallId), "a tool call reported progress while it was not running");
    if (e.type === "tool_execution_end") { S.assert(open.has(e.toolCallId), "a tool call ended without starting or ended twice"); open.delete(e.toolCallId); done.add(e.toolCallId); }
  }
  let calls = [];
  for (const m of msgs) {
    if (m.role === "assistant") calls = m.content.filter((c) => c.type === "toolCall").map((c) => c.id);
    else if (m.role === "toolResult") { const i = calls.indexOf(m.toolCallId); S.assert(i >= 0, "a tool result without its call, repeated or out of order"); calls = calls.slice(i + 1); }
    else calls = [];
  }
  let depth = 0, turns = 0;
  for (const e of events) { if (e.type === "turn_start") { depth++; turns++; } if (e.type === "turn_end") depth--; }
  S.assert(depth <= 1, "turns overlap");
  return msgs;
}
const KINDS = ["ok", "error", "throw", "unknown", "blocked", "hookthrow", "abortHook", "abortExec", "startThrow"];
export const cases = {
  batch: { covers: ["all answered", "cancelled", "policy", "waves"], async run(S) {
    const n = S.pick("n", S.thorough ? [1, 2, 3, 4, 5, 6] : [1, 3, 5, 6]);
    const mode = S.pick("mode", ["parallel", "sequential", "tool-sequential"]);
    // at most two calls differ from plain success; which ones and how is symbolic
    const odd1 = S.upto("odd1", n - 1), kind1 = S.pick("kind1", KINDS);
    const two = n > 1 && S.flag("two");
    const odd2 = two ? S.upto("odd2", n - 1) : -1, kind2 = two ? S.pick("kind2", ["throw", "blocked", "abortHook", "startThrow"]) : "ok";
    if (two && odd2 <= odd1) return;
    const kind = (i) => i === odd1 ? kind1 : i === odd2 ? kind2 : "ok";
    const ran = [], log = [], events = [], updates = []; let live = 0, most = 0;
    const order = S.flag("slowFirst");
    const tool = { name: "t", label: "t", description: "", parameters: schema, executionMode: mode === "tool-sequential" ? "sequential" : undefined, async execute(id, args, signal, update) {
      const i = args.k; ran.push(id); live++; most = Math.max(most, live);
      S.assert(id === "c" + i, "a tool ran with another call's arguments");
      update({ content: [{ type: "text", text: "half" }], details: {} });
      for (let k = 0; k < (order ? 4 - i % 4 : 1 + i % 2); k++) await null;
      live--;
      if (kind(i) === "abortExec") { agent.abort(); throw new Error("cancelled " + i); }
      if (kind(i) === "throw") throw new Error("boom " + i);
      updates.push(update);
      return { content: [{ type: "text", text: "r" + i }], details: { i }, ...(kind(i) === "error" ? { isError: true } : {}) };
    } };
    const calls = []; for (let i = 0; i < n; i++) calls.push(call("c" + i, kind(i) === "unknown" ? "nope" : "t", { k: i }));
    const agent = new Agent({ initialState: { model, systemPrompt: "", tools: [tool], messages: [] }, toolExecution: mode === "parallel" ? "parallel" : mode === "sequential" ? "sequential" : "parallel",
      streamFn: provider((i) => { if (i === 0) return am(calls, "toolUse"); for (const u of updates) u({ content: [], details: {} }); return am([{ type: "text", text: "end" }], "stop"); }, log), getApiKey: () => "k",
      onToolCallStart: async (cs) => { for (const c of cs) if (kind(+c.callId.slice(1)) === "startThrow") throw new Error("disk full"); },
      beforeToolCall: async ({ toolCall }) => { const i = +toolCall.id.slice(1); if (kind(i) === "blocked") return { block: true, reason: "no" }; if (kind(i) === "hookthrow") throw new Error("hook"); if (kind(i) === "abortHook") agent.abort(); } });
    agent.subscribe((e) => { events.push(e); });
    await agent.prompt("go"); await S.settle(4);
    for (const u of updates) u({ content: [], details: {} }); // a tool that reports progress after its call is over
    await S.settle(2);
    const msgs = wellFormed(S, events, agent, 0);
    const results = msgs.filter((m) => m.role === "toolResult"), byId = (id) => results.filter((r) => r.toolCallId === id);
    const stop = kind1 === "abortHook" || kind1 === "abortExec" || kind2 === "abortHook" || kind2 === "abortExec";
    const broke = kind1 === "startThrow" || kind2 === "startThrow";
    for (const id of ran) { S.assert(ran.filter((x) => x === id).length === 1, "a tool call ran twice"); S.assert(byId(id).length === 1, "a tool call that ran has no result in the transcript"); }
    for (const r of results) {
      const i = +r.toolCallId.slice(1), k = kind(i);
      if (k === "ok" && ran.includes(r.toolCallId)) S.assert(!r.isError && text(r) === "r" + i && r.details.i === i, "a successful result was changed");
      if (k !== "ok") S.assert(r.isError, "a failed, refused or cancelled call is reported as success");
      if (k === "blocked" || k === "unknown" || k === "hookthrow" || k === "abortHook") S.assert(!ran.includes(r.toolCallId), "a refused call ran");
    }
    for (const [i, c] of calls.entries()) if (["blocked", "unknown", "hookthrow", "abortHook"].includes(kind(i))) { S.cover("policy"); S.assert(!ran.includes(c.id), "a refused call ran"); }
    if (mode !== "parallel") S.assert(most <= 1, "sequential calls overlapped"); else { S.assert(most <= 4, "too many calls at once"); if (n > 4) S.cover("waves"); }
    if (broke) { const last = msgs[msgs.length - 1]; S.assert(last.role === "assistant" && (last.stopReason === "error" || last.stopReason === "aborted"), "a run that could not record a call does not end as failed"); for (const [i, c] of calls.entries()) if (kind(i) === "startThrow") S.assert(!ran.includes(c.id), "a call that could not be recorded ran"); }
    else if (!stop) { S.cover("all answered"); S.assert(results.length === n && log.length === 2, "a call of a run that was not cancelled has no result"); S.assert(log[1].messages.filter((m) => m.role === "toolResult").length === n, "the model is not told every result"); }
    else { S.cover("cancelled"); const last = msgs[msgs.length - 1]; S.assert(last.role === "assistant" && last.stopReason === "aborted", "a cancelled run does not end as cancelled");
      S.assert(log.filter((l) => !l.aborted).length === 1, "a request was sent to the model after cancellation");
      // once cancelled, nothing later starts: in order, calls after the cancelled one
      const at = kind1.startsWith("abort") ? odd1 : odd2;
      if (mode !== "parallel") for (let i = at + 1; i < n; i++) S.assert(!ran.includes("c" + i), "a call started after cancellation");
      else if (kind(at) === "abortHook") for (let i = at + 1 - at % 4 + 3; i < n; i++) if (i > at) S.assert(!ran.includes("c" + i), "a call started after cancellation");
    }
  } },
  queues: { covers: ["steered", "followed", "kept", "cancelled", "continued"], async run(S) {
    // messages queued at symbolic moments of a run; nothing is lost, repeated or reordered
    const turns = S.upto("turns", S.thorough ? 3 : 2, 1); // provider answers with tool calls, then text
    const sm = S.pick("steerMode", ["one-at-a-time", "all"]), fm = S.pick("followMode", ["one-at-a-time", "all"]);
    const points = ["before", "request0", "tool0", "hook0", "request1", "text", "end"];
    const stopAt = S.pick("abort", ["never", "request0", "tool0", "request1"]);
    const p1 = S.pick("p1", points), k1 = S.pick("k1", ["s", "f"]), p2 = S.pick("p2", points), k2 = S.pick("k2", ["s", "f"]);
    const plan = [[p1, k1, "A"], [p2, k2, "B"]];
    const queued = { s: [], f: [] };
    const events = [], log = [];
    const at = (pt) => { for (const [p, k, t] of plan) if (p === pt) { const m = user(t); queued[k].push(t); if (k === "s") agent.steer(m); else agent.followUp(m); } plan2(pt); if (stopAt === pt) { agent.abort(); } };
    const plan2 = (pt) => { for (let i = plan.length - 1; i >= 0; i--) if (plan[i][0] === pt) plan.splice(i, 1); };
    const tool = { name: "t", label: "t", description: "", parameters: schema, async execute(id, args) { if (args.k === 0) at("tool0"); return { content: [{ type: "text", text: "r" }], details: {} }; } };
    const agent = new Agent({ initialState: { model, systemPrompt: "", tools: [tool], messages: [] }, steeringMode: sm, followUpMode: fm, getApiKey: () => "k", maxStallTurns: 0,
      streamFn: provider((i) => { if (i < 2) at("request" + i); return i < turns ? am([call("c" + i, "t", { k: i })], "toolUse") : am([{ type: "text", text: "end" }], "stop"); }, log),
      afterToolCall: async ({ args }) => { if (args.k === 0) at("hook0"); return undefined; } });
    agent.subscribe((e) => { events.push(e); if (e.type === "message_end" && e.message.role === "assistant" && e.message.stopReason === "stop") at("text"); if (e.type === "agent_end") at("end"); });
    at("before");
    await agent.prompt("go"); await S.settle(2);
    let msgs = wellFormed(S, events, agent, 0);
    const texts = (ms) => ms.filter((m) => m.role === "user").map((m) => m.content[0].text);
    const cancelled = msgs[msgs.length - 1].role === "assistant" && msgs[msgs.length - 1].stopReason === "aborted";
    if (cancelled) S.cover("cancelled");
    S.assert(!cancelled || stopAt !== "never", "a run ended as cancelled though nobody cancelled it");
    // a run that ends by itself leaves nothing queued before its end behind
    const late = [p1, p2].filter((p) => p === "end").length;
    const got = texts(msgs).slice(1);
    const used = (k) => queued[k].filter((t) => got.includes(t));
    for (const t of got) S.assert(got.filter((x) => x === t).length === 1, "a queued message was delivered twice");
    for (const k of ["s", "f"]) { const seq = got.filter((t) => queued[k].includes(t)); S.assert(JSON.stringify(seq) === JSON.stringify(queued[k].slice(0, seq.length)), "queued messages were delivered out of order"); if (seq.length) S.cover(k === "s" ? "steered" : "followed"); }
    if (!cancelled) S.assert(got.length === queued.s.length + queued.f.length - late, "a queued message was not delivered before the agent stopped");
    S.assert(agent.hasQueuedMessages() === (got.length < queued.s.length + queued.f.length), "a queued message was lost");
    // follow-ups wait until the agent would stop: every request that sees one comes after an answer without tool calls
    for (const [i, m] of msgs.entries()) if (m.role === "user" && i > 0 && queued.f.includes(m.content[0].text)) { const prev = msgs.slice(0, i).filter((x) => x.role === "assistant").pop(); S.assert(prev && !prev.content.some((c) => c.type === "toolCall"), "a follow-up interrupted work in progress"); }
    // steering is delivered before the next request to the model
    for (const l of log) { const seen = texts(l.messages); for (const t of got) if (seen.includes(t)) S.assert(seen.filter((x) => x === t).length === 1, "the model was sent a message twice"); }
    if (!cancelled) { const lastReq = texts(log[log.length - 1].messages); S.assert(JSON.stringify(lastReq) === JSON.stringify(texts(msgs)), "the model never saw a delivered message"); }
    // what is still queued is delivered when the user continues
    if (agent.hasQueuedMessages() && agent.state.messages[agent.state.messages.length - 1].role === "assistant") {
      S.cover("kept"); const ev2 = events.length, had = agent.state.messages.length;
      await agent.continue(); await S.settle(2);
      S.cover("continued");
      msgs = agent.state.messages; const all = texts(msgs).slice(1);
      S.assert(!agent.hasQueuedMessages() && all.length === queued.s.length + queued.f.length && all.every((t) => all.filter((x) => x === t).length === 1), "continuing lost or repeated a queued message");
    }
  } },
  limits: { covers: ["turn limit", "stall", "finished"], async run(S) {
    const max = S.upto("maxTurns", 4), stall = S.upto("stall", 3);
    const len = S.upto("work", S.thorough ? 5 : 4); // answers with tool calls before the model stops by itself
    const ops = []; for (let i = 0; i < len; i++) ops.push(S.flag("op" + i));
    const log = [], events = [], stops = [];
    const tool = { name: "t", label: "t", description: "", parameters: schema, async execute() { return { content: [{ type: "text", text: "r" }], details: {} }; } };
    const agent = new Agent({ initialState: { model, systemPrompt: "", tools: [tool], messages: [] }, getApiKey: () => "k", maxStallTurns: stall, maxProviderTurns: max, onRunawayStop: (x) => { stops.push(x.reason); },
      streamFn: provider((i, ctx) => i < len && ctx.tools && ctx.tools.length ? am([call("c" + i, "t", { k: ops[i] ? 1 : 2 })], "toolUse") : am([{ type: "text", text: "end" + i }], "stop"), log) });
    agent.subscribe((e) => { events.push(e); });
    await agent.prompt("go"); await S.settle(2);
    const msgs = wellFormed(S, events, agent, 0);
    if (max > 0) S.assert(log.length <= max, "more provider requests than the limit");
    // oracle: the first work turn whose operation has come up `stall` times within the window
    let stuck = -1; if (stall > 0) for (let i = 0; i < len && stuck < 0; i++) { const w = ops.slice(Math.max(0, i + 1 - 4 * stall), i + 1); if (w.filter((x) => x === ops[i]).length >= stall) stuck = i; }
    const natural = stuck < 0 ? len + 1 : stuck + 2; // requests made when no turn limit bites
    const limited = max > 0 && natural > max;
    S.assert(log.length === (limited ? max : natural), "the run made another number of requests than the limits allow");
    if (limited && !(stuck >= 0 && stuck + 1 <= max)) { S.cover("turn limit"); S.assert(stops.join() === "provider_turn_limit", "a run stopped by the request limit does not say so"); }
    else if (stuck >= 0) { S.cover("stall"); S.assert(stops.join() === "repeated_tool_call", "a repeating run was not stopped, or not for that reason"); if (!limited) { S.assert(log[log.length - 1].tools === 0, "the closing request offers tools"); S.assert(msgs[msgs.length - 1].role === "assistant", "no closing message"); } }
    else { S.cover("finished"); S.assert(stops.length === 0, "a run that finished by itself was called a runaway"); }
    const done = msgs.filter((m) => m.role === "toolResult").length;
    S.assert(done === msgs.filter((m) => m.role === "assistant").reduce((s, m) => s + m.content.filter((c) => c.type === "toolCall").length, 0), "a stopped run leaves tool calls without results");
  } },
  handoff: { covers: ["handed off", "finished first", "declined", "cancelled"], async run(S) {
    const how = S.pick("how", ["deadline", "manual", "both"]), take = S.pick("take", ["accept", "decline", "throw"]);
    const when = S.pick("done", ["before", "after"]), ends = S.pick("ends", ["ok", "throw"]), abort = S.pick("abort", ["no", "beforeHandoff", "afterHandoff"]);
    S.autoTimers = false;
    let release, fire, sig, completion, cancelled = false, execs = 0, handoffs = 0, unsub = 0, late = false;
    const gate = new Promise((r) => { release = r; });
    const log = [], events = [];
    const tool = { name: "t", label: "t", description: "", parameters: schema, async execute(id, args, signal, update) { execs++; sig = signal; signal.addEventListener("abort", () => { cancelled = true; release(); }); await gate; if (late) update({ content: [{ type: "text", text: "late" }], details: {} }); if (cancelled) throw new Error("cancelled"); if (ends === "throw") throw new Error("boom"); return { content: [{ type: "text", text: "done" }], details: {} }; } };
    const agent = new Agent({ initialState: { model, systemPrompt: "", tools: [tool], messages: [] }, getApiKey: () => "k", backgroundToolCallAfterMs: how === "manual" ? undefined : 50,
      subscribeToolCallHandoffRequest: how === "deadline" ? undefined : (id, cb) => { fire = cb; return () => { unsub++; }; },
      handoffToolCall: (c) => { handoffs++; completion = c.completion; if (take === "throw") throw new Error("no"); return take === "accept" ? { result: { content: [{ type: "text", text: "in background" }], details: {} } } : undefined; },
      streamFn: provider((i) => i === 0 ? am([call("c0", "t", { k: 1 })], "toolUse") : am([{ type: "text", text: "end" }], "stop"), log) });
    agent.subscribe((e) => { events.push(e); });
    const p = agent.prompt("go"); await S.settle(6);
    S.assert(execs === 1, "the tool did not start");
    if (when === "before") { release(); await S.settle(6); }
    if (abort === "beforeHandoff") { agent.abort(); await S.settle(6); }
    if (how === "deadline") S.fireTimers(); else if (fire) fire();
    await S.settle(8);
    const handed = handoffs > 0 && take === "accept";
    if (when === "before" || abort === "beforeHandoff") S.assert(handoffs === 0, "a finished or cancelled call was handed off");
    else S.assert(handoffs === 1, "a call past its deadline was not offered once to the background");
    late = true;
    if (abort === "afterHandoff") { agent.abort(); await S.settle(6); }
    if (handed) { S.cover("handed off"); S.assert(!cancelled, "cancelling the foreground cancelled a call that was handed off"); }
    else if (abort !== "no" && when === "after") { S.cover("cancelled"); S.assert(cancelled, "cancelling the run did not reach the tool"); }
    if (handoffs > 0 && take !== "accept") S.cover("declined");
    if (when === "before") S.cover("finished first");
    release(); await S.settle(8); await p; await S.settle(4);
    const msgs = wellFormed(S, events, agent, 0);
    const r = msgs.filter((m) => m.role === "toolResult");
    S.assert(r.length === 1 && r[0].toolCallId === "c0" && execs === 1, "a call does not have exactly one result");
    if (handed) S.assert(!r[0].isError && text(r[0]) === "in background", "the result of a handed-off call is not the hand-off"); else if (cancelled || ends === "throw") S.assert(r[0].isError, "a failed call is reported as success"); else S.assert(!r[0].isError && text(r[0]) === "done", "a result was changed");
    if (handed) { let fin; completion.then((x) => { fin = x; }, () => { fin = "rejected"; }); await S.settle(4); S.assert(fin && fin !== "rejected" && fin.isError === (ends === "throw"), "the background completion is not the tool's own outcome"); }
    if (how !== "deadline") S.assert(unsub === 1, "the hand-off subscription was left behind");
    S.assert(S.pendingTimers() === 0, "a hand-off timer was left behind");
  } },
};
