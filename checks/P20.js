// Model streams: exactly one outcome, delivered last, and a cut-off only after the silence allowed in that phase.
import { S } from "symex";
import { withStreamIdleWatchdog } from "@repo/packages/agent/src/reliability/watchdogs.ts";
import { AssistantMessageEventStream } from "@repo/packages/ai/src/utils/event-stream.ts";
import { combineAbortSignals } from "@repo/packages/ai/src/utils/abort-signals.ts";

export const meta = {
  bounds: ["5 (thorough 6) steps of a provider: response headers, set-up success or failure, structural, thinking, text and tool events, completion, error, silent end, exception; each interleaved with silence just below or at the limit of the phase and with the caller's cancellation", "streams of up to 4 pushes with one reader that joins at any time", "every mix of up to 3 live, absent and cancelled signals"],
  outside: ["a provider that keeps its stream open after its request was cancelled by the caller"],
  assumptions: ["a provider ends its stream once its signal is aborted"],
};
const model = { api: "a", provider: "p", id: "m" };
const msg = (content, stopReason = "stop", more = {}) => ({ role: "assistant", content, api: "a", provider: "p", model: "m", usage: {}, stopReason, timestamp: 1, ...more });
const terminal = (e) => e.type === "done" || e.type === "error";
const B = { connectMs: 50, firstProgressMs: 70, activeIdleMs: 110, quietIdleMs: 130 };
export const cases = {
  watchdog: { covers: ["done", "stalled", "aborted", "failed", "ended"], async run(S) {
    S.autoTimers = false;
    let heard = 0, given, signal, onResponse, setup, settleSetup, failSetup, open = true, pump = [], wake = () => {}, fail = null, sent = [], stalls = [];
    const t0 = 1_700_000_000_000, now = () => S.now - t0;
    const inner = { async *[Symbol.asyncIterator]() { for (;;) { if (pump.length) { yield pump.shift(); continue; } if (fail) throw fail; if (!open) return; await new Promise((r) => { wake = r; }); } } };
    const fn = (_m, _c, o) => { signal = o.signal; onResponse = o.onResponse; given = o; return new Promise((res, rej) => { settleSetup = () => res(inner); failSetup = rej; }); };
    const caller = new AbortController();
    const wrapped = withStreamIdleWatchdog(fn, { ...B, onStall: (i) => stalls.push(i) });
    if (S.flag("abortedBefore")) caller.abort();
    const ready = wrapped(model, { messages: [] }, { signal: caller.signal, apiKey: "k", onResponse: () => { heard++; } });
    S.assert(!given || given.apiKey === "k", "an option of the request does not reach the provider");
    let got = [], over = false, result;
    ready.then(async (s) => { s.result().then((r) => { result = r; }); for await (const e of s) got.push(e); over = true; }).catch((e) => { result = e; });
    await S.settle();
    let isSetup = false, aborted = caller.signal.aborted, ended = aborted, phase = "connect", deadline = B.connectMs, progress = false, confirmed = false;
    const n = S.thorough ? 6 : 5;
    const blocks = [];
    const confirm = () => { if (confirmed || progress) return; confirmed = true; phase = "first-progress"; deadline = now() + B.firstProgressMs; };
    const put = (e, meaningful, last) => { sent.push(e); pump.push(e); wake(); if (terminal(e)) { ended = true; return; } if (meaningful) progress = true; if (!meaningful && !progress) confirm(); else { phase = last === "thinking" || !last ? "quiet" : "active"; deadline = now() + (phase === "quiet" ? B.quietIdleMs : B.activeIdleMs); } };
    for (let i = 0; i < n && !ended; i++) {
      const opts = ["almost", "silence"];
      if (!aborted) opts.push("abort");
      if (!isSetup && !aborted) opts.push("headers", "ready", "refused");
      if (isSetup) opts.push("start", "empty", "think", "text", "tool", "done", "error", "end", "throw");
      const k = S.pick("s" + i, opts);
      const last = () => blocks.at(-1)?.type;
      const add = (type) => { blocks.push({ type }); return msg([...blocks]); };
      if (k === "almost") { if (!aborted) S.advance(Math.max(0, deadline - 1 - now())); else S.advance(500); }
      else if (k === "silence") { S.advance(deadline - now()); if (!aborted) { ended = true; await S.settle(); S.assert(stalls.length === 1 && stalls[0].phase === phase, "silence at the limit of its phase does not end the stream"); } }
      else if (k === "abort") { caller.abort(); aborted = true; if (!isSetup) ended = true; S.assert(signal.aborted, "the caller's cancellation does not reach the provider"); }
      else if (k === "headers") { const h = heard; void onResponse({}, model); S.assert(heard === h + 1, "the response headers do not reach the caller"); confirm(); }
      else if (k === "ready") { isSetup = true; settleSetup(); }
      else if (k === "refused") { failSetup(new Error("boom")); ended = true; }
      else if (k === "start") put({ type: "start", partial: msg([...blocks]) }, false, last());
      else if (k === "empty") put({ type: "text_delta", contentIndex: 0, delta: "", partial: msg([...blocks]) }, false, last());
      else if (k === "think") put({ type: "thinking_delta", contentIndex: 0, delta: "h", partial: add("thinking") }, true, "thinking");
      else if (k === "text") put({ type: "text_delta", contentIndex: 0, delta: "x", partial: add("text") }, true, "text");
      else if (k === "tool") put({ type: "toolcall_delta", contentIndex: 0, delta: "{", partial: add("toolCall") }, true, "toolCall");
      else if (k === "done") put({ type: "done", reason: "stop", message: msg([...blocks]) });
      else if (k === "error") put({ type: "error", reason: aborted ? "aborted" : "error", error: msg([...blocks], aborted ? "aborted" : "error", { errorMessage: "e" }) });
      else if (k === "end") { open = false; ended = true; wake(); }
      else { fail = new Error("boom"); ended = true; wake(); }
      await S.settle();
      if (!ended) S.assert(stalls.length === 0 && !got.some(terminal), "a stream is cut off although it was not silent for the time allowed");
    }
    if (!ended) { if (aborted) { open = false; wake(); } else S.advance(deadline - now()); await S.settle(); }
    S.assert(over && got.filter(terminal).length === 1 && terminal(got.at(-1)), "a stream does not end with exactly one outcome");
    const t = got.at(-1), final = t.type === "done" ? t.message : t.error;
    S.assert(result === final, "the result of a stream is not its outcome");
    const innerTerminal = sent.find(terminal), own = got.slice(0, -1);
    if (innerTerminal) { S.cover("done"); S.assert(got.length === sent.length && got.every((e, i) => e === sent[i]), "events of the provider are lost, repeated or changed"); }
    else { S.assert(own.length === sent.length && own.every((e, i) => e === sent[i]), "events of the provider are lost, repeated or changed");
      const lastSnap = sent.at(-1)?.partial;
      S.assert(!lastSnap || final.content === lastSnap.content, "content received before the cut is missing from the outcome"); }
    if (aborted && !innerTerminal) { S.cover("aborted"); S.assert(final.stopReason === "aborted" && stalls.length === 0, "a cancelled stream is reported as something else"); }
    else if (stalls.length) { S.cover("stalled"); S.assert(final.stopReason === "error" && final.errorMessage.startsWith("stream stalled") && signal.aborted && stalls.length === 1, "a stalled stream is not reported as one or its request is left running"); }
    else if (!innerTerminal) { S.cover(fail ? "failed" : "ended"); S.assert(final.stopReason === "error", "a stream that broke off is reported as complete"); }
    S.assert(S.pendingTimers() === 0, "a timer is left after the end of a stream");
    const before = got.length;
    if (isSetup) { pump.push({ type: "done", reason: "stop", message: msg([]) }); open = false; wake(); } else if (settleSetup) settleSetup();
    await S.settle(); S.advance(1000); await S.settle();
    S.assert(got.length === before && stalls.length <= 1 && S.pendingTimers() === 0, "something happens on a stream that is over");
  } },
  stream: { covers: ["joined late", "no outcome", "pushed after the end"], async run(S) {
    S.autoTimers = false;
    const s = new AssistantMessageEventStream(), n = S.thorough ? 5 : 4;
    let got = [], over = false, result, joined = false, want = [], closed = false, outcome;
    const join = () => { joined = true; (async () => { for await (const e of s) got.push(e); over = true; })(); };
    for (let i = 0; i < n; i++) {
      const k = S.pick("s" + i, ["delta", "done", "error", "end", "end with", ...(joined ? [] : ["join"])]);
      if (k === "join") { join(); }
      else if (k === "end" || k === "end with") { const m = msg([], "stop"); s.end(k === "end with" ? m : undefined); if (!closed) outcome = k === "end with" ? m : "synthetic"; closed = true; }
      else { const m = msg([{ type: "text", text: "x" + i }]); const e = k === "delta" ? { type: "text_delta", delta: "x", partial: m } : k === "done" ? { type: "done", reason: "stop", message: m } : { type: "error", reason: "error", error: m }; s.push(e); if (closed) S.cover("pushed after the end"); else { want.push(e); if (k !== "delta") { closed = true; outcome = m; } } }
      if (S.flag("pause" + i)) await S.settle(2);
    }
    if (!joined) { S.cover("joined late"); join(); }
    s.result().then((r) => { result = r; });
    await S.settle();
    S.assert(got.length === want.length && got.every((e, i) => e === want[i]), "a reader misses, repeats or reorders events");
    S.assert(over === closed, "a reader does not end with the stream");
    if (!closed) { S.assert(result === undefined, "an open stream already has a result"); return; }
    if (outcome === "synthetic") { S.cover("no outcome"); S.assert(result.stopReason === "error" && (!want.length || result.content === want.at(-1).partial.content), "a stream that ended without an outcome is not reported as failed with what it had"); }
    else S.assert(result === outcome, "the result is not the outcome that ended the stream");
  } },
  combine: { covers: ["aborted"], run(S) {
    const n = S.upto("n", 3), list = [];
    for (let i = 0; i < n; i++) list.push(S.pick("sig" + i, ["none", "live", "aborted"]));
    const cs = list.map((k) => (k === "none" ? null : new AbortController()));
    list.forEach((k, i) => { if (k === "aborted") cs[i].abort("r" + i); });
    const { signal, cleanup } = combineAbortSignals(cs.map((c) => c?.signal));
    S.assert((signal !== undefined) === list.some((k) => k !== "none"), "a combined signal is missing");
    if (!signal) return;
    const firstAborted = list.indexOf("aborted");
    S.assert(signal.aborted === (firstAborted >= 0), "a combined signal misses a cancellation, or is cancelled without one");
    const live = list.flatMap((k, i) => (k === "live" ? [i] : []));
    if (firstAborted < 0 && live.length) { const clean = S.flag("cleanup"); if (clean) cleanup(); const w = live[S.upto("which", live.length - 1)]; cs[w].abort("x"); S.cover("aborted"); if (!clean || live.length === 1) S.assert(signal.aborted && signal.reason === "x", "a cancellation does not reach the combined signal"); else S.assert(!signal.aborted, "a released combined signal still listens"); }
  } },
};
