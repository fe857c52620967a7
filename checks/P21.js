// Retries: only failures that can pass are repeated, never more often or sooner than allowed, and cancellation stops them.
import { S } from "symex";
import { RetryController } from "@repo/packages/agent/src/reliability/retry-controller.ts";
import { classifyFailure } from "@repo/packages/agent/src/reliability/classifier.ts";
import { computeRetryDelayMs } from "@repo/packages/agent/src/reliability/retry.ts";
import { isContextOverflow } from "@repo/packages/ai/src/utils/overflow.ts";
import { retryProviderRequest } from "@repo/packages/ai/src/utils/provider-retry.ts";

export const meta = {
  bounds: ["up to 3 (thorough 4) failures in a row of 8 kinds, each with no, a short or a long suggested delay, cancellation at any time, and every retry allowance up to 2 (thorough 3)",
    "texts of a transient failure alone (up to 1 character on each side) and together with one of billing or credentials in both orders; suggested delays of every digit in 4 spellings with every cap up to 9000 ms; the documented overflow texts with up to 2 characters around, and every usage up to 300 tokens of a window of 200"],
  outside: ["provider error texts outside the listed kinds"],
  assumptions: [],
};
const msg = (content, stopReason = "stop", more = {}) => ({ role: "assistant", content, api: "a", provider: "p", model: "m", usage: { input: 0, output: 0, cacheRead: 0, cacheWrite: 0 }, stopReason, timestamp: 1, ...more });
export const cases = {
  retry: { covers: ["retried", "exhausted", "terminal", "cancelled", "capped"], async run(S) {
    S.autoTimers = false;
    const maxAttempts = S.upto("allowed", S.thorough ? 3 : 2), enabled = S.flag("enabled");
    const agent = { state: { messages: [{ role: "user", content: "u" }] } }, starts = [], ends = [];
    let seen = true;
    const c = new RetryController(agent, () => ({ enabled, maxAttempts, baseDelayMs: 20, maxDelayMs: 100, jitterRatio: 0 }), { onRetryStart: (i) => { seen = seen && c.isRetrying; starts.push(i); }, onRetryEnd: (i) => ends.push(i) }, () => 1000);
    const kinds = { capacity: ["overloaded_error: Overloaded", true], rate: ["429 too many requests", true], net: ["fetch failed", true], stall: ["stream stalled: no events for 5ms (quiet phase)", true], billing: ["insufficient_quota 429", false], auth: ["401 unauthorized", false], overflow: ["prompt is too long: 9 tokens > 8 maximum", false], other: ["bad request", false] };
    let used = 0;
    for (let i = 0; i < (S.thorough ? 4 : 3); i++) {
      const k = S.pick("k" + i, Object.keys(kinds)), after = k === "overflow" || k === "other" ? "" : S.pick("after" + i, ["", " retry after 30ms", " retry after 9s"]);
      const m = msg([], "error", { errorMessage: kinds[k][0] + after });
      const history = [...agent.state.messages];
      agent.state.messages = [...history, m];
      const cancel = S.pick("cancel" + i, ["no", "during"]);
      let answer; const p = c.prepareRetry(m); p.then((x) => { answer = x; });
      await S.settle(2);
      const should = enabled && kinds[k][1] && used < maxAttempts;
      if (!should) {
        S.cover(kinds[k][1] ? "exhausted" : "terminal");
        S.assert(answer === false && S.pendingTimers() === 0, "a failure that must not be retried is retried");
        S.assert(agent.state.messages.at(-1) === m && c.attempt === used, "a failure that is final is taken out of the conversation or counted as a retry");
        return;
      }
      used++;
      const delay = after === " retry after 30ms" ? 30 : after ? 100 : 20 * 2 ** (used - 1);
      if (after === " retry after 9s") S.cover("capped");
      S.assert(starts.at(-1).attempt === used && starts.at(-1).delayMs === delay && starts.length === used && seen, "a retry is announced with another attempt or delay than it has");
      S.assert(answer === undefined && agent.state.messages.length === history.length && !agent.state.messages.includes(m), "the failed answer is still in the conversation that is retried");
      if (cancel === "during") { S.advance(S.flag("late" + i) ? delay - 1 : 0); c.abort(); await S.settle(2); S.cover("cancelled"); S.assert(answer === false && ends.length === 1 && !ends[0].success && S.pendingTimers() === 0 && !c.isRetrying && c.attempt === 0, "a cancelled retry still runs or leaves its counter"); return; }
      S.advance(delay - 1); await S.settle(2); S.assert(answer === undefined, "a retry starts before its delay");
      S.advance(1); await S.settle(2); S.cover("retried"); S.assert(answer === true && !c.isRetrying, "a retry does not start after its delay");
    }
  } },
  request: { covers: ["succeeded", "gave up", "cancelled", "refused delay"], async run(S) {
    S.autoTimers = false;
    const maxRetries = S.upto("max", S.thorough ? 3 : 2), ac = new AbortController();
    let calls = 0, made = [], answer, failed;
    const build = (k) => { const e = new Error(k); if (k === "plain") return e; e.status = { s500: 500, s429: 429, s400: 400, net: undefined, noretry: 503, force: 400, wait: 429, long: 429 }[k]; e.headers = new Headers(k === "noretry" ? { "x-should-retry": "false" } : k === "force" ? { "x-should-retry": "true" } : k === "wait" ? { "retry-after-ms": "40" } : k === "long" ? { "retry-after": "3600" } : {}); return e; };
    const again = { s500: true, s429: true, s400: false, net: true, noretry: false, force: true, wait: true, long: false, plain: false };
    let verdict = null;
    const p = retryProviderRequest(async () => { const k = S.pick("k" + calls, ["ok", ...Object.keys(again)]); calls++; made.push(k); if (k === "ok") return "r"; throw build(k); }, { maxRetries, signal: ac.signal });
    p.then((r) => { answer = r; }, (e) => { failed = e; });
    for (let i = 0; i <= maxRetries; i++) {
      await S.settle(2);
      S.assert(calls === i + 1, "a request is repeated at another time than after its delay");
      const k = made[i];
      if (k === "ok") { S.cover("succeeded"); S.assert(answer === "r", "an answer is lost"); return; }
      if (!again[k] || i === maxRetries) { S.cover("gave up"); if (k === "long" && i < maxRetries) { S.cover("refused delay"); S.assert(failed && failed.message.includes("3600s"), "a delay longer than allowed is waited out"); } else S.assert(failed && failed.message === k, "a failure that is final is not reported as it was"); S.assert(S.pendingTimers() === 0, "a timer is left after a request that is over"); return; }
      S.assert(!failed && answer === undefined, "a failure that may pass is final");
      if (S.flag("abort" + i)) { ac.abort(); await S.settle(2); S.cover("cancelled"); S.advance(10 ** 6); await S.settle(2); S.assert(failed && failed.name === "AbortError" && calls === i + 1 && S.pendingTimers() === 0, "a cancelled request is repeated"); return; }
      if (k === "wait") { S.advance(39); await S.settle(2); S.assert(calls === i + 1, "a request is repeated before the delay the server asked for"); S.advance(1); } else S.advance(8000);
    }
  } },
  classify: { covers: ["final wins", "transient", "unknown", "flagged"], run(S) {
    const final = { billing: ["insufficient_quota", "Monthly usage limit reached", "quota exceeded", "billing"], auth: ["401", "unauthorized", "invalid api key", "forbidden"] };
    const transient = { rate_limit: ["429", "rate limit", "too many requests"], overloaded: ["overloaded"], stream_stall: ["stream stalled", "ended without"], server_error: ["500", "503", "service unavailable", "internal error"], network: ["fetch failed", "socket hang up", "ENOTFOUND", "timed out"] };
    const all = Object.entries(transient).flatMap(([k, v]) => (S.thorough ? v : v.slice(0, 2)).map((t) => [t, k])), finals = Object.entries(final).flatMap(([k, v]) => (S.thorough ? v : v.slice(0, 2)).map((t) => [t, k]));
    const [text, kind] = S.pick("transient", all), fin = S.pick("final", [null, ...finals]);
    const gap = S.str("between", { min: 1, max: S.thorough ? 3 : 2, of: " .:x/" });
    let m = text, sep = gap;
    const pads = fin && !/\d/.test(text + fin[0]) ? "" : " ";
    if (fin) m = S.flag("order") ? text + pads + sep + pads + fin[0] : fin[0] + pads + sep + pads + text;
    const before = S.str("before", { max: 1, of: " a.3" }), after = S.str("after", { max: 1, of: " a.3" });
    const flags = S.pick("flag", ["none", "aborted", "overflow"]);
    const full = fin ? m : before + m + after;
    const r = classifyFailure({ message: full, aborted: flags === "aborted", contextOverflow: flags === "overflow" });
    S.assert(r.message === full, "the error text is changed");
    if (flags === "aborted") { S.cover("flagged"); S.assert(r.reason === "aborted" && !r.retryable && !r.shouldCompact && !r.shouldRotateCredential && !r.shouldFallback, "a cancelled request is acted on as a failure"); return; }
    if (flags === "overflow") { S.cover("flagged"); S.assert(r.reason === "context_overflow" && r.shouldCompact && !r.retryable && !r.shouldRotateCredential && !r.shouldFallback, "an overflow does not lead to compaction alone"); return; }
    S.assert(!r.shouldCompact, "a failure that is no overflow leads to compaction");
    if (fin) { S.cover("final wins"); S.assert(!r.retryable && r.shouldFallback && r.reason === (fin[1] === "billing" ? "billing_or_quota" : "auth") && r.shouldRotateCredential === (fin[1] === "auth"), "a failure of billing or credentials is retried because its text also speaks of a transient one"); return; }
    if (/^\d/.test(text)) {
      const glued = (c) => c === "a" || c === "3";
      if (glued(before) || glued(after)) { S.cover("unknown"); S.assert(!r.retryable && r.reason === "unknown", "digits inside a longer word or number are taken for a status code"); return; }
    }
    S.cover("transient"); S.assert(r.retryable && r.reason === kind && r.shouldFallback, "a failure that can pass is not retried");
  } },
  suggested: { covers: ["seconds", "milliseconds", "capped", "backoff"], run(S) {
    const n = S.upto("n", 9), d = S.upto("d", 9), unit = S.pick("unit", ["ms", "s", "s frac", "json", "none"]);
    const text = "overloaded " + (unit === "ms" ? S.pick("verb", ["retry after ", "Retry-After ", "retry in "]) + n + d + "ms" : unit === "s" ? "please retry in " + n + "s" : unit === "s frac" ? "retry after " + n + "." + d + " s" : unit === "json" ? '{"retryDelay": "' + n + 's"}' : "try later");
    const r = classifyFailure({ message: text });
    const want = unit === "ms" ? n * 10 + d : unit === "s" || unit === "json" ? n * 1000 : unit === "s frac" ? n * 1000 + d * 100 : undefined;
    S.assert(r.retryAfterMs === want, "the delay a provider suggests is read as another");
    const max = S.int("maxDelay", 1, 9000), base = S.int("base", 1, 4000), attempt = S.upto("attempt", 4), jitter = S.pick("jitter", [0, 0.5]), rnd = S.pick("rnd", [0, 0.25, 0.75]);
    const delay = computeRetryDelayMs({ maxAttempts: 3, baseDelayMs: base, maxDelayMs: max, jitterRatio: jitter }, attempt, { retryAfterMs: r.retryAfterMs, random: () => rnd });
    if (want !== undefined) { S.cover(unit === "ms" ? "milliseconds" : "seconds"); if (want > max) S.cover("capped"); S.assert(delay === (want > max ? max : want), "a suggested delay is not kept up to the cap"); return; }
    S.cover("backoff");
    const raw = base * [1, 1, 2, 4, 8][attempt], exp = raw > max ? max : raw;
    S.assert(delay >= exp && delay <= exp + jitter * exp + 1, "the delay is below its backoff or above its jitter");
    if (jitter === 0) S.assert(delay === exp, "the delay without jitter is not its backoff");
  } },
  overflow: { covers: ["text", "throttle", "silent", "length", "no"], run(S) {
    const n = S.conc(S.int("tokens", 1, 3)) * 100000, c = S.flag("comma") ? String(n).replace(/(\d{3})$/, ",$1") : String(n);
    const texts = ["prompt is too long: " + n + " tokens > 200 maximum", "413 request_too_large", "Your input exceeds the context window of this model", "Requested token count exceeds the model's maximum context length of " + c + " tokens", "The input token count (" + n + ") exceeds the maximum number of tokens allowed (1)", "This model's maximum prompt length is " + n + " but", "Please reduce the length of the messages or completion", "maximum context length is " + n + " tokens. However", "Input length 9 exceeds the maximum allowed input length of " + c + " tokens.", "The input (" + n + " tokens) is longer than the model's context length (7 tokens).", "prompt token count of 9 exceeds the limit of " + n, "the request exceeds the available context size, try", "is greater than the context length", "invalid params, context window exceeds limit", "Your request exceeded model token limit: 1", "too large for model with " + n + " maximum context length", "413 status code (no body)", "400 (no body)", "Range of input length should be [1, 5]", "context_length_exceeded", "prompt too long; exceeded max context length by 5 tokens"];
    const kind = S.pick("kind", ["text", "throttle", "other", "usage"]);
    const m = (stopReason, errorMessage, usage) => ({ role: "assistant", stopReason, errorMessage, usage: usage ?? { input: 0, output: 0, cacheRead: 0, cacheWrite: 0 }, content: [] });
    if (kind === "text") { const t = S.pick("text", texts), pre = /no body/.test(t) ? "" : S.str("pre", { max: 2, of: "a:{ " }), post = S.str("post", { max: 2, of: "a.} " });
      S.cover("text"); S.assert(isContextOverflow(m("error", pre + t + post)), "an overflow a provider reports is not seen"); S.assert(!isContextOverflow(m("stop", pre + t + post)), "an answer that succeeded counts as an overflow for its text"); return; }
    if (kind === "throttle") { const t = S.pick("text", ["Throttling error: Too many tokens, please wait before trying again.", "Too many requests: token limit exceeded for the minute", "rate limit: too many tokens"]); S.cover("throttle"); S.assert(!isContextOverflow(m("error", t)), "throttling is taken for an overflow"); return; }
    if (kind === "other") { const t = S.pick("text", ["400 bad request", "overloaded", "413", "500 (no body)", "fetch failed"]); S.cover("no"); S.assert(!isContextOverflow(m("error", t), 100), "another failure is taken for an overflow"); return; }
    const input = S.int("input", 0, 300), cacheRead = S.int("cacheRead", 0, 300), output = S.int("output", 0, 5), window = 200, stop = S.pick("stop", ["stop", "length", "toolUse"]);
    const got = isContextOverflow(m(stop, undefined, { input, output, cacheRead, cacheWrite: 0 }), window);
    const want = stop === "stop" ? input + cacheRead > window : stop === "length" ? output === 0 && input + cacheRead >= 198 : false;
    S.assert(got === want, "an answer's usage is taken wrongly for an overflow, or not"); if (got) S.cover(stop === "stop" ? "silent" : "length");
  } },
};
