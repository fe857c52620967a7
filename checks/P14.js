// Text tool calls: what a model writes as an envelope becomes exactly that call, quoted text never does, and markup never leaks.
import { S } from "symex";
import { parseTextToolCalls, formatVariantEnvelope } from "@repo/packages/ai/src/utils/tool-repair/text-protocol.ts";
import { TextProtocolLiveFilter } from "@repo/packages/ai/src/utils/tool-repair/text-protocol-live-filter.ts";
import { startMaterializedProviderStream } from "@repo/packages/ai/src/stream.ts";
import { AssistantMessageEventStream } from "@repo/packages/ai/src/utils/event-stream.ts";

export const meta = {
  bounds: ["one or two calls in each of the four dialects between prose, argument text every string of up to 3 (thorough 4) characters over quotes, backslash, braces, angle brackets, '&', backtick and a letter, alone or around an envelope of any dialect quoted in it", "streamed text of up to 6 (thorough 8) characters before, inside and after envelopes, cut into two deltas at every position", "replies of two blocks with well-formed and malformed envelopes"],
  outside: ["arguments containing their own dialect's closing delimiter in the fenced and tool_call dialects", "outer white space of parameter text in the XML dialect, which it does not keep", "repair of malformed JSON"],
  assumptions: [],
};
const TOOLS = [{ name: "w", description: "", parameters: { type: "object", properties: { v: { type: "string" } } } }, { name: "x", description: "", parameters: { type: "object", properties: {} } }];
const VAR = ["tool-tag", "tool-call", "fenced-json", "function-xml"];
const QUOTED = ["<pi:call name='x'>{'v':'q'}</pi:call>", "<tool_call>{'name':'x','arguments':{}}</tool_call>", "```tool\n{'name':'x'}\n```", "<function name='x'><param name='v'>q</param></function>", "</pi:call>"];
const env = (variant, name, args) => formatVariantEnvelope(variant, name, JSON.stringify(args));
async function play(S, blocks, cuts) { // drive the streaming wrapper with fake provider events
  const src = new AssistantMessageEventStream();
  const model = { id: "m", provider: "p", api: "a", input: ["text"] };
  const content = blocks.map(() => ({ type: "text", text: "" }));
  const msg = (c) => ({ role: "assistant", content: c, api: "a", provider: "p", model: "m", usage: {}, stopReason: "stop", timestamp: 1 });
  const out = await startMaterializedProviderStream(model, { usesTextToolProtocol: true, sourceContext: { messages: [], tools: TOOLS }, context: { messages: [] } }, { textToolCallProtocol: true }, () => src);
  const seen = []; const done = (async () => { for await (const e of out) seen.push(e); })();
  const snap = () => msg(content.map((b) => ({ ...b })));
  for (const [i, t] of blocks.entries()) {
    src.push({ type: "text_start", contentIndex: i, partial: snap() });
    for (const d of cuts(i, t)) { content[i].text += d; src.push({ type: "text_delta", contentIndex: i, delta: d, partial: snap() }); }
    src.push({ type: "text_end", contentIndex: i, content: t, partial: snap() });
  }
  src.push({ type: "done", reason: "stop", message: snap() });
  await done;
  return seen;
}
export const cases = {
  roundtrip: { covers: ["quoted envelope", "plain"], run(S) {
    const variant = S.pick("variant", VAR);
    const s = S.str("s", { min: 0, max: S.thorough ? 4 : 3, of: '"\'\\{}<&`a' });
    const q = S.pick("quoted", ["", ...QUOTED]);
    const v = s + q;
    if (q) S.cover("quoted envelope"); else S.cover("plain");
    if (variant === "tool-call") S.assume(!v.includes("</tool_call>"));
    if (variant === "fenced-json") S.assume(!v.includes("```"));
    if (variant === "function-xml") { S.assume(v.trim() === v); }
    const before = S.pick("before", ["", "a "]);
    const t = before + env(variant, "w", { v }) + " b";
    const r = parseTextToolCalls(t, TOOLS);
    S.assert(r.calls.length === 1 && r.calls[0].name === "w", "one call did not come back as that one call");
    S.assert(r.calls[0].arguments.v === v, "an argument was changed on the way");
    S.assert(r.text === (before + " b").trim(), "the text around a call is not what is left");
  } },
  prose: { covers: ["plain"], run(S) {
    const t = S.str("t", { min: 0, max: S.thorough ? 6 : 5, of: '<`/a>{"' });
    const r = parseTextToolCalls(t, TOOLS);
    S.cover("plain"); S.assert(r.calls.length === 0 && r.text === t && !r.attempted, "plain text was taken for a call, or changed");
  } },
  several: { covers: ["gap", "unknown tool"], async run(S) {
    const mk = (k) => S.pick("e" + k, [env("tool-tag", "w", { v: "1" }), env("function-xml", "w", { v: "2" }), "<tool_call>nothing</tool_call>", env("tool-call", "w", { v: "3" }), env("tool-tag", "nope", {})]);
    const blocks = [mk(0) + " " + mk(1), mk(2)];
    const seen = await play(S, blocks, (_i, t) => [t]);
    const end = seen[seen.length - 1], calls = end.message.content.filter((b) => b.type === "toolCall");
    const n = (blocks[0].split("nothing").length - 1) + (blocks[1].split("nothing").length - 1);
    if (n) S.cover("gap"); if (blocks.join().includes("nope")) S.cover("unknown tool");
    S.assert(end.type === "done" && calls.length === 3 - n, "a well-formed call was lost, or a malformed one invented");
    S.assert(new Set(calls.map((c) => c.id)).size === calls.length, "two calls of one reply share an id");
    S.assert(calls.every((c) => (c.name === "w") === !c.errorMessage), "a call of an unknown tool is not marked, or a known one is");
    S.assert((end.reason === "toolUse") === calls.length > 0, "the reply's outcome does not match its calls");
  } },
  filter: { covers: ["held", "closed", "open"], run(S) {
    const form = S.pick("form", ["plain", "tag", "fence"]);
    const a = S.str("a", { min: 0, max: S.thorough ? 4 : 3, of: "<`pa" }), b = form === "plain" ? "" : S.str("b", { min: 0, max: S.thorough ? 4 : 3, of: "</`a>" });
    const opener = { plain: "", tag: "<pi:call", fence: "```tool" }[form], closer = { plain: "", tag: "</pi:call>", fence: "```" }[form];
    const close = form !== "plain" && S.flag("close");
    const t = a + opener + b + (close ? closer + "z" : "");
    const c = S.upto("c", t.length);
    const f1 = new TextProtocolLiveFilter(), f2 = new TextProtocolLiveFilter();
    f1.advance(t); const early = f2.advance(t.slice(0, c)); f2.advance(t.slice(c));
    S.assert(f1.visible === f2.visible && f1.completedEnvelopeCount === f2.completedEnvelopeCount && f1.holdingPotentialEnvelope === f2.holdingPotentialEnvelope, "what is shown depends on how the text was cut");
    S.assert(f2.visible.startsWith(early), "shown text was taken back");
    S.assert(f1.finish(t) === f1.visible && new TextProtocolLiveFilter().finish(t) === f1.visible, "the final text differs from what was streamed");
    S.assert(!f1.visible.includes("<pi:call") && !f1.visible.includes("```tool"), "envelope markup was shown");
    if (form === "plain") { const hid = t.slice(f1.visible.length); if (hid) S.cover("held"); S.assert(t.startsWith(f1.visible) && (["<", "<p", "<pa", "`", "``", "```"].includes(hid) || hid === ""), "plain text was hidden"); }
    else if (!a.includes("```") && !a.endsWith("`")) {
      const inner = (b + (close ? closer + "z" : "")), at = inner.indexOf(closer);
      if (at < 0) { S.cover("open"); S.assert(f1.visible === a, "an open envelope shows text, or hid what came before"); }
      else { S.cover("closed"); S.assert(f1.visible.startsWith(a) && (a + inner.slice(at + closer.length)).startsWith(f1.visible), "text around an envelope was lost"); }
    }
  } },
  stream: { covers: ["streamed"], async run(S) {
    const pre = S.str("pre", { min: 0, max: S.thorough ? 2 : 1, of: "<`p" }), post = S.str("post", { min: 0, max: 1, of: "<`p" });
    const t = pre + " " + env(S.thorough ? S.pick("variant", ["tool-tag", "tool-call"]) : "tool-tag", "w", { v: "<pi:" }) + post;
    const c = S.upto("c", t.length), two = S.thorough && S.flag("two") ? S.upto("c2", t.length, c) : t.length;
    const seen = await play(S, [t], () => [t.slice(0, c), t.slice(c, two), t.slice(two)].filter((d) => d));
    S.cover("streamed");
    const shown = seen.filter((e) => e.type === "text_delta").map((e) => e.delta).join("");
    S.assert(!shown.includes("<pi:call") && !shown.includes("<tool_call") && (pre + " " + post).startsWith(shown), "envelope markup reached the live view, or text was invented");
    for (const e of seen) if (e.partial) S.assert(!JSON.stringify(e.partial.content).includes("arguments") && !e.partial.content.some((b) => b.text.includes("<pi:call")), "a partial message shows envelope markup");
    const end = seen[seen.length - 1];
    S.assert(end.type === "done" && end.message.content.filter((b) => b.type === "toolCall").length === 1 && seen.filter((e) => e.type === "done").length === 1, "the streamed call did not come out once");
    S.assert(end.message.content.filter((b) => b.type === "text").map((b) => b.text).join("") === (pre + " " + post).trim(), "final text is not the reply without the call");
  } },
};
