// Provider history: every tool call sent to a model has exactly one result, its own, and nothing foreign crosses models.
import { S } from "symex";
import { transformMessages, INTERRUPTED_TOOL_RESULT_TEXT, joinTextContent } from "@repo/packages/ai/src/providers/transform-messages.ts";
import { projectMessagesForModelImageSupport } from "@repo/packages/ai/src/image-support.ts";

export const meta = {
  bounds: ["histories of up to 3 (thorough 4) turns, each a user message or an assistant message of this or another model, completed, failed or aborted, with up to two tool calls whose ids may repeat in later turns (as providers without ids do), answered in full, in part, in any order or not at all", "content blocks of every kind, signed, redacted, blank or not, thinking text every string of up to 2 characters", "images of supported and unsupported types around text, up to 3 blocks"],
  outside: ["results separated from their call by a user message, and results with no call at all, which the agent loop does not produce"],
  assumptions: ["ids within one assistant message are distinct and the id normaliser is injective"],
};
const MODEL = { provider: "p", api: "a", id: "m", input: ["text", "image"] };
const text = (t) => [{ type: "text", text: t }];
const A = (same, stopReason, content) => ({ role: "assistant", provider: same ? "p" : "q", api: "a", model: "m", stopReason, content, timestamp: 1, usage: {} });
export const cases = {
  pairing: { covers: ["synthetic", "repeated id", "dropped turn", "renamed"], run(S) {
    const msgs = [], n = S.thorough ? 4 : 3, kept = []; // kept: what must be sent
    const used = new Set();
    for (let i = 0; i < n; i++) {
      const kind = S.pick("kind" + i, i === 0 ? ["ok", "error", "aborted"] : ["ok", "error", "user"]);
      if (kind === "user") { const m = { role: "user", content: text("u" + i), timestamp: 1 }; msgs.push(m); kept.push({ u: "u" + i }); continue; }
      const same = S.flag("same" + i), ids = S.pick("ids" + i, i === n - 1 || S.thorough ? [["x"], ["x", "y"], ["y", "x"], []] : [["x"], ["x", "y"]]);
      for (const id of ids) { if (used.has(id)) S.cover("repeated id"); used.add(id); }
      msgs.push(A(same, kind === "ok" ? "toolUse" : kind, [...text("t" + i), ...ids.map((id) => ({ type: "toolCall", id, name: "n" + id, arguments: { i }, thoughtSignature: "sig" }))]));
      const order = ids.length === 2 && S.flag("rev" + i) ? [ids[1], ids[0]] : ids, res = {};
      for (const id of order) if (kind !== "error" && S.flag("res" + i + id)) { res[id] = "r" + i + id; msgs.push({ role: "toolResult", toolCallId: id, toolName: "n" + id, content: text(res[id]), isError: false, timestamp: 1 }); }
      if (kind === "ok") kept.push({ i, same, ids, res }); else S.cover("dropped turn");
    }
    const out = transformMessages(msgs, MODEL, (id) => "norm-" + id);
    let k = 0;
    for (const want of kept) {
      const m = out[k++];
      S.assert(m, "a message was lost");
      if (want.u) { S.assert(m.role === "user" && m.content[0].text === want.u, "messages were reordered or lost"); continue; }
      S.assert(m.role === "assistant" && m.content[0].text === "t" + want.i, "messages were reordered or lost");
      const calls = m.content.filter((b) => b.type === "toolCall");
      S.assert(calls.length === want.ids.length && calls.every((c, j) => c.name === "n" + want.ids[j] && c.arguments.i === want.i), "a tool call was lost or changed");
      if (!want.same) S.assert(calls.every((c) => !("thoughtSignature" in c)), "another model's signature is replayed"); else S.assert(calls.every((c) => c.thoughtSignature === "sig"), "the model's own signature was lost");
      const results = []; while (k < out.length && out[k].role === "toolResult") results.push(out[k++]);
      S.assert(results.length === calls.length, "a tool call does not have exactly one result right after it");
      for (const [j, c] of calls.entries()) {
        const rs = results.filter((r) => r.toolCallId === c.id), orig = want.ids[j];
        S.assert(rs.length === 1, "a tool call does not have exactly one result right after it");
        if (c.id !== orig) S.cover("renamed");
        S.assert(want.same ? c.id === orig : c.id === "norm-" + orig, "a call id is not the one the provider expects");
        if (want.res[orig]) S.assert(rs[0].content[0].text === want.res[orig] && !rs[0].isError, "a real tool result was replaced");
        else { S.cover("synthetic"); S.assert(rs[0].isError && rs[0].content[0].text === INTERRUPTED_TOOL_RESULT_TEXT, "a missing result is not reported as interrupted"); }
      }
    }
    S.assert(k === out.length, "something that must not be sent is sent");
    S.assert(msgs.every((m) => m.role !== "assistant" || m.content.every((b) => b.type !== "toolCall" || (b.thoughtSignature === "sig" && !b.id.startsWith("norm-")))), "the stored history was modified");
  } },
  blocks: { covers: ["text from thinking", "opaque dropped", "kept"], run(S) {
    const same = S.flag("same"), th = S.str("th", { min: 0, max: S.thorough ? 3 : 2, of: "a \n" });
    const signed = S.flag("signed"), redacted = S.flag("redacted");
    const b = { type: "thinking", thinking: th, ...(signed ? { thinkingSignature: "s" } : {}), ...(redacted ? { redacted: true } : {}) };
    const out = transformMessages([A(same, "stop", [b, { type: "text", text: "x", textSignature: "ts" }])], MODEL)[0].content;
    const last = out[out.length - 1];
    S.assert(last.type === "text" && last.text === "x" && (last.textSignature === "ts") === same, "a text block's signature crosses models, or is lost");
    const first = out.length === 2 ? out[0] : undefined;
    if (!same) {
      S.assert(!out.some((x) => x.type === "thinking"), "another model's thinking block is replayed");
      if (redacted || th.trim() === "") { S.cover("opaque dropped"); S.assert(!first, "opaque or blank thinking is sent to another model"); }
      else { S.cover("text from thinking"); S.assert(first && first.type === "text" && first.text === th, "thinking text was lost"); }
    } else if (redacted || signed || th.trim() !== "") { S.cover("kept"); S.assert(first === b, "the model's own thinking block was changed"); }
  } },
  images: { covers: ["omitted", "kept"], run(S) {
    const vision = S.pick("vision", ["none", "all", "png"]);
    const model = { ...MODEL, input: vision === "none" ? ["text"] : ["text", "image"], ...(vision === "png" ? { supportedImageMimeTypes: ["image/PNG"] } : {}) };
    const n = S.upto("n", 3, 1), blocks = [];
    for (let i = 0; i < n; i++) blocks.push(S.pick("b" + i, [{ type: "text", text: "t" + i }, { type: "image", mimeType: "image/png", data: "d" + i }, { type: "image", mimeType: "image/gif", data: "d" + i }]));
    const role = S.pick("role", ["user", "toolResult"]);
    const msg = role === "user" ? { role, content: blocks } : { role, toolCallId: "x", toolName: "n", content: blocks };
    const out = projectMessagesForModelImageSupport([msg], model)[0].content;
    const ok = (b) => vision === "all" || (vision === "png" && b.mimeType === "image/png");
    const bad = blocks.filter((b) => b.type === "image" && !ok(b));
    S.assert(out.every((b) => b.type !== "image" || ok(b)), "an unsupported image is sent");
    const keep = blocks.filter((b) => b.type !== "image" || ok(b));
    S.assert(keep.every((b) => out.includes(b)) && out.filter((b) => keep.includes(b)).every((b, i) => b === keep[i]), "a supported block was lost or moved");
    const marks = out.filter((b) => !keep.includes(b));
    if (bad.length) { S.cover("omitted"); S.assert(marks.length >= 1 && marks.every((b) => b.type === "text" && b.text.includes("image omitted")), "an omission is not marked"); } else { S.cover("kept"); S.assert(marks.length === 0 && out.length === blocks.length, "content changed without need"); }
  } },
  join: { covers: ["joined"], run(S) {
    const bl = []; const n = S.upto("n", 3); let want = [];
    for (let i = 0; i < n; i++) { if (S.flag("t" + i)) { const t = S.str("s" + i, { min: 0, max: 1, of: "a\n" }); bl.push({ type: "text", text: t }); want.push(t); } else bl.push({ type: "image", data: "", mimeType: "" }); }
    S.cover("joined"); S.assert(joinTextContent(bl) === want.join("\n"), "joined text is not the text blocks in order");
  } },
};
