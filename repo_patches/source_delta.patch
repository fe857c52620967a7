From 800a7e11e5dccf91c360f7246316070b62b1f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:45 +0000
Subject: [PATCH 01/68] fix: resolve links in every native worker write scope
 before comparing reservations

---
 .../src/core/delegation/worker-write-reservation.ts        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/coding-agent/src/core/delegation/worker-write-reservation.ts b/packages/coding-agent/src/core/delegation/worker-write-reservation.ts
index a0d5512..8205e45 100644
--- a/packages/coding-agent/src/core/delegation/worker-write-reservation.ts
+++ b/packages/coding-agent/src/core/delegation/worker-write-reservation.ts
@@ -1,6 +1,6 @@
 import { createHash, randomUUID } from "node:crypto";
 import { existsSync, type FSWatcher, mkdirSync, unlinkSync, watch } from "node:fs";
-import { basename, dirname } from "node:path";
+import { basename, dirname, isAbsolute } from "node:path";
 import { stateFile } from "../agent-paths.ts";
 import {
 	canonicalPathScopeIdentity,
@@ -136,8 +136,9 @@ function positiveFencingToken(value: number): number {
  */
 function canonicalRealOrLexicalPath(value: string, label: string): string {
 	const lexical = canonicalPathScopeIdentity(requireBoundedTrimmedText(value, MAX_PATH_CHARS, label));
-	const resolved = safeRealpathSync(lexical);
-	return pathScopesOverlap(lexical, resolved) ? canonicalPathScopeIdentity(resolved) : lexical;
+	// A foreign path family is not absolute here and cannot be resolved; every native path must be,
+	// or two scopes that reach the same files through a link would not be seen to overlap.
+	return isAbsolute(lexical) ? canonicalPathScopeIdentity(safeRealpathSync(lexical)) : lexical;
 }
 
 function canonicalWorkspace(workspace: WorkerWriteReservationWorkspace): CanonicalWorkspace {
-- 
2.43.0


From 633ed2afeec5bd74db332c511dbbe94a933c15c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:23 +0000
Subject: [PATCH 02/68] fix: keep the single-quote stripping of the risk gate
 in step with shell and Python quoting

---
 .../coding-agent/src/core/risk-classifier.ts   | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/packages/coding-agent/src/core/risk-classifier.ts b/packages/coding-agent/src/core/risk-classifier.ts
index 494d885..46f8c0a 100644
--- a/packages/coding-agent/src/core/risk-classifier.ts
+++ b/packages/coding-agent/src/core/risk-classifier.ts
@@ -80,8 +80,20 @@ function highRiskSignal(text: string): RiskSignal | undefined {
 	return undefined;
 }
 
-function stripSingleQuotes(command: string): string {
-	return command.replace(/'[^']*'/g, "''");
+// Every token in which a single quote does not open a literal is matched first and kept, so no
+// arrangement of quotes, escapes and comments makes the text between two of them look quoted.
+const SHELL_TOKEN_RE =
+	/\\[\s\S]|\$\$|"(?:\\[\s\S]|[^"\\])*"|\$'(?:\\[\s\S]|[^'\\])*'|(?:^|[\s;&|<>()])#[^\n]*|'[^']*'/g;
+const PYTHON_TOKEN_RE =
+	/#[^\n]*|"""(?:\\[\s\S]|[^\\])*?"""|'''(?:\\[\s\S]|[^\\])*?'''|"(?:\\[\s\S]|[^"\\\n])*"|'(?:\\[\s\S]|[^'\\\n])*'/g;
+const SHELL_NESTED_QUOTING_RE = /\$[({]|`/;
+
+function stripSingleQuotes(command: string, python: boolean): string {
+	const stripped = command.replace(python ? PYTHON_TOKEN_RE : SHELL_TOKEN_RE, (token) =>
+		token.startsWith("'") ? "''" : token,
+	);
+	// Substitutions open a quoting context of their own: judge such a command with nothing removed.
+	return !python && SHELL_NESTED_QUOTING_RE.test(stripped) ? command : stripped;
 }
 
 export function classifyModelRouterRoute(prompt: string): RouteDecision {
@@ -182,7 +194,7 @@ export function classifyModelRouterIntent(prompt: string): ModelRouterIntent {
 export function assessOperationRisk(input: RiskAssessmentInput): RiskAssessment {
 	const operation = input.operation.trim();
 	const command = input.command?.trim() ?? "";
-	const cleanCommand = stripSingleQuotes(command);
+	const cleanCommand = stripSingleQuotes(command, input.toolName === "python");
 	const fullText = `${operation} ${command}`.trim();
 	const cleanFullText = `${operation} ${cleanCommand}`.trim();
 	if (!fullText) {
-- 
2.43.0


From 82c14efe29c00d05d13168e1d33a6fb64fb18573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:42 +0000
Subject: [PATCH 03/68] fix: hold an amending commit for approval wherever it
 stands in the command

---
 packages/coding-agent/src/core/risk-classifier.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/coding-agent/src/core/risk-classifier.ts b/packages/coding-agent/src/core/risk-classifier.ts
index 46f8c0a..a4f8e89 100644
--- a/packages/coding-agent/src/core/risk-classifier.ts
+++ b/packages/coding-agent/src/core/risk-classifier.ts
@@ -24,6 +24,7 @@ const DESTRUCTIVE_CMD_RE =
 const GIT_APPROVAL_CMD_RE = /\bgit\s+(push|reset|clean|stash|rebase)\b/i;
 const GIT_LOCAL_COMMIT_CMD_RE = /^\s*git(?:\s+-C\s+\S+)?\s+commit(?:\s|$)/i;
 const GIT_COMMIT_HISTORY_RE = /(?:^|\s)--amend(?:\s|$)/i;
+const GIT_AMEND_CMD_RE = /\bgit(?:\s+-C\s+\S+)?\s+commit\s(?:[^\n]*\s)?--amend(?![\w-])/i;
 const SHELL_CONTROL_RE = /(?:&&|\|\||[;&|<>`\r\n]|\$\()/;
 const PKG_MUTATE_CMD_RE = /\b(npm|pnpm|yarn|bun)\s+(install|i|update|up|publish|run|remove|rm|uninstall)\b/i;
 const RELEASE_DEPLOY_CMD_RE = /\b(release|deploy)\b/i;
@@ -265,6 +266,7 @@ export function assessOperationRisk(input: RiskAssessmentInput): RiskAssessment
 		(DESTRUCTIVE_CMD_RE.test(cleanCommand) ||
 			GIT_APPROVAL_CMD_RE.test(cleanCommand) ||
 			isHistoryRewritingCommit ||
+			GIT_AMEND_CMD_RE.test(cleanCommand) ||
 			isShellComposedCommit ||
 			PKG_MUTATE_CMD_RE.test(cleanCommand) ||
 			RELEASE_DEPLOY_CMD_RE.test(cleanCommand) ||
-- 
2.43.0


From c327a8d4272b7624bbdad3d2db73a36db01f89f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:41 +0000
Subject: [PATCH 04/68] fix: keep CRLF one line ending when an empty chunk
 falls inside it

---
 packages/ai/src/utils/streaming-lines.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/ai/src/utils/streaming-lines.ts b/packages/ai/src/utils/streaming-lines.ts
index 38aef7e..b766b48 100644
--- a/packages/ai/src/utils/streaming-lines.ts
+++ b/packages/ai/src/utils/streaming-lines.ts
@@ -20,7 +20,7 @@ export class StreamingLineDecoder {
 	push(text: string): string[] {
 		const lines: string[] = [];
 		let start = 0;
-		if (this.skipLeadingLf) {
+		if (this.skipLeadingLf && text.length > 0) {
 			this.skipLeadingLf = false;
 			if (text.startsWith("\n")) start = 1;
 		}
-- 
2.43.0


From ddaa93c02327dd173b3d4542d3fb977a1397b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 05/68] fix: keep real tool results when a provider reuses a
 tool call id in a later turn

---
 packages/ai/src/providers/transform-messages.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/ai/src/providers/transform-messages.ts b/packages/ai/src/providers/transform-messages.ts
index 46c3af2..86aab6d 100644
--- a/packages/ai/src/providers/transform-messages.ts
+++ b/packages/ai/src/providers/transform-messages.ts
@@ -103,6 +103,8 @@ export function transformMessages<TApi extends Api>(
 						delete (normalizedToolCall as { thoughtSignature?: string }).thoughtSignature;
 					}
 
+					// Some providers restart their ids in every response. A reused id names this call from here on.
+					toolCallIdMap.delete(toolCall.id);
 					if (!isSameModel && normalizeToolCallId) {
 						const normalizedId = normalizeToolCallId(toolCall.id, model, assistantMsg);
 						if (normalizedId !== toolCall.id) {
@@ -174,6 +176,8 @@ export function transformMessages<TApi extends Api>(
 			// Track tool calls from this assistant message
 			const toolCalls = assistantMsg.content.filter((b) => b.type === "toolCall") as ToolCall[];
 			if (toolCalls.length > 0) {
+				// A reused id belongs to this turn, not to the skipped one that had it before.
+				for (const toolCall of toolCalls) droppedToolCallIds.delete(toolCall.id);
 				pendingToolCalls = toolCalls;
 				existingToolResultIds = new Set();
 			}
-- 
2.43.0


From 8bcdc31bc89e011c68d85329e317a9dfdc175155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 06/68] fix: never run a tool call quoted inside another call's
 JSON arguments

---
 packages/ai/src/utils/tool-repair/text-protocol.ts | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/packages/ai/src/utils/tool-repair/text-protocol.ts b/packages/ai/src/utils/tool-repair/text-protocol.ts
index 5d3be5c..021a6ca 100644
--- a/packages/ai/src/utils/tool-repair/text-protocol.ts
+++ b/packages/ai/src/utils/tool-repair/text-protocol.ts
@@ -235,6 +235,16 @@ function selectNonOverlappingParsedMatches(entries: readonly ParsedMatch[]): Par
 	return kept.sort((a, b) => a.match.start - b.match.start);
 }
 
+/** What a well-formed JSON body quotes is data of that call, never a call of its own. */
+function quotesEnvelope(outer: EnvelopeMatch, inner: EnvelopeMatch): boolean {
+	if (outer === inner || inner.start < outer.start || inner.end > outer.end) return false;
+	try {
+		return isRecord(JSON.parse(outer.body));
+	} catch {
+		return false;
+	}
+}
+
 function remainingText(text: string, matches: readonly EnvelopeMatch[]): string {
 	let cursor = 0;
 	const pieces: string[] = [];
@@ -650,7 +660,9 @@ export function parseTextToolCalls(
 		const call = parseEnvelope(match, names, indexOffset + index + 1, idPrefix);
 		if (call) parsed.push({ match, call });
 	}
-	const selected = selectNonOverlappingParsedMatches(parsed);
+	const selected = selectNonOverlappingParsedMatches(
+		parsed.filter((entry) => !parsed.some((outer) => quotesEnvelope(outer.match, entry.match))),
+	);
 	if (selected.length === 0) {
 		return { calls: [], text, attempted: true, failure: hasOverlap(matches) ? "overlap" : "unrecognized" };
 	}
-- 
2.43.0


From ad7a11bcec5863e4cf4fef23cfbe65d82dbf6a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 07/68] fix: give text tool calls distinct ids across the
 blocks of one reply

---
 packages/ai/src/utils/tool-repair/text-protocol.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/ai/src/utils/tool-repair/text-protocol.ts b/packages/ai/src/utils/tool-repair/text-protocol.ts
index 021a6ca..887d585 100644
--- a/packages/ai/src/utils/tool-repair/text-protocol.ts
+++ b/packages/ai/src/utils/tool-repair/text-protocol.ts
@@ -670,5 +670,10 @@ export function parseTextToolCalls(
 		text,
 		selected.map((entry) => entry.match),
 	);
-	return { calls: selected.map((entry) => entry.call), text: remainder.trim(), attempted: true };
+	// Rejected envelopes leave no gap, so the next block's offset (a count of calls) never repeats an id.
+	const calls = selected.map((entry, index) => ({
+		...entry.call,
+		id: textToolCallId(idPrefix, indexOffset + index + 1),
+	}));
+	return { calls, text: remainder.trim(), attempted: true };
 }
-- 
2.43.0


From 689f4fd59ff769e40b8ba8fc196138fe4285ee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:50 +0000
Subject: [PATCH 08/68] fix: never run a tool call quoted inside another call's
 XML parameters

---
 packages/ai/src/utils/tool-repair/text-protocol.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/ai/src/utils/tool-repair/text-protocol.ts b/packages/ai/src/utils/tool-repair/text-protocol.ts
index 887d585..1a82380 100644
--- a/packages/ai/src/utils/tool-repair/text-protocol.ts
+++ b/packages/ai/src/utils/tool-repair/text-protocol.ts
@@ -235,9 +235,10 @@ function selectNonOverlappingParsedMatches(entries: readonly ParsedMatch[]): Par
 	return kept.sort((a, b) => a.match.start - b.match.start);
 }
 
-/** What a well-formed JSON body quotes is data of that call, never a call of its own. */
+/** What a parsed call quotes in its JSON or parameters is data of that call, never a call of its own. */
 function quotesEnvelope(outer: EnvelopeMatch, inner: EnvelopeMatch): boolean {
 	if (outer === inner || inner.start < outer.start || inner.end > outer.end) return false;
+	if (outer.kind === "function_xml") return true;
 	try {
 		return isRecord(JSON.parse(outer.body));
 	} catch {
-- 
2.43.0


From 652d2ddd967528f4cc6e7cf5dcbe72b16a570d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:39 +0000
Subject: [PATCH 09/68] fix: map approximate edit matches back to exactly the
 original text they cover

---
 .../coding-agent/src/core/tools/edit-diff.ts  | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/packages/coding-agent/src/core/tools/edit-diff.ts b/packages/coding-agent/src/core/tools/edit-diff.ts
index 7739339..c9ce585 100644
--- a/packages/coding-agent/src/core/tools/edit-diff.ts
+++ b/packages/coding-agent/src/core/tools/edit-diff.ts
@@ -192,6 +192,12 @@ function lineTextAt(content: string, lineStarts: number[], lineIndex: number): s
 	return content.slice(start, end);
 }
 
+/**
+ * Map a column of the normalized line back to the original line. Trailing-whitespace stripping must not
+ * apply to the prefixes measured here: a prefix ending in a blank would otherwise count short and push the
+ * boundary past the next character. The last boundary not beyond the column keeps combining marks with
+ * the character they belong to.
+ */
 function normalizedColumnToOriginalColumn(line: string, normalizedColumn: number): number {
 	if (normalizedColumn <= 0) return 0;
 	const boundaries = [0];
@@ -201,30 +207,32 @@ function normalizedColumnToOriginalColumn(line: string, normalizedColumn: number
 		boundaries.push(index);
 	}
 
-	let low = 1;
+	let low = 0;
 	let high = boundaries.length - 1;
 	while (low < high) {
-		const mid = Math.floor((low + high) / 2);
-		if (normalizeForFuzzyMatch(line.slice(0, boundaries[mid])).length >= normalizedColumn) high = mid;
-		else low = mid + 1;
+		const mid = Math.ceil((low + high) / 2);
+		if (normalizeFuzzyCharacters(line.slice(0, boundaries[mid])).length <= normalizedColumn) low = mid;
+		else high = mid - 1;
 	}
 	return boundaries[low] ?? line.length;
 }
 
+/** Map a normalized span to the original text, or undefined when it starts or ends inside an original character. */
 function mapFuzzySpanToOriginal(
 	originalContent: string,
 	originalLineStarts: number[],
 	fuzzyLineStarts: number[],
 	normalizedIndex: number,
-	normalizedLength: number,
-): { index: number; length: number } {
+	fuzzyText: string,
+): { index: number; length: number } | undefined {
 	const start = lineColumnAt(fuzzyLineStarts, normalizedIndex);
-	const end = lineColumnAt(fuzzyLineStarts, normalizedIndex + normalizedLength);
+	const end = lineColumnAt(fuzzyLineStarts, normalizedIndex + fuzzyText.length);
 	const startLine = lineTextAt(originalContent, originalLineStarts, start.lineIndex);
 	const endLine = lineTextAt(originalContent, originalLineStarts, end.lineIndex);
 	const originalStart =
 		originalLineStarts[start.lineIndex] + normalizedColumnToOriginalColumn(startLine, start.column);
 	const originalEnd = originalLineStarts[end.lineIndex] + normalizedColumnToOriginalColumn(endLine, end.column);
+	if (normalizeForFuzzyMatch(originalContent.slice(originalStart, originalEnd)) !== fuzzyText) return undefined;
 	return { index: originalStart, length: originalEnd - originalStart };
 }
 
@@ -408,8 +416,11 @@ export function planEditsToNormalizedContent(normalizedContent: string, edits: E
 				originalLineStarts,
 				fuzzyLineStarts,
 				fuzzyIndex,
-				fuzzyOldText.length,
+				fuzzyOldText,
 			);
+			if (!replacementSpan) {
+				throw getNotFoundError(path, i, edits.length, normalizedContent, oldText, sourceEdit.range);
+			}
 			matchIndex = replacementSpan.index;
 			matchLength = replacementSpan.length;
 		}
-- 
2.43.0


From 8a675c4b5f03f56bd96fa0e51c5640974e7bc171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:39 +0000
Subject: [PATCH 10/68] fix: keep the line endings of lines an edit does not
 touch

---
 .../coding-agent/src/core/tools/edit-diff.ts  | 31 +++++++++++++++++++
 packages/coding-agent/src/core/tools/edit.ts  | 14 +++++----
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/packages/coding-agent/src/core/tools/edit-diff.ts b/packages/coding-agent/src/core/tools/edit-diff.ts
index c9ce585..b375138 100644
--- a/packages/coding-agent/src/core/tools/edit-diff.ts
+++ b/packages/coding-agent/src/core/tools/edit-diff.ts
@@ -474,6 +474,37 @@ export function applyEditMatchPlan(normalizedContent: string, plan: EditMatchPla
 	return { baseContent: normalizedContent, newContent };
 }
 
+/**
+ * Carry an applied plan over to the source as it is on disk, so that text outside the replaced spans keeps
+ * the line endings it has, whichever they are. Replacement text takes `ending`.
+ */
+export function restoreAppliedEdits(
+	source: string,
+	plan: EditMatchPlan,
+	newContent: string,
+	ending: "\r\n" | "\n",
+): string {
+	const parts: string[] = [];
+	let sourceIndex = 0;
+	let normalizedIndex = 0;
+	const advanceTo = (target: number): number => {
+		while (normalizedIndex < target) {
+			sourceIndex += source[sourceIndex] === "\r" && source[sourceIndex + 1] === "\n" ? 2 : 1;
+			normalizedIndex++;
+		}
+		return sourceIndex;
+	};
+	let keptFrom = 0;
+	for (const edit of plan.edits) {
+		parts.push(source.slice(keptFrom, advanceTo(edit.matchIndex)), restoreLineEndings(edit.newText, ending));
+		keptFrom = advanceTo(edit.matchIndex + edit.matchLength);
+	}
+	parts.push(source.slice(keptFrom));
+	const restored = parts.join("");
+	// A kept lone CR directly before an LF would read back as one line break instead of two.
+	return normalizeToLF(restored) === newContent ? restored : restoreLineEndings(newContent, ending);
+}
+
 export function applyEditsToNormalizedContent(
 	normalizedContent: string,
 	edits: Edit[],
diff --git a/packages/coding-agent/src/core/tools/edit.ts b/packages/coding-agent/src/core/tools/edit.ts
index 7244c82..a1ff7b7 100644
--- a/packages/coding-agent/src/core/tools/edit.ts
+++ b/packages/coding-agent/src/core/tools/edit.ts
@@ -8,7 +8,6 @@ import type { ToolDefinition } from "../extensions/types.ts";
 import {
 	type AppliedEditsResult,
 	applyEditMatchPlan,
-	applyEditsToNormalizedContent,
 	computeEditsPlannedDiff,
 	detectLineEnding,
 	digestNormalizedEditSource,
@@ -19,7 +18,8 @@ import {
 	generateDiffString,
 	generateUnifiedPatch,
 	normalizeToLF,
-	restoreLineEndings,
+	planEditsToNormalizedContent,
+	restoreAppliedEdits,
 	stripBom,
 } from "./edit-diff.ts";
 import { isValidUTF8 } from "./file-encoding-policy.ts";
@@ -607,11 +607,13 @@ export function createEditToolDefinition(
 					const matchPlanReused =
 						cachedForInput !== undefined &&
 						cachedForInput.sourceDigest === digestNormalizedEditSource(normalizedContent);
+					let plan: EditMatchPlan;
 					let applied: AppliedEditsResult;
 					try {
-						applied = matchPlanReused
-							? applyEditMatchPlan(normalizedContent, cachedForInput.plan, path)
-							: applyEditsToNormalizedContent(normalizedContent, edits, path);
+						plan = matchPlanReused
+							? cachedForInput.plan
+							: planEditsToNormalizedContent(normalizedContent, edits, path);
+						applied = applyEditMatchPlan(normalizedContent, plan, path);
 					} catch (error) {
 						throw error instanceof Error && intentController.hasProducedContent(absolutePath, rawContent)
 							? new Error(
@@ -621,7 +623,7 @@ export function createEditToolDefinition(
 					}
 					throwIfAborted();
 
-					const finalContent = bom + restoreLineEndings(applied.newContent, originalEnding);
+					const finalContent = bom + restoreAppliedEdits(content, plan, applied.newContent, originalEnding);
 					if (!(await confirmLeaseOrRefresh())) return undefined;
 					throwIfAborted();
 					await ops.writeFile(absolutePath, finalContent);
-- 
2.43.0


From c7a6663123226fe8baaf6185fdf8b7a4c1d6487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:05 +0000
Subject: [PATCH 11/68] fix: queue changes of a file about to be created under
 the same key through every link

---
 .../coding-agent/src/core/tools/file-mutation-queue.ts    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/coding-agent/src/core/tools/file-mutation-queue.ts b/packages/coding-agent/src/core/tools/file-mutation-queue.ts
index b8d1eef..6d956d4 100644
--- a/packages/coding-agent/src/core/tools/file-mutation-queue.ts
+++ b/packages/coding-agent/src/core/tools/file-mutation-queue.ts
@@ -1,5 +1,5 @@
 import { realpath } from "node:fs/promises";
-import { resolve } from "node:path";
+import { basename, dirname, join, resolve } from "node:path";
 
 const fileMutationQueues = new Map<string, Promise<void>>();
 let registrationQueue = Promise.resolve();
@@ -80,7 +80,11 @@ async function getMutationQueueKey(filePath: string): Promise<string> {
 		return await realpath(resolvedPath);
 	} catch (error) {
 		if (isMissingPathError(error)) {
-			return resolvedPath;
+			// A file not created yet takes the key it will have once it exists: linked parents resolved.
+			const parent = dirname(resolvedPath);
+			return parent === resolvedPath
+				? resolvedPath
+				: join(await getMutationQueueKey(parent), basename(resolvedPath));
 		}
 		throw error;
 	}
-- 
2.43.0


From ca24c67031086cf3c95249023dc9165ff6186b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:37 +0000
Subject: [PATCH 12/68] fix: keep large messages of version 1 sessions in
 memory until migration gives them ids

---
 packages/agent/src/session/session-manager.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/agent/src/session/session-manager.ts b/packages/agent/src/session/session-manager.ts
index 0dae790..a0aa90f 100644
--- a/packages/agent/src/session/session-manager.ts
+++ b/packages/agent/src/session/session-manager.ts
@@ -1198,7 +1198,8 @@ export class SessionManager {
 			// waiting until the complete history is loaded makes peak heap proportional
 			// to file size and can OOM before post-load compaction cleanup runs.
 			const loaded = loadEntriesFromFileInternal(this.sessionFile, undefined, (entry, offset, length) => {
-				if (entry.type !== "message") return;
+				// Version 1 records have no id to find the payload by until they are migrated.
+				if (entry.type !== "message" || typeof entry.id !== "string") return;
 				this._releaseMessageProperty(entry, "content");
 				this._releaseMessageProperty(entry, "output");
 				if (offset !== undefined && length !== undefined && this.coldPayloadEntryIds.has(entry.id)) {
-- 
2.43.0


From 058276787007d55ff1c994b6420295239fd093d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:37 +0000
Subject: [PATCH 13/68] fix: start a new line when appending to a session file
 that ends inside a record

---
 packages/agent/src/session/session-manager.ts | 35 +++++++++++++------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/packages/agent/src/session/session-manager.ts b/packages/agent/src/session/session-manager.ts
index a0aa90f..932cbf6 100644
--- a/packages/agent/src/session/session-manager.ts
+++ b/packages/agent/src/session/session-manager.ts
@@ -620,9 +620,9 @@ function loadEntriesFromFileInternal(
 	filePath: string,
 	options?: { maxLineChars?: number },
 	onEntry?: (entry: FileEntry, offset: number | undefined, length: number | undefined) => void,
-): { entries: FileEntry[]; indexedBytes: number } {
+): { entries: FileEntry[]; indexedBytes: number; tailUnterminated: boolean } {
 	const resolvedFilePath = normalizePath(filePath);
-	if (!existsSync(resolvedFilePath)) return { entries: [], indexedBytes: 0 };
+	if (!existsSync(resolvedFilePath)) return { entries: [], indexedBytes: 0, tailUnterminated: false };
 
 	// A single line beyond this budget can never become a usable entry, and
 	// accumulating it would crash the whole load (RangeError near V8's max string
@@ -683,13 +683,14 @@ function loadEntriesFromFileInternal(
 	}
 
 	// Validate session header
-	if (entries.length === 0) return { entries, indexedBytes };
+	const tailUnterminated = lineOffset < indexedBytes;
+	if (entries.length === 0) return { entries, indexedBytes, tailUnterminated };
 	const header = entries[0];
 	if (header.type !== "session" || typeof (header as { id?: unknown }).id !== "string") {
-		return { entries: [], indexedBytes };
+		return { entries: [], indexedBytes, tailUnterminated };
 	}
 
-	return { entries, indexedBytes };
+	return { entries, indexedBytes, tailUnterminated };
 }
 
 /** Exported for testing */
@@ -1134,6 +1135,8 @@ export class SessionManager {
 	private sessionContextCache: SessionContextCache | undefined;
 	private lifecycleActiveCache: LifecycleActiveCache | undefined;
 	private persistenceStateUncertain = false;
+	/** The loaded file ends inside a record (a crash mid-append); the next append must start a new line. */
+	private tailRecordUnterminated = false;
 	private inheritedSessionIds = new Set<string>();
 
 	private constructor(
@@ -1207,6 +1210,7 @@ export class SessionManager {
 				}
 			});
 			this.fileEntries = loaded.entries;
+			this.tailRecordUnterminated = loaded.tailUnterminated;
 			let indexedEveryColdPayload = true;
 			for (const id of this.coldPayloadEntryIds) {
 				if (this.entryFileLocations.has(id)) continue;
@@ -1278,6 +1282,7 @@ export class SessionManager {
 		this.lifecycleActiveCache = undefined;
 		this.flushed = false;
 		this.persistenceStateUncertain = false;
+		this.tailRecordUnterminated = false;
 		this._invalidateSessionContextCache();
 		this._resetEntryFileIndex(true);
 
@@ -1374,7 +1379,10 @@ export class SessionManager {
 			closeSync(fd);
 		}
 		renameSync(tempFile, targetFile);
-		if (targetFile === this.sessionFile) this._resetEntryFileIndex();
+		if (targetFile === this.sessionFile) {
+			this.tailRecordUnterminated = false;
+			this._resetEntryFileIndex();
+		}
 	}
 
 	isPersisted(): boolean {
@@ -1580,6 +1588,13 @@ export class SessionManager {
 		}
 	}
 
+	private _appendEncodedEntries(targetFile: string, encodedEntries: readonly string[]): void {
+		this._ensureSessionFileParent(targetFile);
+		const lineBreak = this.tailRecordUnterminated ? "\n" : "";
+		appendFileSync(targetFile, `${lineBreak}${encodedEntries.join("\n")}\n`);
+		this.tailRecordUnterminated = false;
+	}
+
 	private _persistEntries(entries: readonly SessionEntry[], encodedEntries: readonly string[]): void {
 		if (!this.persist || !this.sessionFile) return;
 		if (entries.length !== encodedEntries.length) {
@@ -1599,13 +1614,11 @@ export class SessionManager {
 			const forceFlush = entries.some((entry) => isSessionLifecycleEntry(entry));
 			if (!hasAssistant && !forceFlush) {
 				if (this.flushed && encodedEntries.length > 0) {
-					this._ensureSessionFileParent(this.sessionFile);
-					appendFileSync(this.sessionFile, `${encodedEntries.join("\n")}\n`);
+					this._appendEncodedEntries(this.sessionFile, encodedEntries);
 				}
 				return;
 			}
 
-			const encodedPayload = `${encodedEntries.join("\n")}\n`;
 			if (!this.flushed) {
 				this._ensureSessionFileParent(this.sessionFile);
 				const fd = openSync(this.sessionFile, "wx");
@@ -1619,8 +1632,7 @@ export class SessionManager {
 				}
 				this.flushed = true;
 			} else if (encodedEntries.length > 0) {
-				this._ensureSessionFileParent(this.sessionFile);
-				appendFileSync(this.sessionFile, encodedPayload);
+				this._appendEncodedEntries(this.sessionFile, encodedEntries);
 			}
 		} catch (error) {
 			// append/write/close failures may leave a partial JSONL suffix. Do not publish the
@@ -2773,6 +2785,7 @@ export class SessionManager {
 		this.leafId = branched.leafId;
 		this.lifecycleActiveCache = undefined;
 		this.persistenceStateUncertain = branched.persistenceStateUncertain;
+		this.tailRecordUnterminated = branched.tailRecordUnterminated;
 		this.inheritedSessionIds = new Set(branched.inheritedSessionIds);
 		this.coldPayloadEntryIds.clear();
 		for (const id of branched.coldPayloadEntryIds) this.coldPayloadEntryIds.add(id);
-- 
2.43.0


From 2bda366f70c51d4ef458fb534b2eb8673aa3fbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:37 +0000
Subject: [PATCH 14/68] fix: keep a forked session whole when labels lie on its
 branch

---
 packages/agent/src/session/session-manager.ts | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/packages/agent/src/session/session-manager.ts b/packages/agent/src/session/session-manager.ts
index 932cbf6..28f835d 100644
--- a/packages/agent/src/session/session-manager.ts
+++ b/packages/agent/src/session/session-manager.ts
@@ -2695,8 +2695,26 @@ export class SessionManager {
 			throw new Error(`Entry ${leafId} not found`);
 		}
 
-		// Filter out LabelEntry from path - we'll recreate them from the resolved map
-		const pathWithoutLabels = path.filter((e) => e.type !== "label");
+		// Filter out LabelEntry from path - we'll recreate them from the resolved map. Entries that hang
+		// from a dropped label, or keep a tail starting at one, move to the neighbouring entry that stays.
+		const pathWithoutLabels: SessionEntry[] = [];
+		const replacementIds = new Map<string, string>();
+		let droppedLabelIds: string[] = [];
+		for (const entry of path) {
+			if (entry.type === "label") {
+				droppedLabelIds.push(entry.id);
+				continue;
+			}
+			for (const id of droppedLabelIds) replacementIds.set(id, entry.id);
+			droppedLabelIds = [];
+			const parentId = pathWithoutLabels[pathWithoutLabels.length - 1]?.id ?? null;
+			const firstKeptEntryId = "firstKeptEntryId" in entry ? replacementIds.get(entry.firstKeptEntryId) : undefined;
+			pathWithoutLabels.push(
+				entry.parentId === parentId && firstKeptEntryId === undefined
+					? entry
+					: ({ ...entry, parentId, ...(firstKeptEntryId ? { firstKeptEntryId } : {}) } as SessionEntry),
+			);
+		}
 
 		const newSessionId = createSessionId();
 		const timestamp = new Date().toISOString();
-- 
2.43.0


From 19667711ecbca9b9753734d397e834e0af2fc829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:46 +0000
Subject: [PATCH 15/68] fix: compact older messages when large tool results end
 the conversation

---
 packages/agent/src/compaction/compaction.ts | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/packages/agent/src/compaction/compaction.ts b/packages/agent/src/compaction/compaction.ts
index be4393a..d24ab6f 100644
--- a/packages/agent/src/compaction/compaction.ts
+++ b/packages/agent/src/compaction/compaction.ts
@@ -624,13 +624,9 @@ export function findCutPoint(
 
 		// Check if we've exceeded the budget
 		if (accumulatedTokens >= keepRecentTokens) {
-			// Find the closest valid cut point at or after this entry
-			for (let c = 0; c < cutPoints.length; c++) {
-				if (cutPoints[c] >= i) {
-					cutIndex = cutPoints[c];
-					break;
-				}
-			}
+			// Find the closest valid cut point at or after this entry. A branch that ends in large tool
+			// results has none: keep those results together with the message that called them.
+			cutIndex = cutPoints.find((cutPoint) => cutPoint >= i) ?? cutPoints[cutPoints.length - 1];
 			break;
 		}
 	}
-- 
2.43.0


From febbea0c66f6027d29f771c627c565a11cac5ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:57 +0000
Subject: [PATCH 16/68] fix: do not bring back messages a session-replacement
 checkpoint dropped

---
 packages/agent/src/compaction/compaction.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/agent/src/compaction/compaction.ts b/packages/agent/src/compaction/compaction.ts
index d24ab6f..95d13bf 100644
--- a/packages/agent/src/compaction/compaction.ts
+++ b/packages/agent/src/compaction/compaction.ts
@@ -1236,12 +1236,20 @@ export function prepareCompaction(
 	let previousSummary: string | undefined;
 	let previousUserFacts: Pick<CompactionFacts, "activeTaskSource" | "prohibitions"> | undefined;
 	let boundaryStart = 0;
+	let replacedOriginalEntry: SessionEntry | undefined;
 	if (prevCompactionIndex >= 0) {
 		const prevCompaction = pathEntries[prevCompactionIndex] as CompactionEntry;
 		previousSummary = prevCompaction.summary;
 		previousUserFacts = readPersistedCompactionUserFacts(prevCompaction.details);
 		const firstKeptEntryIndex = pathEntries.findIndex((entry) => entry.id === prevCompaction.firstKeptEntryId);
-		boundaryStart = firstKeptEntryIndex >= 0 ? firstKeptEntryIndex : prevCompactionIndex + 1;
+		if (prevCompaction.retention?.mode === "original-user") {
+			// Only the original request outlived a session-replacement checkpoint; the entries between the
+			// two are no longer part of the conversation and must be neither summarized again nor kept.
+			replacedOriginalEntry = pathEntries[firstKeptEntryIndex];
+			boundaryStart = prevCompactionIndex + 1;
+		} else {
+			boundaryStart = firstKeptEntryIndex >= 0 ? firstKeptEntryIndex : prevCompactionIndex + 1;
+		}
 	}
 	const boundaryEnd =
 		options?.allowTrailingCompactionAsPrevious && pathEntries[pathEntries.length - 1]?.type === "compaction"
@@ -1296,6 +1304,8 @@ export function prepareCompaction(
 
 	// Messages to summarize (will be discarded after summary)
 	const messagesToSummarize: AgentMessage[] = [];
+	const originalMessage = replacedOriginalEntry && getMessageFromEntryForCompaction(replacedOriginalEntry);
+	if (originalMessage) messagesToSummarize.push(originalMessage);
 	for (let i = boundaryStart; i < historyEnd; i++) {
 		const msg = getMessageFromEntryForCompaction(pathEntries[i]);
 		if (msg) messagesToSummarize.push(msg);
-- 
2.43.0


From 5e0b84b70a461beab70652af43be115cc2efbccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 17/68] fix: keep every rule of the user in a checkpoint even
 when two are alike

---
 packages/agent/src/compaction/verification.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/agent/src/compaction/verification.ts b/packages/agent/src/compaction/verification.ts
index 72c2cb0..10622d9 100644
--- a/packages/agent/src/compaction/verification.ts
+++ b/packages/agent/src/compaction/verification.ts
@@ -529,12 +529,15 @@ function reconcileMandatoryRules(lines: readonly string[], prohibitions: readonl
 			!isCompactionControlEcho(line) &&
 			!textContainsCompactionSentinel(line),
 	);
+	const owned = new Set<number>();
 	for (const rule of prohibitions) {
 		const canonical = `- ${rule}`;
 		const ruleTokens = tokenSet(rule);
 		let bestIndex = -1;
 		let bestScore = 0;
 		for (let i = 0; i < result.length; i++) {
+			// A line another rule already owns is that rule, however similar the two are.
+			if (owned.has(i)) continue;
 			const score = containment(ruleTokens, tokenSet(result[i]));
 			if (score > bestScore) {
 				bestScore = score;
@@ -543,7 +546,9 @@ function reconcileMandatoryRules(lines: readonly string[], prohibitions: readonl
 		}
 		if (bestIndex >= 0 && bestScore >= MANDATORY_RULES_RECALL_THRESHOLD) {
 			result[bestIndex] = canonical;
+			owned.add(bestIndex);
 		} else {
+			owned.add(result.length);
 			result.push(canonical);
 		}
 	}
-- 
2.43.0


From 665a504a2b757768daecc06e26ad425fcd3affc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 18/68] fix: verify a checkpoint whose request holds a bare
 heading mark

---
 packages/agent/src/compaction/verification.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/agent/src/compaction/verification.ts b/packages/agent/src/compaction/verification.ts
index 10622d9..1e56a7c 100644
--- a/packages/agent/src/compaction/verification.ts
+++ b/packages/agent/src/compaction/verification.ts
@@ -578,7 +578,12 @@ function unescapeActiveTaskHeadingLine(line: string): string {
  * markdown heading). Only offending lines are touched, so plain requests render exactly as before.
  */
 function buildActiveTaskLines(source: string): string[] {
-	return `User: ${source}`.replaceAll("\r\n", "\n").split("\n").map(escapeActiveTaskHeadingLine);
+	// Trailing blanks go first, as rendering drops them: a heading mark followed only by blanks is then
+	// not heading-like, and needs no escape that decoding would no longer recognize.
+	return `User: ${source}`
+		.replaceAll("\r\n", "\n")
+		.split("\n")
+		.map((line) => escapeActiveTaskHeadingLine(line.trimEnd()));
 }
 
 function findNextDoneNumber(lines: string[]): number {
-- 
2.43.0


From 521048060aeff64fc8ebdaa0046acfee19bbc62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:03 +0000
Subject: [PATCH 19/68] fix: keep each checkpoint action on one line so a
 command cannot open a section

---
 packages/agent/src/compaction/extraction.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/agent/src/compaction/extraction.ts b/packages/agent/src/compaction/extraction.ts
index d43659f..47c1775 100644
--- a/packages/agent/src/compaction/extraction.ts
+++ b/packages/agent/src/compaction/extraction.ts
@@ -564,7 +564,8 @@ export function extractCompactionFacts(entries: SessionEntry[], start: number, e
 			});
 		}
 
-		actions.push(`${action.verb} ${action.path ?? "(unknown)"}`);
+		// One line per action: a heading inside a multi-line command would end the checkpoint's section.
+		actions.push(`${action.verb} ${action.path?.replace(/\s*[\r\n]\s*/g, " ") ?? "(unknown)"}`);
 	}
 
 	for (const file of filesByPath.values()) {
-- 
2.43.0


From 4f6db0a2bed32c9615291132d26c196fbcb743bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:13 +0000
Subject: [PATCH 20/68] fix: let every event of a flowing stream restart its
 silence limit

---
 packages/agent/src/reliability/watchdogs.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/agent/src/reliability/watchdogs.ts b/packages/agent/src/reliability/watchdogs.ts
index 65834bb..93be812 100644
--- a/packages/agent/src/reliability/watchdogs.ts
+++ b/packages/agent/src/reliability/watchdogs.ts
@@ -309,7 +309,7 @@ export function withStreamIdleWatchdog(
 					latest = partialFromEvent(event);
 					const meaningfulProgress = eventHasMeaningfulProgress(event);
 					if (meaningfulProgress) meaningfulProgressSeen = true;
-					if (!transportConfirmed && !meaningfulProgress) {
+					if (!transportConfirmed && !meaningfulProgressSeen) {
 						markTransportConfirmed();
 					} else if (meaningfulProgressSeen) {
 						const bound = idleBoundFor(latest);
-- 
2.43.0


From 2647ebdd3f87811184001bc618fcce5ad5073e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:14 +0000
Subject: [PATCH 21/68] fix: judge path arguments the way the file tools read
 them

A path bound or credential guard resolved '~', '@', file: URLs, unicode spaces and
surrounding blanks literally while the tools expand them, so such spellings named a
path outside the bounds that the check had seen inside.
---
 .../src/core/autonomy/envelope-enforcement.ts  | 16 +++++++++++++---
 .../core/orchestration/capability-gateway.ts   | 14 ++++++++++++--
 .../core/secrets/credential-exposure-guard.ts  | 17 ++++++++++++-----
 .../coding-agent/src/core/tools/path-utils.ts  | 18 ++++++++++++++++++
 4 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/packages/coding-agent/src/core/autonomy/envelope-enforcement.ts b/packages/coding-agent/src/core/autonomy/envelope-enforcement.ts
index 503fbf2..4a2ed1d 100644
--- a/packages/coding-agent/src/core/autonomy/envelope-enforcement.ts
+++ b/packages/coding-agent/src/core/autonomy/envelope-enforcement.ts
@@ -1,5 +1,6 @@
 import { resolve } from "node:path";
 import { resolveToolCallPathAccess } from "../tool-capability-policy.ts";
+import { resolveToolPathCandidates } from "../tools/path-utils.ts";
 import type { CapabilityEnvelope } from "./contracts.ts";
 import { isPathWithinScope, safeRealpathSync } from "./path-scope.ts";
 
@@ -21,13 +22,13 @@ export function extractPathArguments(params: unknown): string[] {
 	const found: string[] = [];
 	for (const key of PATH_ARGUMENT_KEYS) {
 		const value = record[key];
-		if (typeof value === "string" && value.trim()) found.push(value.trim());
+		if (typeof value === "string" && value.trim()) found.push(value);
 	}
 	for (const key of PATH_LIST_ARGUMENT_KEYS) {
 		const value = record[key];
 		if (Array.isArray(value)) {
 			for (const entry of value) {
-				if (typeof entry === "string" && entry.trim()) found.push(entry.trim());
+				if (typeof entry === "string" && entry.trim()) found.push(entry);
 			}
 		}
 	}
@@ -71,7 +72,16 @@ export function extractToolPathArguments(toolName: string, params: unknown): str
  * denied subtree is still denied. An unresolvable target fails closed.
  */
 export function isPathWithinEnvelope(envelope: CapabilityEnvelope, rawPath: string, cwd: string): boolean {
-	const lexicalTarget = resolve(cwd, rawPath);
+	let candidates: string[];
+	try {
+		candidates = resolveToolPathCandidates(rawPath, cwd);
+	} catch {
+		return false;
+	}
+	return candidates.every((candidate) => isTargetWithinEnvelope(envelope, candidate, cwd));
+}
+
+function isTargetWithinEnvelope(envelope: CapabilityEnvelope, lexicalTarget: string, cwd: string): boolean {
 	const allowed = envelope.allowedPaths ?? [];
 	if (allowed.length > 0) {
 		const couldBeAllowed = allowed.some((root) => {
diff --git a/packages/coding-agent/src/core/orchestration/capability-gateway.ts b/packages/coding-agent/src/core/orchestration/capability-gateway.ts
index 4bc4b96..e6fb1bc 100644
--- a/packages/coding-agent/src/core/orchestration/capability-gateway.ts
+++ b/packages/coding-agent/src/core/orchestration/capability-gateway.ts
@@ -8,6 +8,7 @@ import {
 	resolveToolCallCapabilities,
 	resolveToolCallPathAccess,
 } from "../tool-capability-policy.ts";
+import { resolveToolPathCandidates } from "../tools/path-utils.ts";
 import { validateAttemptUsageSnapshot } from "./attempt-usage.ts";
 import type { AttemptUsageSnapshot, ExecutionGrant, HarnessCapability, ToolCapabilityManifest } from "./contracts.ts";
 
@@ -437,7 +438,16 @@ export class CapabilityGateway {
 
 	private pathAllowed(rawPath: string, allowedPaths: readonly string[]): boolean {
 		if (allowedPaths.length === 0) return false;
-		const lexicalTarget = resolve(this.cwd, rawPath);
+		let candidates: string[];
+		try {
+			candidates = resolveToolPathCandidates(rawPath, this.cwd);
+		} catch {
+			return false;
+		}
+		return candidates.every((candidate) => this.targetAllowed(candidate, allowedPaths));
+	}
+
+	private targetAllowed(lexicalTarget: string, allowedPaths: readonly string[]): boolean {
 		const allowedRoots = allowedPaths.flatMap((allowed) => {
 			const lexicalRoot = resolve(this.cwd, allowed);
 			const realRoot = resolveRealPath(this.cwd, allowed);
@@ -446,7 +456,7 @@ export class CapabilityGateway {
 		if (!allowedRoots.some((root) => isPathWithinScope(lexicalTarget, root))) {
 			return false;
 		}
-		const target = resolveRealPath(this.cwd, rawPath);
+		const target = resolveRealPath(this.cwd, lexicalTarget);
 		if (!target) return false;
 		for (const denied of this.grant.deniedPaths) {
 			const root = resolveRealPath(this.cwd, denied);
diff --git a/packages/coding-agent/src/core/secrets/credential-exposure-guard.ts b/packages/coding-agent/src/core/secrets/credential-exposure-guard.ts
index 67e1e36..d838505 100644
--- a/packages/coding-agent/src/core/secrets/credential-exposure-guard.ts
+++ b/packages/coding-agent/src/core/secrets/credential-exposure-guard.ts
@@ -3,6 +3,7 @@ import { basename, isAbsolute, relative, resolve, sep } from "node:path";
 import { type AgentTool, AgentToolExecutionError, type AgentToolResult } from "@caupulican/pi-agent-core";
 import type { TSchema } from "typebox";
 import { redactKnownSecrets } from "../security/secret-text.ts";
+import { resolveToolPathCandidates } from "../tools/path-utils.ts";
 import { parseShellSearchInvocationScope, type ShellContentSearchTool } from "../tools/search-command-guard.ts";
 import { tokenizeShellCommand } from "../tools/shell-command-parser.ts";
 
@@ -53,13 +54,19 @@ export function isProtectedCredentialPath(
 	cwd: string,
 	boundary?: CredentialExposureBoundary,
 ): boolean {
-	const resolved = resolve(cwd, rawPath);
-	const candidates = [resolved];
+	let candidates: string[];
 	try {
-		const canonical = realpathSync.native(resolved);
-		if (canonical !== resolved) candidates.push(canonical);
+		candidates = resolveToolPathCandidates(rawPath, cwd);
 	} catch {
-		// Nonexistent write targets still receive the lexical filename check.
+		candidates = [resolve(cwd, rawPath)];
+	}
+	for (const resolved of [...candidates]) {
+		try {
+			const canonical = realpathSync.native(resolved);
+			if (!candidates.includes(canonical)) candidates.push(canonical);
+		} catch {
+			// Nonexistent write targets still receive the lexical filename check.
+		}
 	}
 	const protectedFiles = (boundary?.protectedFiles ?? []).map((path) => resolve(path));
 	const protectedDirectories = (boundary?.protectedDirectories ?? []).map((path) => resolve(path));
diff --git a/packages/coding-agent/src/core/tools/path-utils.ts b/packages/coding-agent/src/core/tools/path-utils.ts
index 1f9ab4c..f642b66 100644
--- a/packages/coding-agent/src/core/tools/path-utils.ts
+++ b/packages/coding-agent/src/core/tools/path-utils.ts
@@ -1,5 +1,6 @@
 import { accessSync, constants } from "node:fs";
 import { access } from "node:fs/promises";
+import { resolve } from "node:path";
 import { normalizePath, resolvePath } from "../../utils/paths.ts";
 
 const NARROW_NO_BREAK_SPACE = "\u202F";
@@ -49,6 +50,23 @@ export function resolveToCwd(filePath: string, cwd: string): string {
 	return resolvePath(filePath, cwd, { normalizeUnicodeSpaces: true, stripAtPrefix: true });
 }
 
+/**
+ * Every absolute path a tool may act on for a model-supplied path argument: the literal spelling, with
+ * and without surrounding blanks, the normalized one (`~`, `@`, `file:` URLs, unicode spaces) and the existing variant a read falls back to.
+ * A boundary that admits or refuses path arguments must judge all of them.
+ */
+export function resolveToolPathCandidates(rawPath: string, cwd: string): string[] {
+	return [
+		...new Set(
+			[rawPath, rawPath.trim()].flatMap((spelling) => [
+				resolve(cwd, spelling),
+				resolveToCwd(spelling, cwd),
+				resolveReadPath(spelling, cwd),
+			]),
+		),
+	];
+}
+
 export function resolveReadPath(filePath: string, cwd: string): string {
 	const resolved = resolveToCwd(filePath, cwd);
 
-- 
2.43.0


From 33f1f6197db863f8f2e839cae35e9b59e1e6d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:58 +0000
Subject: [PATCH 22/68] fix: drop tool progress reported after the tool call
 has settled

---
 packages/agent/src/agent-loop.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/agent/src/agent-loop.ts b/packages/agent/src/agent-loop.ts
index daeba65..855c368 100644
--- a/packages/agent/src/agent-loop.ts
+++ b/packages/agent/src/agent-loop.ts
@@ -1439,6 +1439,9 @@ async function executePreparedToolCall(
 	emit: AgentEventSink,
 ): Promise<ExecutedToolCallOutcome> {
 	const updateEvents: Promise<void>[] = [];
+	// Progress belongs to the execution: once it has settled, the call's end (and possibly the run's)
+	// is announced, and a late report from the tool has nowhere left to go.
+	let acceptingUpdates = true;
 
 	try {
 		const result = await prepared.tool.execute(
@@ -1446,6 +1449,7 @@ async function executePreparedToolCall(
 			prepared.args as never,
 			signal,
 			(partialResult) => {
+				if (!acceptingUpdates) return;
 				updateEvents.push(
 					Promise.resolve(
 						emit({
@@ -1459,6 +1463,7 @@ async function executePreparedToolCall(
 				);
 			},
 		);
+		acceptingUpdates = false;
 		await Promise.all(updateEvents);
 		return {
 			result,
@@ -1471,6 +1476,7 @@ async function executePreparedToolCall(
 				: {}),
 		};
 	} catch (error) {
+		acceptingUpdates = false;
 		await Promise.all(updateEvents);
 		const message = error instanceof Error ? error.message : String(error);
 		const toolFailure = error instanceof AgentToolExecutionError ? error : undefined;
-- 
2.43.0


From a33c22f1f88317417dd2eeabedeb6fbc091eda07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:22 +0000
Subject: [PATCH 23/68] fix: keep results of completed tool calls when a later
 wave cannot start

---
 packages/agent/src/agent-loop.ts | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/packages/agent/src/agent-loop.ts b/packages/agent/src/agent-loop.ts
index 855c368..bc29608 100644
--- a/packages/agent/src/agent-loop.ts
+++ b/packages/agent/src/agent-loop.ts
@@ -833,6 +833,14 @@ async function executeToolCallsParallel(
 	toolCalls: AgentToolCall[],
 ): Promise<ExecutedToolCallBatch> {
 	const orderedFinalizedCalls: FinalizedToolCallOutcome[] = [];
+	const messages: ToolResultMessage[] = [];
+	const emitResultMessages = async (): Promise<void> => {
+		for (const finalized of orderedFinalizedCalls) {
+			const toolResultMessage = createToolResultMessage(finalized);
+			await emitToolResultMessage(toolResultMessage, execCtx.emit);
+			messages.push(toolResultMessage);
+		}
+	};
 	let nextIndex = 0;
 	// Account each bounded concurrent wave before launching more calls. This controls concurrency;
 	// admission remains operation-specific and does not stop unrelated work after failures.
@@ -860,7 +868,13 @@ async function executeToolCallsParallel(
 				break;
 			}
 		}
-		await reservePreparedToolCalls(execCtx, preparedWave);
+		try {
+			await reservePreparedToolCalls(execCtx, preparedWave);
+		} catch (error) {
+			// This wave never starts, but the calls of earlier waves have run: their results must not be lost.
+			await emitResultMessages();
+			throw error;
+		}
 
 		const finalizedWave = await Promise.all(
 			wave.map((entry) => (typeof entry === "function" ? entry() : Promise.resolve(entry))),
@@ -871,12 +885,7 @@ async function executeToolCallsParallel(
 		}
 		orderedFinalizedCalls.push(...finalizedWave);
 	}
-	const messages: ToolResultMessage[] = [];
-	for (const finalized of orderedFinalizedCalls) {
-		const toolResultMessage = createToolResultMessage(finalized);
-		await emitToolResultMessage(toolResultMessage, execCtx.emit);
-		messages.push(toolResultMessage);
-	}
+	await emitResultMessages();
 
 	return { messages, terminate: shouldTerminateToolBatch(orderedFinalizedCalls) };
 }
-- 
2.43.0


From 9103a90a7ea80c43a8c6ffe2133af5f5b2a88257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:47 +0000
Subject: [PATCH 24/68] fix: refuse negated globs as a credential-safe search
 scope

---
 .../coding-agent/src/core/secrets/credential-exposure-guard.ts  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/coding-agent/src/core/secrets/credential-exposure-guard.ts b/packages/coding-agent/src/core/secrets/credential-exposure-guard.ts
index d838505..0fc5459 100644
--- a/packages/coding-agent/src/core/secrets/credential-exposure-guard.ts
+++ b/packages/coding-agent/src/core/secrets/credential-exposure-guard.ts
@@ -175,6 +175,8 @@ function jqFilterReadsProcessEnvironment(filter: string): boolean {
 }
 
 function isCredentialSafeGlob(glob: string): boolean {
+	// A negated glob only excludes; the search still scans every other file.
+	if (glob.startsWith("!")) return false;
 	if (/(?:^|[\\/])?\.env(?:\.|\*|$)/i.test(glob)) return false;
 	const filePattern = glob.replace(/\\/g, "/").split("/").at(-1) ?? "";
 	const braceSuffixes = filePattern.match(/\.\{([A-Za-z0-9_-]+(?:,[A-Za-z0-9_-]+)+)\}$/)?.[1];
-- 
2.43.0


From 195eaf3f7c27d5d54c592fb8a91fede313d5068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:49 +0000
Subject: [PATCH 25/68] fix: judge input redirect targets of shell inspection
 commands as credential paths

---
 .../core/secrets/credential-exposure-guard.ts | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/packages/coding-agent/src/core/secrets/credential-exposure-guard.ts b/packages/coding-agent/src/core/secrets/credential-exposure-guard.ts
index 0fc5459..6826d64 100644
--- a/packages/coding-agent/src/core/secrets/credential-exposure-guard.ts
+++ b/packages/coding-agent/src/core/secrets/credential-exposure-guard.ts
@@ -103,6 +103,7 @@ function shellCredentialRisk(
 
 	const assessInvocation = (
 		invocation: string[],
+		inputFiles: string[],
 		readsPipe: boolean,
 	): "broad_search" | "credential_path" | "process_environment" | undefined => {
 		for (let commandIndex = 0; commandIndex < invocation.length; commandIndex++) {
@@ -112,6 +113,7 @@ function shellCredentialRisk(
 				if (filter && jqFilterReadsProcessEnvironment(filter)) return "process_environment";
 			}
 			if (!SHELL_INSPECTION_COMMANDS.has(toolName)) continue;
+			if (inputFiles.some((path) => isProtectedCredentialPath(path, cwd, boundary))) return "credential_path";
 			const args = invocation.slice(commandIndex + 1);
 			const searchTool: ShellContentSearchTool | undefined =
 				toolName === "rg" || toolName === "ripgrep" ? "rg" : toolName === "grep" ? "grep" : undefined;
@@ -129,27 +131,36 @@ function shellCredentialRisk(
 	};
 
 	let invocation: string[] = [];
+	let inputFiles: string[] = [];
 	let skipRedirectTarget = false;
+	let readsInput = false;
 	let readsPipe = false;
-	for (const token of shellTokens) {
+	for (const [index, token] of shellTokens.entries()) {
 		if (token.kind === "arg") {
-			if (skipRedirectTarget) skipRedirectTarget = false;
-			else invocation.push(token.value);
+			if (!skipRedirectTarget) invocation.push(token.value);
+			else if (readsInput) inputFiles.push(token.value);
+			skipRedirectTarget = false;
 			continue;
 		}
 		if (token.kind === "redirect") {
+			// `< file` (and `<> file`) is read like an operand; `<<` and `<<<` carry inline text.
+			const previous = shellTokens[index - 1];
+			readsInput =
+				(token.value === "<" && !(previous?.kind === "redirect" && previous.value === "<<")) ||
+				(token.value === ">" && previous?.kind === "redirect" && previous.value === "<");
 			// Descriptor duplication (`2>&1`) has no following path operand. Other
 			// redirects do, and that target must never count as search scope.
 			skipRedirectTarget = !/^\d*[<>]&[\d-]+$/u.test(token.value);
 			continue;
 		}
-		const risk = assessInvocation(invocation, readsPipe);
+		const risk = assessInvocation(invocation, inputFiles, readsPipe);
 		if (risk) return risk;
 		invocation = [];
+		inputFiles = [];
 		skipRedirectTarget = false;
 		readsPipe = token.kind === "pipe";
 	}
-	return assessInvocation(invocation, readsPipe);
+	return assessInvocation(invocation, inputFiles, readsPipe);
 }
 
 function jqFilterFromArgs(args: string[]): string | undefined {
-- 
2.43.0


From 819f16c523efe01fc7d37c037d0b0bfad87b84b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:32 +0000
Subject: [PATCH 26/68] fix: drop an earlier tool result from the request only
 when a later one is the same

---
 packages/agent/src/tool-failure-memory.ts | 27 ++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/packages/agent/src/tool-failure-memory.ts b/packages/agent/src/tool-failure-memory.ts
index 35d5e62..42f6277 100644
--- a/packages/agent/src/tool-failure-memory.ts
+++ b/packages/agent/src/tool-failure-memory.ts
@@ -937,9 +937,15 @@ function firstText(message: ToolResultMessage): string {
 	return "";
 }
 
-function fastTextSignature(text: string): string {
-	if (text.length <= 128) return text;
-	return `${text.length}:${text.slice(0, 48)}:${text.slice(-48)}`;
+/** The whole of a text-only result; undefined when other content (an image) sets results with equal text apart. */
+function textOnlyPayload(message: ToolResultMessage): string | undefined {
+	const blocks = Array.isArray(message.content) ? message.content : [];
+	const texts: string[] = [];
+	for (const block of blocks) {
+		if (block.type !== "text") return undefined;
+		texts.push(block.text);
+	}
+	return texts.join("\n");
 }
 
 function analyzeToolFailureContext(messages: AgentMessage[]): FailureContextAnalysis {
@@ -1069,18 +1075,19 @@ function analyzeToolFailureContext(messages: AgentMessage[]): FailureContextAnal
 		}
 
 		if (call) {
-			const opKey = getToolFailureKey(call.name, call.arguments);
-			active.delete(opKey);
+			active.delete(getToolFailureKey(call.name, call.arguments));
+			// Only the exact operation supersedes an earlier success: two commits, ids or timestamps share a
+			// volatile-normalized failure key and still name different results.
+			const opKey = getToolExecutionKey(call.name, call.arguments);
 			const previousOperationCallId = latestSuccessfulByOpKey.get(opKey);
 			if (previousOperationCallId) omittedCallIds.add(previousOperationCallId);
 			latestSuccessfulByOpKey.set(opKey, call.id);
 
-			const textPayload = firstText(message);
-			if (textPayload.length >= 64) {
-				const payloadKey = `payload:${fastTextSignature(textPayload)}`;
-				const previousPayloadCallId = latestSuccessfulByPayloadKey.get(payloadKey);
+			const payload = textOnlyPayload(message);
+			if (payload !== undefined && payload.length >= 64) {
+				const previousPayloadCallId = latestSuccessfulByPayloadKey.get(payload);
 				if (previousPayloadCallId) omittedCallIds.add(previousPayloadCallId);
-				latestSuccessfulByPayloadKey.set(payloadKey, call.id);
+				latestSuccessfulByPayloadKey.set(payload, call.id);
 			}
 		}
 	}
-- 
2.43.0


From 312288307825101defae9e542260ff83d3247241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:33 +0000
Subject: [PATCH 27/68] fix: do not take a successful tool result for a failure
 because of its text

---
 packages/agent/src/tool-failure-memory.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/agent/src/tool-failure-memory.ts b/packages/agent/src/tool-failure-memory.ts
index 42f6277..8501415 100644
--- a/packages/agent/src/tool-failure-memory.ts
+++ b/packages/agent/src/tool-failure-memory.ts
@@ -996,13 +996,16 @@ function analyzeToolFailureContext(messages: AgentMessage[]): FailureContextAnal
 			if (call) active.delete(getToolFailureKey(call.name, call.arguments));
 			continue;
 		}
-		const isHarnessFailure = message.isError === true || textPayload.startsWith("[harness] ");
+		const directive = readFailureDirective(message.details);
+		const retained = readFailureRecord(message.details);
+		// The text alone never makes a failure: a successful result may begin with a repair note or quote one.
+		const isHarnessFailure =
+			message.isError === true || (textPayload.startsWith("[harness] ") && (directive ?? retained) !== undefined);
 		if (isHarnessFailure) {
 			const toolName = call?.name ?? message.toolName;
 			const kindCount = (kindMistakesMap.get(toolName) ?? 0) + 1;
 			kindMistakesMap.set(toolName, kindCount);
 
-			const directive = readFailureDirective(message.details);
 			if (directive) {
 				activeDirectives.delete(directive.failureCode);
 				activeDirectives.set(directive.failureCode, directive);
@@ -1013,7 +1016,6 @@ function analyzeToolFailureContext(messages: AgentMessage[]): FailureContextAnal
 				else omittedResults.add(message);
 				continue;
 			}
-			const retained = readFailureRecord(message.details);
 			const state = retained?.state ?? "failed";
 			const assessment = retained ? undefined : assessToolFailure(textPayload, state);
 			let failureKey: string;
-- 
2.43.0


From 92f7beede1b0960347e0f767bec8f0e96aae0431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:34 +0000
Subject: [PATCH 28/68] fix: open credential source paths without the blanks
 the path gate ignores

---
 .../src/core/secrets/credential-migration-source.ts             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/coding-agent/src/core/secrets/credential-migration-source.ts b/packages/coding-agent/src/core/secrets/credential-migration-source.ts
index b0903e1..d07078d 100644
--- a/packages/coding-agent/src/core/secrets/credential-migration-source.ts
+++ b/packages/coding-agent/src/core/secrets/credential-migration-source.ts
@@ -48,7 +48,7 @@ async function readBoundedCredentialFile(
 	if (rawPath.length === 0 || rawPath.length > MAX_SOURCE_PATH_CHARS || rawPath.includes("\0")) {
 		throw new CredentialMigrationSourceError("invalid_source", "Credential source path is invalid.");
 	}
-	const path = resolve(cwd, rawPath);
+	const path = resolve(cwd, rawPath.trim());
 	let handle: Awaited<ReturnType<typeof open>>;
 	try {
 		handle = await open(path, "r");
-- 
2.43.0


From fbbd78d2eb44d0a5d308487f49bddcd1d492baaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:34 +0000
Subject: [PATCH 29/68] fix: hold git rebase and stash for approval when git -C
 names the repository

---
 packages/coding-agent/src/core/risk-classifier.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/coding-agent/src/core/risk-classifier.ts b/packages/coding-agent/src/core/risk-classifier.ts
index a4f8e89..7d57355 100644
--- a/packages/coding-agent/src/core/risk-classifier.ts
+++ b/packages/coding-agent/src/core/risk-classifier.ts
@@ -21,7 +21,7 @@ const TEST_VALIDATION_RE = /\b(test|testing|validation|lint|vitest|jest|run)\b/i
 const IMPLEMENT_RE = /\b(implement|fix|apply|change|update|create|write|generate|modify|edit|patch|add)\b/i;
 const DESTRUCTIVE_CMD_RE =
 	/\b(rm(\s+-r|\s+-f|\s+-rf|\s+-fr)?|mv|cp|chmod|chown|install)\b|>\s*\/dev\/(sda|hda|vda)|\b(dd\s+if=)/i;
-const GIT_APPROVAL_CMD_RE = /\bgit\s+(push|reset|clean|stash|rebase)\b/i;
+const GIT_APPROVAL_CMD_RE = /\bgit(?:\s+-C\s+\S+)?\s+(push|reset|clean|stash|rebase)\b/i;
 const GIT_LOCAL_COMMIT_CMD_RE = /^\s*git(?:\s+-C\s+\S+)?\s+commit(?:\s|$)/i;
 const GIT_COMMIT_HISTORY_RE = /(?:^|\s)--amend(?:\s|$)/i;
 const GIT_AMEND_CMD_RE = /\bgit(?:\s+-C\s+\S+)?\s+commit\s(?:[^\n]*\s)?--amend(?![\w-])/i;
-- 
2.43.0


From 01cebfc1f334b9196b1fb8a6e33879e5398ed6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 30/68] fix: leave room for the omission marker and its
 separators within the byte limit

---
 packages/agent/src/utils/truncate.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/agent/src/utils/truncate.ts b/packages/agent/src/utils/truncate.ts
index 56795f9..3ca163a 100644
--- a/packages/agent/src/utils/truncate.ts
+++ b/packages/agent/src/utils/truncate.ts
@@ -253,7 +253,8 @@ function allocateHeadTailBudgets(
 	totalBytes: number,
 ): HeadTailBudgets {
 	const probeMarker = formatMiddleOmissionMarker(totalLines, totalBytes);
-	const markerBudget = Buffer.byteLength(probeMarker, "utf-8") + 1;
+	// Two separators, and a size just below a unit prints up to three characters longer than the unit.
+	const markerBudget = Buffer.byteLength(probeMarker, "utf-8") + 5;
 	const usableBytes = Math.max(1, maxBytes - markerBudget);
 	const headLineBudget = Math.max(1, Math.floor((maxLines - 1) * 0.75));
 	const tailLineBudget = Math.max(1, maxLines - 1 - headLineBudget);
-- 
2.43.0


From a3d1dc56f5feb54aca4cdb5d550d56b08181b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:04 +0000
Subject: [PATCH 31/68] fix: say where lines are left out when a known head and
 tail do not fit together

---
 packages/agent/src/utils/truncate.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/agent/src/utils/truncate.ts b/packages/agent/src/utils/truncate.ts
index 3ca163a..404247a 100644
--- a/packages/agent/src/utils/truncate.ts
+++ b/packages/agent/src/utils/truncate.ts
@@ -398,7 +398,13 @@ export function truncateKnownHeadTail(
 	);
 	return (
 		composeHeadTailResult(measurement, head, tail, omittedLines, omittedBytes) ??
-		truncateHead([...headLines, ...tailLines].join("\n"), options)
+		completedTruncationResult(
+			measurement,
+			headLines.length > 0
+				? takePrefixLines(headLines, maxLines, maxBytes)
+				: takeSuffixLines(tailLines, maxLines, maxBytes, 0),
+			totals.totalBytes > maxBytes ? "bytes" : "lines",
+		)
 	);
 }
 
-- 
2.43.0


From e4479c79d21d7b7444a1f91faddab428999a9ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:04 +0000
Subject: [PATCH 32/68] fix: show only unbroken runs of complete first and last
 lines of a long output

---
 .../src/core/tools/output-accumulator.ts      | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/packages/coding-agent/src/core/tools/output-accumulator.ts b/packages/coding-agent/src/core/tools/output-accumulator.ts
index 0d37456..bb73d06 100644
--- a/packages/coding-agent/src/core/tools/output-accumulator.ts
+++ b/packages/coding-agent/src/core/tools/output-accumulator.ts
@@ -97,6 +97,7 @@ export class OutputAccumulator {
 	private rawChunks: Buffer[] = [];
 	private headLines: string[] = [];
 	private headStoredBytes = 0;
+	private headClosed = false;
 	private tailLines: string[] = [];
 	private tailLineBytes: number[] = [];
 	private tailLineStoredBytes: number[] = [];
@@ -288,7 +289,7 @@ export class OutputAccumulator {
 	private pushCompletedCurrentLine(): void {
 		this.completedLines++;
 		this.lastCompletedLineBytes = this.currentLineBytes;
-		this.recordHeadLine(this.currentLineText, this.currentLineStoredBytes);
+		this.recordHeadLine(this.currentLineText, this.currentLineBytes);
 		this.tailLines.push(this.currentLineText);
 		this.tailLineBytes.push(this.currentLineBytes);
 		this.tailLineStoredBytes.push(this.currentLineStoredBytes);
@@ -300,12 +301,16 @@ export class OutputAccumulator {
 		this.trimStoredTail();
 	}
 
-	private recordHeadLine(text: string, storedBytes: number): void {
-		if (this.headLines.length >= this.maxLines) return;
+	/** The head is the unbroken run of complete first lines: it ends at the first line that does not fit. */
+	private recordHeadLine(text: string, lineBytes: number): void {
+		if (this.headClosed) return;
 		const separatorBytes = this.headLines.length > 0 ? 1 : 0;
-		if (this.headStoredBytes + storedBytes + separatorBytes > this.maxBytes) return;
+		if (this.headLines.length >= this.maxLines || this.headStoredBytes + lineBytes + separatorBytes > this.maxBytes) {
+			this.headClosed = true;
+			return;
+		}
 		this.headLines.push(text);
-		this.headStoredBytes += storedBytes + separatorBytes;
+		this.headStoredBytes += lineBytes + separatorBytes;
 	}
 
 	private trimStoredTail(): void {
@@ -326,8 +331,12 @@ export class OutputAccumulator {
 		return this.tailLines.length - this.tailStart;
 	}
 
+	/** The unbroken run of complete last lines; a line of which only the end was kept is not one of them. */
 	private retainedTailLines(): string[] {
-		const lines = this.tailLines.slice(this.tailStart);
+		if (this.hasOpenLine && this.currentLineBytes !== this.currentLineStoredBytes) return [];
+		let start = this.tailLines.length;
+		while (start > this.tailStart && this.tailLineBytes[start - 1] === this.tailLineStoredBytes[start - 1]) start--;
+		const lines = this.tailLines.slice(start);
 		if (this.hasOpenLine) lines.push(this.currentLineText);
 		return lines;
 	}
@@ -338,9 +347,11 @@ export class OutputAccumulator {
 			return tailSnapshot;
 		}
 
+		const tailLines = this.retainedTailLines();
+		if (tailLines.length === 0) return tailSnapshot;
 		const truncation = truncateKnownHeadTail(
 			this.headLines,
-			this.retainedTailLines(),
+			tailLines,
 			{ totalLines: this.totalLines, totalBytes: this.totalDecodedBytes },
 			{ maxLines, maxBytes },
 		);
-- 
2.43.0


From 03b62a8157947e9ae7549a5e343f119f17fccb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:12 +0000
Subject: [PATCH 33/68] fix: continue a filtered read after the last line that
 was read

---
 packages/coding-agent/src/core/tools/read.ts | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/packages/coding-agent/src/core/tools/read.ts b/packages/coding-agent/src/core/tools/read.ts
index a1674e9..76a89d4 100644
--- a/packages/coding-agent/src/core/tools/read.ts
+++ b/packages/coding-agent/src/core/tools/read.ts
@@ -539,7 +539,8 @@ export function createReadToolDefinition(
 										originalIndex: item.originalIndex,
 									}));
 								}
-								const firstSelectedLineText = slicedLines[0]?.text ?? "";
+								// Filtering drops lines, so continuation goes by the file's own line numbers.
+								const lastSelectedLine = slicedLines[slicedLines.length - 1]?.originalIndex ?? startLine;
 
 								// Safe text filtering
 								let canFilter = !projectSessionTranscript;
@@ -614,6 +615,7 @@ export function createReadToolDefinition(
 									}
 								}
 
+								const firstShownLine = slicedLines[0];
 								const finalLines = slicedLines.map((item) =>
 									lineNumbers ? `${item.originalIndex}: ${item.text}` : item.text,
 								);
@@ -628,12 +630,15 @@ export function createReadToolDefinition(
 										: `a ${fileSize !== undefined ? formatSize(fileSize) : "large"} file`;
 								if (truncation.firstLineExceedsLimit) {
 									// First line alone exceeds the byte limit. Point the model at a bash fallback.
-									const firstLineSize = formatSize(Buffer.byteLength(firstSelectedLineText, "utf-8"));
-									outputText = `[Line ${startLineDisplay} is ${firstLineSize}, exceeds ${formatSize(DEFAULT_MAX_BYTES)} limit. Use bash: sed -n '${startLineDisplay}p' ${path} | head -c ${DEFAULT_MAX_BYTES}]`;
+									const firstLineDisplay = firstShownLine?.originalIndex ?? startLineDisplay;
+									const firstLineSize = formatSize(Buffer.byteLength(firstShownLine?.text ?? "", "utf-8"));
+									outputText = `[Line ${firstLineDisplay} is ${firstLineSize}, exceeds ${formatSize(DEFAULT_MAX_BYTES)} limit. Use bash: sed -n '${firstLineDisplay}p' ${path} | head -c ${DEFAULT_MAX_BYTES}]`;
 									details = { truncation };
 								} else if (truncation.truncated) {
 									// Truncation occurred. Build an actionable continuation notice.
-									const endLineDisplay = startLineDisplay + truncation.outputLines - 1;
+									const endLineDisplay =
+										slicedLines[truncation.outputLines - 1]?.originalIndex ??
+										startLineDisplay + truncation.outputLines - 1;
 									const nextOffset = endLineDisplay + 1;
 									outputText = truncation.content;
 									if (truncation.truncatedBy === "lines") {
@@ -644,7 +649,7 @@ export function createReadToolDefinition(
 									details = { truncation };
 								} else if (moreContentRemains) {
 									// More content exists beyond this slice; hand the model a continuation pointer.
-									const nextOffset = startLine + slicedLines.length + 1;
+									const nextOffset = lastSelectedLine + 1;
 									const remaining =
 										totalFileLines !== undefined && userLimitedLines !== undefined
 											? `${totalFileLines - (startLine + userLimitedLines)} more lines in file`
-- 
2.43.0


From c5abb732a05da174e296c4cbdf57ac72b21380ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:14 +0000
Subject: [PATCH 34/68] fix: store the replacement of a remembered text as
 written, also with dollar signs

---
 .../coding-agent/src/core/memory/providers/file-store.ts   | 2 +-
 .../src/core/memory/providers/user-memory-archive.ts       | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/coding-agent/src/core/memory/providers/file-store.ts b/packages/coding-agent/src/core/memory/providers/file-store.ts
index b4ee0ad..11ac99b 100644
--- a/packages/coding-agent/src/core/memory/providers/file-store.ts
+++ b/packages/coding-agent/src/core/memory/providers/file-store.ts
@@ -886,7 +886,7 @@ export class FileStoreProvider implements MemoryProvider {
 								if (!currentOnDisk.includes(oldContent)) {
 									throw new Error(`The content to replace ('oldContent') was not found in the file.`);
 								}
-								newContent = currentOnDisk.replace(oldContent, content);
+								newContent = currentOnDisk.replace(oldContent, () => content);
 							} else if (action === "remove") {
 								if (oldContent === undefined) {
 									throw new Error("Parameter 'oldContent' is required for action 'remove'.");
diff --git a/packages/coding-agent/src/core/memory/providers/user-memory-archive.ts b/packages/coding-agent/src/core/memory/providers/user-memory-archive.ts
index 5897e46..9247dfe 100644
--- a/packages/coding-agent/src/core/memory/providers/user-memory-archive.ts
+++ b/packages/coding-agent/src/core/memory/providers/user-memory-archive.ts
@@ -112,7 +112,7 @@ export class UserMemoryArchive {
 		} else {
 			const replacement = action.action === "replace" ? action.content : "";
 			if (active.includes(action.oldContent)) {
-				active = active.replace(action.oldContent, replacement);
+				active = active.replace(action.oldContent, () => replacement);
 			} else if (await this.replaceArchivedFact(action.oldContent, replacement)) {
 				archiveChanged = true;
 			} else {
@@ -272,7 +272,10 @@ export class UserMemoryArchive {
 	private async replaceArchivedFact(oldContent: string, replacement: string): Promise<boolean> {
 		for (const shard of await this.shardFiles()) {
 			if (!shard.body.includes(oldContent)) continue;
-			await this.writeShard(shard, shard.body.replace(oldContent, replacement));
+			await this.writeShard(
+				shard,
+				shard.body.replace(oldContent, () => replacement),
+			);
 			return true;
 		}
 		return false;
-- 
2.43.0


From deb7f9c9899fc1952d03a9d1f6864a0357fa5992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:15 +0000
Subject: [PATCH 35/68] fix: show the summarizer the facts block as it is, also
 with dollar signs or braces

---
 packages/agent/src/compaction/compaction.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/agent/src/compaction/compaction.ts b/packages/agent/src/compaction/compaction.ts
index 95d13bf..5988fda 100644
--- a/packages/agent/src/compaction/compaction.ts
+++ b/packages/agent/src/compaction/compaction.ts
@@ -979,7 +979,9 @@ export async function generateSummaryWithUsage(
 }
 
 function fillPromptTemplate(template: string, factsBlock: string, budget: number): string {
-	return template.replaceAll("{FACTS_BLOCK}", factsBlock).replaceAll("{BUDGET}", String(budget));
+	return template.replace(/\{(FACTS_BLOCK|BUDGET)\}/g, (_match, name) =>
+		name === "BUDGET" ? String(budget) : factsBlock,
+	);
 }
 
 const SUMMARY_BUDGET_BASE_TOKENS = 1_500;
-- 
2.43.0


From 62ebaccf3a2c0a00229bce00a3f6dae2a8f1fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:15 +0000
Subject: [PATCH 36/68] fix: read back structured memory records as large as
 the field limits allow

---
 .../coding-agent/src/core/memory/okf-project-memory-store.ts   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/coding-agent/src/core/memory/okf-project-memory-store.ts b/packages/coding-agent/src/core/memory/okf-project-memory-store.ts
index 1550fa1..baf00ba 100644
--- a/packages/coding-agent/src/core/memory/okf-project-memory-store.ts
+++ b/packages/coding-agent/src/core/memory/okf-project-memory-store.ts
@@ -14,7 +14,8 @@ import { getDirectoryResourceProfileInfo } from "../settings-manager.ts";
 import { isMissingFileError, withFileLock, writeFileAtomic } from "../util/atomic-file.ts";
 import { readBoundedTextFile } from "../util/bounded-file.ts";
 
-const MAX_OKF_DOCUMENT_BYTES = 16_384;
+/** Above the largest document the field limits allow, so that what was stored can be read and removed again. */
+const MAX_OKF_DOCUMENT_BYTES = 262_144;
 
 function digest(content: string): string {
 	return createHash("sha256").update(content, "utf8").digest("hex");
-- 
2.43.0


From 03d87ea213a048cd1dc2cdb9cfbd75d33cf539c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:31 +0000
Subject: [PATCH 37/68] fix: salvage only whole values from malformed argument
 text

---
 packages/ai/src/utils/tool-repair/repairer.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/ai/src/utils/tool-repair/repairer.ts b/packages/ai/src/utils/tool-repair/repairer.ts
index af16f6a..68c7830 100644
--- a/packages/ai/src/utils/tool-repair/repairer.ts
+++ b/packages/ai/src/utils/tool-repair/repairer.ts
@@ -160,6 +160,10 @@ function getSalvageMatchers(
 	return matchers;
 }
 
+// What may follow a complete value: the next property (with or without its comma) or the end of the object.
+// Anything else means the token is only part of a value, such as text cut at an unescaped quote.
+const AFTER_COMPLETE_VALUE = /^(?!\w)\s*(?:,?\s*(?:"[A-Za-z_][\w-]*"|[A-Za-z_][\w-]*)\s*:|,?\s*\}\s*$)/;
+
 function salvageDeclaredObjectProperties(value: string, schema: JsonSchemaObject): Record<string, unknown> | undefined {
 	const properties = schema.properties;
 	if (!properties) return undefined;
@@ -171,8 +175,11 @@ function salvageDeclaredObjectProperties(value: string, schema: JsonSchemaObject
 	for (const [key, pattern] of matchers) {
 		const matches = [...normalized.matchAll(pattern)];
 		if (matches.length > 1) return undefined;
-		const token = matches[0]?.[1];
+		const match = matches[0];
+		const token = match?.[1];
 		if (token === undefined) continue;
+		const rest = normalized.slice(match.index + match[0].length);
+		if (!AFTER_COMPLETE_VALUE.test(rest)) return undefined;
 		const parsed = parseJsonLiteralToken(token);
 		if (parsed === undefined && token !== "null") return undefined;
 		salvaged[key] = parsed;
-- 
2.43.0


From 24b9d203f195d8fd0c0137e30b159c87c9196128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:31 +0000
Subject: [PATCH 38/68] fix: join argument lists to a command only when the
 words stay the same words

---
 packages/ai/src/utils/tool-repair/repairer.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/ai/src/utils/tool-repair/repairer.ts b/packages/ai/src/utils/tool-repair/repairer.ts
index 68c7830..e2cf03c 100644
--- a/packages/ai/src/utils/tool-repair/repairer.ts
+++ b/packages/ai/src/utils/tool-repair/repairer.ts
@@ -28,6 +28,9 @@ export interface AppliedToolRepair {
  */
 export const MAX_REPAIR_PASSES = 3;
 
+/** Argv words that mean the same once joined into one command line; others would need shell-specific quoting. */
+const PLAIN_SHELL_WORD = /^(?!#)[^\s"'`$\\;&|<>()]+$/;
+
 const bashCommandWrapperKeys = new Set(["cmd", "command", "script"]);
 
 export interface ToolRepairResult {
@@ -282,7 +285,9 @@ function transformValue(
 		case "nullRequiredBounce":
 			return undefined;
 		case "bashCommandArgvJoin":
-			return Array.isArray(issue.value) && issue.value.every((item) => typeof item === "string")
+			return Array.isArray(issue.value) &&
+				issue.value.every((item) => typeof item === "string") &&
+				(issue.value.length === 1 || issue.value.every((item) => PLAIN_SHELL_WORD.test(item)))
 				? { type: "set", value: issue.value.join(" ") }
 				: undefined;
 		case "bashCommandUnwrap": {
-- 
2.43.0


From d5a39a11084fadab805e86c3e02a635f1a9abcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:09 +0000
Subject: [PATCH 39/68] fix: reload task state whose cancelled attempt still
 has an open approval

---
 .../coding-agent/src/core/orchestration/task-runtime-codecs.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts b/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts
index 5717de8..ec06ca0 100644
--- a/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts
+++ b/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts
@@ -1672,7 +1672,8 @@ function validateSnapshotTaskGraph(state: TaskRuntimeProjection): void {
 		if (request.attemptId && attempt?.taskId !== request.taskId) {
 			throw new DurableTaskRuntimeError(`${label} approval '${approvalId}' has a cross-task attempt.`);
 		}
-		if (approval.status === "pending" && attempt && (attempt.status !== "queued" || attempt.grantId)) {
+		const awaitsPolicy = !attempt || attempt.status === "queued" || terminalAttemptStatus(attempt.status);
+		if (approval.status === "pending" && (!awaitsPolicy || attempt?.grantId)) {
 			throw new DurableTaskRuntimeError(`${label} pending approval '${approvalId}' no longer awaits policy.`);
 		}
 		const notification = state.notifications[`approval-requested:${approvalId}`];
-- 
2.43.0


From 9cf7e4bdb56f49344d0e8ba196b9d9d8563620cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:23 +0000
Subject: [PATCH 40/68] fix: reload an objective whose owner removed a
 criterion that had evidence

---
 .../src/core/orchestration/task-runtime-codecs.ts            | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts b/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts
index ec06ca0..aa9b3f7 100644
--- a/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts
+++ b/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts
@@ -486,11 +486,6 @@ function objectiveRuntimeStateFromValue(value: unknown, label: string): Objectiv
 			throw new DurableTaskRuntimeError(`${label}.evidence contains duplicate id '${item.evidenceId}'.`);
 		}
 		evidenceIds.add(item.evidenceId);
-		if (item.criterionId && !objective.acceptanceCriteria.some((criterion) => criterion.id === item.criterionId)) {
-			throw new DurableTaskRuntimeError(
-				`${label}.evidence references unknown acceptance criterion '${item.criterionId}'.`,
-			);
-		}
 	}
 	return {
 		objective,
-- 
2.43.0


From 38e5e4e0fd31d9b15570d6a3afac193451cba7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:49 +0000
Subject: [PATCH 41/68] fix: reload task state recorded while the clock was set
 back

---
 .../core/orchestration/task-runtime-codecs.ts | 21 +------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts b/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts
index aa9b3f7..b6eb411 100644
--- a/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts
+++ b/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts
@@ -776,9 +776,6 @@ function attemptRuntimeStateFromValue(value: unknown, label: string): AttemptRun
 	const grant = attempt.grant === undefined ? undefined : executionGrantFromValue(attempt.grant, `${label}.grant`);
 	const createdAt = isoDate(attempt.createdAt, `${label}.createdAt`);
 	const updatedAt = isoDate(attempt.updatedAt, `${label}.updatedAt`);
-	if (Date.parse(updatedAt) < Date.parse(createdAt)) {
-		throw new DurableTaskRuntimeError(`${label}.updatedAt is before createdAt.`);
-	}
 	return {
 		attemptId: dispatchIdentifier(attempt.attemptId, `${label}.attemptId`),
 		taskId: dispatchIdentifier(attempt.taskId, `${label}.taskId`),
@@ -1171,9 +1168,6 @@ function normalizeAgentBinding(value: unknown, label: string): AgentBindingContr
 	}
 	const createdAt = isoDate(agent.createdAt, `${label}.createdAt`);
 	const updatedAt = isoDate(agent.updatedAt, `${label}.updatedAt`);
-	if (Date.parse(updatedAt) < Date.parse(createdAt)) {
-		throw new DurableTaskRuntimeError(`${label}.updatedAt is before createdAt.`);
-	}
 	return {
 		schemaVersion: ORCHESTRATION_SCHEMA_VERSION,
 		agentId,
@@ -1289,9 +1283,6 @@ function approvalRuntimeStateFromValue(value: unknown, label: string): ApprovalR
 	) {
 		throw new DurableTaskRuntimeError(`${label} resolution does not match its approval state.`);
 	}
-	if (resolution && Date.parse(resolution.resolvedAt) < Date.parse(request.createdAt)) {
-		throw new DurableTaskRuntimeError(`${label} resolution predates its request.`);
-	}
 	return { request, status, ...(resolution ? { resolution } : {}) };
 }
 
@@ -1315,9 +1306,6 @@ function notificationRuntimeStateFromValue(value: unknown, label: string): Notif
 	if ((status === "delivered") !== Boolean(deliveredAt)) {
 		throw new DurableTaskRuntimeError(`${label} delivery status is inconsistent.`);
 	}
-	if (deliveredAt && Date.parse(deliveredAt) < Date.parse(createdAt)) {
-		throw new DurableTaskRuntimeError(`${label}.deliveredAt predates createdAt.`);
-	}
 	return {
 		notificationId: dispatchIdentifier(notification.notificationId, `${label}.notificationId`),
 		objectiveId: dispatchIdentifier(notification.objectiveId, `${label}.objectiveId`),
@@ -1388,9 +1376,6 @@ function validateSnapshotTaskGraph(state: TaskRuntimeProjection): void {
 		if (objectiveState.objective.objectiveId !== objectiveId) {
 			throw new DurableTaskRuntimeError(`${label} objective '${objectiveId}' has a mismatched id.`);
 		}
-		if (Date.parse(objectiveState.objective.updatedAt) < Date.parse(objectiveState.objective.createdAt)) {
-			throw new DurableTaskRuntimeError(`${label} objective '${objectiveId}' has invalid lifecycle dates.`);
-		}
 		for (const taskId of objectiveState.taskIds) {
 			const existingOwner = taskObjectiveOwners.get(taskId);
 			if (existingOwner) {
@@ -1417,9 +1402,6 @@ function validateSnapshotTaskGraph(state: TaskRuntimeProjection): void {
 		if (taskObjectiveOwners.get(taskId) !== taskState.task.objectiveId) {
 			throw new DurableTaskRuntimeError(`${label} task '${taskId}' is missing from its objective task list.`);
 		}
-		if (Date.parse(taskState.task.updatedAt) < Date.parse(taskState.task.createdAt)) {
-			throw new DurableTaskRuntimeError(`${label} task '${taskId}' has invalid lifecycle dates.`);
-		}
 		const criterionIds = new Set(objectiveState.objective.acceptanceCriteria.map((criterion) => criterion.id));
 		const unknownCriteria = taskState.task.acceptanceCriterionIds.filter(
 			(criterionId) => !criterionIds.has(criterionId),
@@ -1591,8 +1573,7 @@ function validateSnapshotTaskGraph(state: TaskRuntimeProjection): void {
 			!attempt ||
 			checkpointAttemptOwners.get(checkpointId) !== checkpoint.attemptId ||
 			!attempt.lease ||
-			checkpoint.fencingToken > attempt.lease.fencingToken ||
-			Date.parse(checkpoint.createdAt) < Date.parse(attempt.createdAt)
+			checkpoint.fencingToken > attempt.lease.fencingToken
 		) {
 			throw new DurableTaskRuntimeError(`${label} checkpoint '${checkpointId}' has invalid ownership.`);
 		}
-- 
2.43.0


From 585dd58c61c673168eb1a87d8de4619abd1cd17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:49 +0000
Subject: [PATCH 42/68] fix: fail a task again after it was retried

---
 packages/coding-agent/src/core/orchestration/task-runtime.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/coding-agent/src/core/orchestration/task-runtime.ts b/packages/coding-agent/src/core/orchestration/task-runtime.ts
index 284e65c..d3ec646 100644
--- a/packages/coding-agent/src/core/orchestration/task-runtime.ts
+++ b/packages/coding-agent/src/core/orchestration/task-runtime.ts
@@ -807,7 +807,7 @@ export class DurableTaskRuntime {
 			type: "task.failed",
 			aggregateId: taskId,
 			actor: "runtime",
-			idempotencyKey: `task-failed:${taskId}:${reasonCode.trim()}`,
+			idempotencyKey: `task-failed:${taskId}:${this.state.lastOrdinal}`,
 			payload: toJsonObject({ taskId, reasonCode: reasonCode.trim() }),
 		});
 		return structuredClone(this.state.tasks[taskId]!.task);
-- 
2.43.0


From 381993d6d6c0ebdb95347c074041a73a5144d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:17 +0000
Subject: [PATCH 43/68] fix: do not report a task transition whose key was used
 by an earlier one

---
 packages/coding-agent/src/core/orchestration/task-runtime.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/coding-agent/src/core/orchestration/task-runtime.ts b/packages/coding-agent/src/core/orchestration/task-runtime.ts
index d3ec646..1122ed8 100644
--- a/packages/coding-agent/src/core/orchestration/task-runtime.ts
+++ b/packages/coding-agent/src/core/orchestration/task-runtime.ts
@@ -1245,6 +1245,11 @@ export class DurableTaskRuntime {
 			this.state = admittedProjection;
 			return;
 		}
+		// The command was admitted against a state that already contains this event, so its key belongs
+		// to an earlier transition and nothing was recorded for the current one.
+		if (event.ordinal <= this.state.lastOrdinal) {
+			throw new DurableTaskRuntimeError(`Transition '${input.type}' of '${input.aggregateId}' was already used.`);
+		}
 		// Exact idempotent replay can return an older event after another writer committed a
 		// contiguous suffix. Adopt through readAfter so no intervening ordinal is skipped. Test stores
 		// that do not execute append admission still fall back to reducing their returned next event.
-- 
2.43.0


From 08998bd31446164691dc67b7379c947d5aee39f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:17 +0000
Subject: [PATCH 44/68] fix: refuse task reasons and notices too large for a
 snapshot to hold

---
 .../core/orchestration/task-runtime-codecs.ts    |  2 +-
 .../src/core/orchestration/task-runtime.ts       | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts b/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts
index b6eb411..1f9a9fe 100644
--- a/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts
+++ b/packages/coding-agent/src/core/orchestration/task-runtime-codecs.ts
@@ -221,7 +221,7 @@ function dispatchInstructions(value: unknown, label: string): string {
 	return instructions;
 }
 
-function retainedDescription(value: unknown, label: string): string {
+export function retainedDescription(value: unknown, label: string): string {
 	const description = string(value, label).trim();
 	if (!description) throw new DurableTaskRuntimeError(`${label} is required.`);
 	if (description.length > MAX_ORCHESTRATION_DESCRIPTION_LENGTH) {
diff --git a/packages/coding-agent/src/core/orchestration/task-runtime.ts b/packages/coding-agent/src/core/orchestration/task-runtime.ts
index 1122ed8..9c6b562 100644
--- a/packages/coding-agent/src/core/orchestration/task-runtime.ts
+++ b/packages/coding-agent/src/core/orchestration/task-runtime.ts
@@ -44,6 +44,7 @@ import {
 	executionGrantFromValue,
 	MAX_DATE_EPOCH_MS,
 	projectionFromSnapshot,
+	retainedDescription,
 	retryStateFromValue,
 	taskFromValue,
 	usageFromPayload,
@@ -535,6 +536,7 @@ export class DurableTaskRuntime {
 		const { task, objectiveState } = this.buildTask(input);
 		const taskState: TaskRuntimeState = { task, attemptIds: [] };
 		const normalizedDispatch = this.normalizeDispatchForTask(taskState, dispatch);
+		if (grantId) dispatchIdentifier(grantId, "attempt.queued.grantId");
 		this.assertTaskAttemptBudget(taskState, objectiveState.objective);
 		assertRecordHasCapacity(this.state.tasks, MAX_ORCHESTRATION_TASKS, "task");
 		assertIdentifierListHasCapacity(objectiveState.taskIds, MAX_ORCHESTRATION_TASKS, "objective task list");
@@ -569,6 +571,7 @@ export class DurableTaskRuntime {
 			);
 		}
 		const normalizedDispatch = this.normalizeDispatchForTask(task, dispatch);
+		if (grantId) dispatchIdentifier(grantId, "attempt.queued.grantId");
 		this.assertTaskAttemptBudget(task, this.state.objectives[task.task.objectiveId]!.objective);
 		assertRecordHasCapacity(this.state.attempts, MAX_ORCHESTRATION_ATTEMPTS, "attempt");
 		assertIdentifierListHasCapacity(task.attemptIds, MAX_ORCHESTRATION_ATTEMPTS, "task attempt list");
@@ -738,6 +741,7 @@ export class DurableTaskRuntime {
 		const attempt = this.requireAttempt(attemptId);
 		if (terminalAttemptStatus(attempt.status)) return structuredClone(attempt);
 		if (!reasonCode.trim()) throw new DurableTaskRuntimeError("Cancellation reason is required.");
+		dispatchIdentifier(reasonCode.trim(), "attempt.cancelled.reasonCode");
 		this.commit({
 			type: "attempt.cancelled",
 			aggregateId: attemptId,
@@ -772,6 +776,7 @@ export class DurableTaskRuntime {
 			throw new DurableTaskRuntimeError(`Attempt '${args.attemptId}' lease or fencing token is stale.`);
 		}
 		if (!args.reasonCode.trim()) throw new DurableTaskRuntimeError("Suspension reason is required.");
+		dispatchIdentifier(args.reasonCode.trim(), "attempt.suspended.reasonCode");
 		const retry = args.retry ? retryStateFromValue(args.retry, "attempt.suspended.retry") : undefined;
 		if (retry) {
 			if (retry.retriesUsed !== (attempt.retry?.retriesUsed ?? 0) + 1) {
@@ -963,6 +968,7 @@ export class DurableTaskRuntime {
 			normalized.attemptId ?? normalized.taskId ?? normalized.objectiveId,
 			normalized,
 		);
+		dispatchIdentifier(`approval-requested:${normalized.approvalId}`, "approval notification id");
 		assertRecordHasCapacity(this.state.approvals, MAX_ORCHESTRATION_APPROVALS, "approval");
 		assertRecordHasCapacity(this.state.notifications, MAX_ORCHESTRATION_NOTIFICATIONS, "notification");
 		this.commit({
@@ -1017,13 +1023,17 @@ export class DurableTaskRuntime {
 	}): NotificationRuntimeState {
 		this.refresh();
 		assertNotificationTarget(this.state, args.objectiveId, args.attemptId);
-		const notificationId = args.notificationId ?? `notification-${this.createId()}`;
+		const notificationId = dispatchIdentifier(
+			args.notificationId ?? `notification-${this.createId()}`,
+			"notification.notificationId",
+		);
+		const message = retainedDescription(args.message, "notification.message");
 		const existing = this.state.notifications[notificationId];
 		if (existing) {
 			if (
 				existing.objectiveId !== args.objectiveId ||
 				existing.attemptId !== args.attemptId ||
-				existing.message !== args.message
+				existing.message !== message
 			) {
 				throw new DurableTaskRuntimeError(`Notification id '${notificationId}' has conflicting content.`);
 			}
@@ -1035,7 +1045,7 @@ export class DurableTaskRuntime {
 			aggregateId: args.objectiveId,
 			actor: "runtime",
 			idempotencyKey: `notification-enqueued:${notificationId}`,
-			payload: toJsonObject({ ...args, notificationId }),
+			payload: toJsonObject({ ...args, notificationId, message }),
 		});
 		return structuredClone(this.state.notifications[notificationId]!);
 	}
-- 
2.43.0


From 5339adf77424d9e6c22518670eeff184368d1987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:28 +0000
Subject: [PATCH 45/68] fix: queue no new task's work while its objective
 awaits approval

---
 .../src/core/orchestration/task-runtime.ts       | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/packages/coding-agent/src/core/orchestration/task-runtime.ts b/packages/coding-agent/src/core/orchestration/task-runtime.ts
index 9c6b562..cf3cc8f 100644
--- a/packages/coding-agent/src/core/orchestration/task-runtime.ts
+++ b/packages/coding-agent/src/core/orchestration/task-runtime.ts
@@ -534,6 +534,12 @@ export class DurableTaskRuntime {
 	): PreparedTaskAttempt {
 		this.refresh();
 		const { task, objectiveState } = this.buildTask(input);
+		const pendingApproval = this.pendingApprovalFor(task);
+		if (pendingApproval) {
+			throw new DurableTaskRuntimeError(
+				`Task '${task.taskId}' is awaiting approval '${pendingApproval.request.approvalId}'.`,
+			);
+		}
 		const taskState: TaskRuntimeState = { task, attemptIds: [] };
 		const normalizedDispatch = this.normalizeDispatchForTask(taskState, dispatch);
 		if (grantId) dispatchIdentifier(grantId, "attempt.queued.grantId");
@@ -564,7 +570,7 @@ export class DurableTaskRuntime {
 	queueAttempt(taskId: string, dispatch: OrchestrationDispatchRequest, grantId?: string): AttemptRuntimeState {
 		this.refresh();
 		const task = this.requireDispatchableTask(taskId);
-		const pendingApproval = this.pendingApprovalForTask(taskId);
+		const pendingApproval = this.pendingApprovalFor(task.task);
 		if (pendingApproval) {
 			throw new DurableTaskRuntimeError(
 				`Task '${taskId}' is awaiting approval '${pendingApproval.request.approvalId}'.`,
@@ -1190,15 +1196,13 @@ export class DurableTaskRuntime {
 		};
 	}
 
-	private pendingApprovalForTask(taskId: string): ApprovalRuntimeState | undefined {
-		const task = this.state.tasks[taskId];
-		if (!task) return undefined;
+	private pendingApprovalFor(task: TaskContract): ApprovalRuntimeState | undefined {
 		return Object.values(this.state.approvals).find(
 			(approval) =>
 				approval.status === "pending" &&
 				approval.request.attemptId === undefined &&
-				approval.request.objectiveId === task.task.objectiveId &&
-				(approval.request.taskId === undefined || approval.request.taskId === taskId),
+				approval.request.objectiveId === task.objectiveId &&
+				(approval.request.taskId === undefined || approval.request.taskId === task.taskId),
 		);
 	}
 
-- 
2.43.0


From 4b8d22c66602a18e4bc6671c612f9e6af7501301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:03 +0000
Subject: [PATCH 46/68] fix: cancel the delegated work of a goal that is
 replaced

---
 .../src/core/goals/goal-session-controller.ts            | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/coding-agent/src/core/goals/goal-session-controller.ts b/packages/coding-agent/src/core/goals/goal-session-controller.ts
index e86fa04..447043d 100644
--- a/packages/coding-agent/src/core/goals/goal-session-controller.ts
+++ b/packages/coding-agent/src/core/goals/goal-session-controller.ts
@@ -148,6 +148,15 @@ export class GoalSessionController {
 		}
 		const entryId = appendGoalStateSnapshot(this.deps.getSessionManager(), state, current);
 		try {
+			// A replaced goal is over: close its durable work before the new goal opens its own.
+			if (
+				current &&
+				current.goalId !== state.goalId &&
+				current.status !== "completed" &&
+				current.status !== "cancelled"
+			) {
+				this.deps.synchronizeGoalState(applyGoalEvent(current, { type: "cancel_goal", now: state.updatedAt }));
+			}
 			this.deps.synchronizeGoalState(state);
 		} catch (error) {
 			this.deps.emitWarning(
-- 
2.43.0


From 220ae13d4394794ee9e251539fcae4b4ffd4f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:03 +0000
Subject: [PATCH 47/68] fix: reopen the delegated work of a completed goal that
 is taken up again

---
 .../src/core/orchestration/delegation-ledger.ts       |  2 ++
 .../src/core/orchestration/task-runtime-reducer.ts    | 11 +++++++++--
 .../src/core/orchestration/task-runtime.ts            |  6 ++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/packages/coding-agent/src/core/orchestration/delegation-ledger.ts b/packages/coding-agent/src/core/orchestration/delegation-ledger.ts
index a0bd8f2..37551ff 100644
--- a/packages/coding-agent/src/core/orchestration/delegation-ledger.ts
+++ b/packages/coding-agent/src/core/orchestration/delegation-ledger.ts
@@ -415,6 +415,8 @@ export class DelegationOrchestrationLedger {
 		switch (goal.status) {
 			case "active":
 				if (status === "paused") this.runtime.resumeObjective(objective.objectiveId);
+				else if (status === "completed" || status === "cancelled")
+					this.runtime.reopenObjective(objective.objectiveId);
 				break;
 			case "paused":
 			case "blocked":
diff --git a/packages/coding-agent/src/core/orchestration/task-runtime-reducer.ts b/packages/coding-agent/src/core/orchestration/task-runtime-reducer.ts
index 32ce967..2bf4cac 100644
--- a/packages/coding-agent/src/core/orchestration/task-runtime-reducer.ts
+++ b/packages/coding-agent/src/core/orchestration/task-runtime-reducer.ts
@@ -167,12 +167,13 @@ export function assertObjectiveStatusTransition(
 	objectiveId: string,
 	target: ObjectiveStatus,
 	completionPolicy?: ObjectiveCompletionPolicy,
+	reopen = false,
 ): void {
 	const objective = state.objectives[objectiveId]?.objective;
 	if (!objective) throw new DurableTaskRuntimeError(`Unknown objective '${objectiveId}'.`);
 	const validSource =
 		(target === "paused" && objective.status === "active") ||
-		(target === "active" && objective.status === "paused") ||
+		(target === "active" && (objective.status === "paused" || (reopen && objective.status !== "active"))) ||
 		((target === "completed" || target === "cancelled") &&
 			(objective.status === "active" || objective.status === "paused"));
 	if (!validSource) {
@@ -1071,7 +1072,13 @@ export function reduceOrchestrationEvent(
 			updateObjectiveStatus(state, event.aggregateId, "paused", event.occurredAt);
 			break;
 		case "objective.resumed":
-			assertObjectiveStatusTransition(state, event.aggregateId, "active");
+			assertObjectiveStatusTransition(
+				state,
+				event.aggregateId,
+				"active",
+				undefined,
+				event.payload.reopened === true,
+			);
 			updateObjectiveStatus(state, event.aggregateId, "active", event.occurredAt);
 			refreshReadyTasks(state, event.aggregateId, event.occurredAt);
 			break;
diff --git a/packages/coding-agent/src/core/orchestration/task-runtime.ts b/packages/coding-agent/src/core/orchestration/task-runtime.ts
index cf3cc8f..c16544b 100644
--- a/packages/coding-agent/src/core/orchestration/task-runtime.ts
+++ b/packages/coding-agent/src/core/orchestration/task-runtime.ts
@@ -937,6 +937,11 @@ export class DurableTaskRuntime {
 		this.transitionObjective(objectiveId, "objective.resumed", "active");
 	}
 
+	/** The owner took up a completed or cancelled objective again; work it had cancelled stays cancelled. */
+	reopenObjective(objectiveId: string): void {
+		this.transitionObjective(objectiveId, "objective.resumed", "active", { reopened: true });
+	}
+
 	cancelObjective(objectiveId: string): void {
 		this.transitionObjective(objectiveId, "objective.cancelled", "cancelled");
 	}
@@ -1143,6 +1148,7 @@ export class DurableTaskRuntime {
 			type === "objective.completed"
 				? (payload.completionPolicy as ObjectiveCompletionPolicy | undefined)
 				: undefined,
+			payload.reopened === true,
 		);
 		this.commit({
 			type,
-- 
2.43.0


From 562ff19ce565824c888bb570641e35c30d9349d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:17 +0000
Subject: [PATCH 48/68] fix: keep a goal's delegated work following it when its
 id and proof ids are used again

---
 .../src/core/orchestration/delegation-ledger.ts  | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/packages/coding-agent/src/core/orchestration/delegation-ledger.ts b/packages/coding-agent/src/core/orchestration/delegation-ledger.ts
index 37551ff..2b493db 100644
--- a/packages/coding-agent/src/core/orchestration/delegation-ledger.ts
+++ b/packages/coding-agent/src/core/orchestration/delegation-ledger.ts
@@ -7,6 +7,7 @@ import type { GoalState } from "../goals/goal-state.ts";
 import { latestAgentAttemptByDurableOrder } from "./attempt-ordering.ts";
 import type {
 	AttemptUsageSnapshot,
+	EvidenceContract,
 	HarnessCapability,
 	OrchestrationDispatchRequest,
 	RiskBudget,
@@ -326,7 +327,7 @@ export class DelegationOrchestrationLedger {
 			}
 		}
 		const projectedEvidence =
-			input.goal && objectiveId === projectedGoal?.objectiveId ? projectGoalAcceptanceEvidence(input.goal) : [];
+			input.goal && objectiveId === projectedGoal?.objectiveId ? this.projectGoalEvidence(input.goal) : [];
 		if (projectedGoal) this.runtime.assertObjectiveSynchronizationHeadroom(projectedGoal, projectedEvidence);
 		this.runtime.assertProjectionHeadroom({
 			objectives: snapshot.objectives[objectiveId] ? 0 : 1,
@@ -403,9 +404,20 @@ export class DelegationOrchestrationLedger {
 		return this.runtime.queueAttempt(input.laneId, dispatch);
 	}
 
+	/** A goal id may be used again: proof that differs from what the id recorded before gets an id of its own. */
+	private projectGoalEvidence(goal: GoalState): EvidenceContract[] {
+		const recorded = this.runtime.getSnapshot().objectives[goalObjectiveId(goal.goalId)]?.evidence ?? [];
+		return projectGoalAcceptanceEvidence(goal).map((item) => {
+			const prior = recorded.find((candidate) => candidate.evidenceId === item.evidenceId);
+			return !prior || isDeepStrictEqual(prior, item)
+				? item
+				: { ...item, evidenceId: `${item.evidenceId}:${item.createdAt}` };
+		});
+	}
+
 	synchronizeGoalState(goal: GoalState): void {
 		const objective = projectGoalObjective(goal);
-		const evidence = projectGoalAcceptanceEvidence(goal);
+		const evidence = this.projectGoalEvidence(goal);
 		this.runtime.assertObjectiveSynchronizationHeadroom(objective, evidence);
 		this.runtime.ensureObjective(objective);
 		for (const item of evidence) {
-- 
2.43.0


From d240864dcf4ab18231bfcff055fd940965fc29ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:51 +0000
Subject: [PATCH 49/68] fix: let interrupted work be recovered past work that
 cannot be queued

---
 .../src/core/orchestration/delegation-ledger.ts | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/packages/coding-agent/src/core/orchestration/delegation-ledger.ts b/packages/coding-agent/src/core/orchestration/delegation-ledger.ts
index 2b493db..cdc47cb 100644
--- a/packages/coding-agent/src/core/orchestration/delegation-ledger.ts
+++ b/packages/coding-agent/src/core/orchestration/delegation-ledger.ts
@@ -495,8 +495,21 @@ export class DelegationOrchestrationLedger {
 			if (attempts.some((attempt) => attempt && activeAttempt(attempt))) continue;
 			const interrupted = [...attempts].reverse().find((attempt) => attempt?.status === "expired");
 			if (!interrupted || task.task.status !== "ready") continue;
-			const maxAttempts = task.task.riskBudget.maxAttempts;
-			if (maxAttempts !== undefined && task.attemptIds.length >= maxAttempts) {
+			// Work of a paused objective, or held for an approval, is not queued and must not stop the rest.
+			const objective = snapshot.objectives[task.task.objectiveId]?.objective;
+			const awaitsApproval = Object.values(snapshot.approvals).some(
+				(approval) =>
+					approval.status === "pending" &&
+					approval.request.attemptId === undefined &&
+					approval.request.objectiveId === task.task.objectiveId &&
+					(approval.request.taskId === undefined || approval.request.taskId === task.task.taskId),
+			);
+			if (objective?.status !== "active" || awaitsApproval) continue;
+			const maxAttempts = Math.min(
+				task.task.riskBudget.maxAttempts ?? Number.POSITIVE_INFINITY,
+				objective.riskBudget.maxAttempts ?? Number.POSITIVE_INFINITY,
+			);
+			if (task.attemptIds.length >= maxAttempts) {
 				this.runtime.failTask(task.task.taskId, "attempt_budget_exhausted");
 				snapshot = this.runtime.getSnapshot();
 				continue;
-- 
2.43.0


From d7e2835153b17c5be41c23bfc3b6bffebcb39786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:22 +0000
Subject: [PATCH 50/68] fix: recognise a repeated delegation whose instructions
 have outer blanks

---
 .../coding-agent/src/core/orchestration/delegation-ledger.ts    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/coding-agent/src/core/orchestration/delegation-ledger.ts b/packages/coding-agent/src/core/orchestration/delegation-ledger.ts
index cdc47cb..28863fb 100644
--- a/packages/coding-agent/src/core/orchestration/delegation-ledger.ts
+++ b/packages/coding-agent/src/core/orchestration/delegation-ledger.ts
@@ -309,7 +309,7 @@ export class DelegationOrchestrationLedger {
 		if (
 			existingTask &&
 			(existingTask.objectiveId !== objectiveId ||
-				existingTask.description !== input.instructions ||
+				existingTask.description !== input.instructions.trim() ||
 				existingTask.role !== input.role ||
 				existingTask.dependsOn.length !== dependencyTaskIds.length ||
 				existingTask.dependsOn.some((dependencyId, index) => dependencyId !== dependencyTaskIds[index]))
-- 
2.43.0


From 1f0dc420cc0547e05077311842b5923851937f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:28 +0000
Subject: [PATCH 51/68] fix: wrap at blanks that carry style codes as at plain
 ones

---
 packages/tui/src/utils.ts | 61 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 57 insertions(+), 4 deletions(-)

diff --git a/packages/tui/src/utils.ts b/packages/tui/src/utils.ts
index 0681be3..f1611a7 100644
--- a/packages/tui/src/utils.ts
+++ b/packages/tui/src/utils.ts
@@ -711,6 +711,40 @@ function splitIntoTokensWithAnsi(text: string): string[] {
 	return tokens;
 }
 
+function extractAnsiCodes(text: string): string {
+	const codes: string[] = [];
+	let i = 0;
+	while (i < text.length) {
+		const ansiResult = extractAnsiCode(text, i);
+		if (ansiResult) codes.push(ansiResult.code);
+		i += ansiResult ? ansiResult.length : 1;
+	}
+	return codes.join("");
+}
+
+/** True when a token shows nothing but whitespace, whatever ANSI codes are attached to it. */
+function isBlankToken(token: string): boolean {
+	let i = 0;
+	while (i < token.length) {
+		const ansiResult = extractAnsiCode(token, i);
+		if (!ansiResult && token[i]!.trim() !== "") return false;
+		i += ansiResult ? ansiResult.length : 1;
+	}
+	return true;
+}
+
+/** Remove trailing whitespace that only ANSI codes follow. */
+function trimBlanksBeforeCodes(line: string): string {
+	let textEnd = 0;
+	let i = 0;
+	while (i < line.length) {
+		const ansiResult = extractAnsiCode(line, i);
+		if (!ansiResult && line[i]!.trim() !== "") textEnd = i + 1;
+		i += ansiResult ? ansiResult.length : 1;
+	}
+	return line.slice(0, textEnd) + extractAnsiCodes(line.slice(textEnd));
+}
+
 /**
  * Wrap text with ANSI codes preserved.
  *
@@ -775,13 +809,20 @@ function wrapSingleLine(line: string, width: number): string[] {
 
 	const currentParts: string[] = [];
 	let currentVisibleLength = 0;
+	// Codes of a whitespace token dropped at a wrap, while nothing follows it on the new line
+	let droppedCodes: string | undefined;
 
 	for (const token of tokens) {
 		const tokenVisibleLength = visibleWidth(token);
-		const isWhitespace = token.trim() === "";
+		const isWhitespace = isBlankToken(token);
 
 		// Token itself is too long - break it character by character
 		if (tokenVisibleLength > width && !isWhitespace) {
+			if (droppedCodes !== undefined) {
+				// breakLongWord starts with the active codes itself
+				currentParts.length = 0;
+				droppedCodes = undefined;
+			}
 			if (currentParts.length > 0) {
 				// Add specific reset for underline only (preserves background)
 				const lineEndReset = tracker.getLineEndReset();
@@ -815,10 +856,13 @@ function wrapSingleLine(line: string, width: number): string[] {
 			wrapped.push(lineToWrap);
 			currentParts.length = 0;
 			if (isWhitespace) {
-				// Don't start new line with whitespace
+				// Don't start new line with whitespace, but keep the styling it carries
+				updateTrackerFromText(token, tracker);
 				const activeCodes = tracker.getActiveCodes();
 				if (activeCodes) currentParts.push(activeCodes);
 				currentVisibleLength = 0;
+				droppedCodes = extractAnsiCodes(token);
+				continue;
 			} else {
 				const activeCodes = tracker.getActiveCodes();
 				if (activeCodes) currentParts.push(activeCodes);
@@ -831,17 +875,26 @@ function wrapSingleLine(line: string, width: number): string[] {
 			currentVisibleLength += tokenVisibleLength;
 		}
 
+		droppedCodes = undefined;
 		updateTrackerFromText(token, tracker);
 	}
 
 	const currentLine = currentParts.join("");
-	if (currentLine) {
+	if (droppedCodes !== undefined) {
+		// The text ends in dropped whitespace: its codes close the last line instead of forming an empty one
+		wrapped.push(wrapped.pop() + droppedCodes);
+	} else if (currentLine) {
 		// No reset at end of final line - let caller handle it
 		wrapped.push(currentLine);
 	}
 
 	// Trailing whitespace can cause lines to exceed the requested width
-	return wrapped.length > 0 ? wrapped.map((line) => line.trimEnd()) : [""];
+	return wrapped.length > 0
+		? wrapped.map((line) => {
+				const trimmed = line.trimEnd();
+				return visibleWidth(trimmed) > width ? trimBlanksBeforeCodes(trimmed) : trimmed;
+			})
+		: [""];
 }
 
 export const PUNCTUATION_REGEX = /[(){}[\]<>.,;:'"!?+\-=*/\\|&%^$#@~`]/;
-- 
2.43.0


From 1605dd4ddc6bdd9d3e6da7bc5f3e14c1bc803d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:28 +0000
Subject: [PATCH 52/68] fix: keep the order of style codes where a slice begins

---
 packages/tui/src/utils.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/tui/src/utils.ts b/packages/tui/src/utils.ts
index f1611a7..6173f58 100644
--- a/packages/tui/src/utils.ts
+++ b/packages/tui/src/utils.ts
@@ -1089,8 +1089,10 @@ export function sliceWithWidth(
 	while (i < line.length) {
 		const ansi = extractAnsiCode(line, i);
 		if (ansi) {
-			if (currentCol >= startCol && currentCol < endCol) resultParts.push(ansi.code);
-			else if (currentCol < startCol) pendingAnsi.push(ansi.code);
+			if (currentCol >= startCol && currentCol < endCol) {
+				movePendingParts(resultParts, pendingAnsi);
+				resultParts.push(ansi.code);
+			} else if (currentCol < startCol) pendingAnsi.push(ansi.code);
 			i += ansi.length;
 			continue;
 		}
-- 
2.43.0


From 4698d38f1bd5b2d920c233558e2f3c2b209f4637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:29 +0000
Subject: [PATCH 53/68] fix: close underlines and links at hard line breaks too

---
 packages/tui/src/utils.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/tui/src/utils.ts b/packages/tui/src/utils.ts
index 6173f58..c892cb2 100644
--- a/packages/tui/src/utils.ts
+++ b/packages/tui/src/utils.ts
@@ -768,6 +768,8 @@ export function wrapTextWithAnsi(text: string, width: number): string[] {
 	const tracker = new AnsiCodeTracker();
 
 	for (const inputLine of inputLines) {
+		// Close what must not run on past the end of the previous line
+		if (result.length > 0) result.push(result.pop() + tracker.getLineEndReset());
 		// Prepend active ANSI codes from previous lines (except for first line)
 		const prefix = result.length > 0 ? tracker.getActiveCodes() : "";
 		const wrappedLines = wrapSingleLine(prefix + inputLine, width);
-- 
2.43.0


From c645f2e39485594670ca189a595c43698ee5e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:21 +0000
Subject: [PATCH 54/68] fix: clear the first row when a frame becomes empty

---
 packages/tui/src/tui.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/tui/src/tui.ts b/packages/tui/src/tui.ts
index 9004839..f0271b7 100644
--- a/packages/tui/src/tui.ts
+++ b/packages/tui/src/tui.ts
@@ -1512,15 +1512,17 @@ export class TUI extends Container {
 					fullRender(true);
 					return;
 				}
-				if (extraLines > 0) {
+				// With no content left, the row the cursor is on is itself the first one to clear.
+				const rowsBelow = newLines.length > 0 ? extraLines : extraLines - 1;
+				if (newLines.length > 0) {
 					buffer += "\x1b[1B";
 				}
 				for (let i = 0; i < extraLines; i++) {
 					buffer += "\r\x1b[2K";
 					if (i < extraLines - 1) buffer += "\x1b[1B";
 				}
-				if (extraLines > 0) {
-					buffer += `\x1b[${extraLines}A`;
+				if (rowsBelow > 0) {
+					buffer += `\x1b[${rowsBelow}A`;
 				}
 				buffer += "\x1b[?2026l";
 				this.terminal.write(buffer);
-- 
2.43.0


From d8ab9d76d3716272efbf30da16600ebd73e17812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:21 +0000
Subject: [PATCH 55/68] fix: clear the rest of a row whose wide character does
 not fit

---
 packages/tui/src/tui.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/tui/src/tui.ts b/packages/tui/src/tui.ts
index f0271b7..997af8f 100644
--- a/packages/tui/src/tui.ts
+++ b/packages/tui/src/tui.ts
@@ -1585,9 +1585,11 @@ export class TUI extends Container {
 			const line = newLines[i];
 			const isImage = isImageLine(line);
 			if (isImage) buffer += "\x1b[2K"; // Clear reserved/image rows before redrawing placements.
-			buffer += isImage ? line : this.fitLineToWidth(line, width);
-			// Screen rows hold lines truncated to the terminal width, so compare effective widths.
-			const lineWidth = isImage ? 0 : Math.min(visibleWidth(line), width);
+			const fittedLine = isImage ? line : this.fitLineToWidth(line, width);
+			buffer += fittedLine;
+			// Screen rows hold lines truncated to the terminal width (less where a wide character
+			// would cross the edge), so compare effective widths.
+			const lineWidth = isImage ? 0 : visibleWidth(fittedLine);
 			const prevWidth = isImage ? 0 : Math.min(visibleWidth(this.previousLines[i] ?? ""), width);
 			if (!isImage && lineWidth < prevWidth) buffer += "\x1b[K";
 		}
-- 
2.43.0


From f554c882cafc9f7e349eff61d515f189635dd0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:32 +0000
Subject: [PATCH 56/68] fix: do not move the cursor to a row above the viewport

---
 packages/tui/src/tui.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/tui/src/tui.ts b/packages/tui/src/tui.ts
index 997af8f..5ce8040 100644
--- a/packages/tui/src/tui.ts
+++ b/packages/tui/src/tui.ts
@@ -1483,8 +1483,8 @@ export class TUI extends Container {
 
 		// No changes - but still need to update hardware cursor position if it moved
 		if (firstChanged === -1) {
-			this.positionHardwareCursor(cursorPos, newLines.length);
 			this.previousViewportTop = prevViewportTop;
+			this.positionHardwareCursor(cursorPos, newLines.length);
 			this.previousHeight = height;
 			return;
 		}
@@ -1529,12 +1529,12 @@ export class TUI extends Container {
 				this.cursorRow = targetRow;
 				this.hardwareCursorRow = targetRow;
 			}
+			this.previousViewportTop = prevViewportTop;
 			this.positionHardwareCursor(cursorPos, newLines.length);
 			this.previousLines = newLines;
 			this.previousKittyImageIds = this.collectKittyImageIds(newLines);
 			this.previousWidth = width;
 			this.previousHeight = height;
-			this.previousViewportTop = prevViewportTop;
 			return;
 		}
 
@@ -1673,7 +1673,8 @@ export class TUI extends Container {
 	 * @param totalLines Total number of rendered lines
 	 */
 	private positionHardwareCursor(cursorPos: { row: number; col: number } | null, totalLines: number): void {
-		if (!cursorPos || totalLines <= 0) {
+		// A row above the viewport (content shrank without moving it) cannot be reached by the cursor.
+		if (!cursorPos || totalLines <= 0 || cursorPos.row < this.previousViewportTop) {
 			this.terminal.hideCursor();
 			return;
 		}
-- 
2.43.0


From f29910d635c81147b665a92669dbcbc21130fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:05 +0000
Subject: [PATCH 57/68] fix: keep the style of a line off the blanks beside an
 overlay

---
 packages/tui/src/tui.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/tui/src/tui.ts b/packages/tui/src/tui.ts
index 5ce8040..087c65d 100644
--- a/packages/tui/src/tui.ts
+++ b/packages/tui/src/tui.ts
@@ -1287,12 +1287,13 @@ export class TUI extends Container {
 		const r = TUI.SEGMENT_RESET;
 		const result =
 			base.before +
-			" ".repeat(beforePad) +
 			r +
+			" ".repeat(beforePad) +
 			overlay.text +
 			" ".repeat(overlayPad) +
 			r +
 			base.after +
+			r +
 			" ".repeat(afterPad);
 
 		// CRITICAL: Always verify and truncate to terminal width.
-- 
2.43.0


From d3e1bec9438369add80853a949e1668cd39dab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:38 +0000
Subject: [PATCH 58/68] fix: keep folded pastes whose marker is copied, killed
 or renumbered

---
 packages/tui/src/components/editor.ts | 62 +++++++++++++++++----------
 packages/tui/src/kill-ring.ts         |  8 ++++
 2 files changed, 47 insertions(+), 23 deletions(-)

diff --git a/packages/tui/src/components/editor.ts b/packages/tui/src/components/editor.ts
index 6df35e3..daa051e 100644
--- a/packages/tui/src/components/editor.ts
+++ b/packages/tui/src/components/editor.ts
@@ -952,6 +952,21 @@ export class Editor implements Component, Focusable {
 		return text.replace(PASTE_MARKER_REGEX, (marker, idGroup) => this.pastes.get(Number(idGroup)) ?? marker);
 	}
 
+	/**
+	 * Switch to another set of stored pastes. Killed text whose markers would stand for other
+	 * content, or for none, is kept written out.
+	 */
+	private replacePastes(pastes: Map<number, string>, pasteCounter: number): void {
+		this.killRing.rewrite((text) =>
+			text.replace(PASTE_MARKER_REGEX, (marker, idGroup) => {
+				const content = this.pastes.get(Number(idGroup));
+				return content === undefined || pastes.get(Number(idGroup)) === content ? marker : content;
+			}),
+		);
+		this.pastes = pastes;
+		this.pasteCounter = pasteCounter;
+	}
+
 	/**
 	 * Get text with paste markers expanded to their actual content.
 	 * Use this when you need the full content (e.g., for external editor).
@@ -977,8 +992,7 @@ export class Editor implements Component, Focusable {
 		if (this.getText() !== normalized) {
 			this.pushUndoSnapshot();
 		}
-		this.pastes.clear();
-		this.pasteCounter = 0;
+		this.replacePastes(new Map(), 0);
 		this.setTextInternal(normalized);
 	}
 
@@ -1258,7 +1272,7 @@ export class Editor implements Component, Focusable {
 			this.pushUndoSnapshot();
 
 			// Delete grapheme before cursor (handles emojis, combining characters, etc.)
-			let line = this.state.lines[this.state.cursorLine] || "";
+			const line = this.state.lines[this.state.cursorLine] || "";
 			const beforeCursor = line.slice(0, this.state.cursorCol);
 
 			// Find the last grapheme in the text before cursor
@@ -1267,31 +1281,34 @@ export class Editor implements Component, Focusable {
 			const graphemeLength = lastGrapheme ? lastGrapheme.segment.length : 1;
 			const pasteMarker = PASTE_MARKER_SINGLE.exec(lastGrapheme?.segment ?? "");
 
-			if (pasteMarker) {
-				const targetId = Number(pasteMarker[1]);
-				this.pastes.delete(targetId);
-				this.pasteCounter--;
+			let before = line.slice(0, this.state.cursorCol - graphemeLength);
+			let after = line.slice(this.state.cursorCol);
 
-				const higherIds = [...this.pastes.keys()].filter((id) => id > targetId).sort((a, b) => a - b);
-				for (const id of higherIds) {
-					this.pastes.set(id - 1, this.pastes.get(id)!);
-					this.pastes.delete(id);
+			const targetId = Number(pasteMarker?.[1]);
+			const copies = [...this.state.lines.join("\n").matchAll(PASTE_MARKER_REGEX)].filter(
+				(match) => Number(match[1]) === targetId,
+			);
+			// The stored content stays while another copy of the marker stands for it.
+			if (pasteMarker && copies.length === 1) {
+				const known = this.pastes;
+				const pastes = new Map<number, string>();
+				for (const [id, content] of known) {
+					if (id !== targetId) pastes.set(id > targetId ? id - 1 : id, content);
 				}
+				this.replacePastes(pastes, this.pasteCounter - 1);
 
-				this.state.lines = this.state.lines.map((currentLine) =>
-					currentLine.replace(PASTE_MARKER_REGEX, (fullMatch, idGroup, suffixGroup) => {
+				const renumber = (text: string): string =>
+					text.replace(PASTE_MARKER_REGEX, (fullMatch, idGroup, suffixGroup) => {
 						const id = Number(idGroup);
-						return id <= targetId ? fullMatch : `[paste #${id - 1}${suffixGroup}]`;
-					}),
-				);
-				line = this.state.lines[this.state.cursorLine] || "";
+						return id > targetId && known.has(id) ? `[paste #${id - 1}${suffixGroup ?? ""}]` : fullMatch;
+					});
+				this.state.lines = this.state.lines.map(renumber);
+				before = renumber(before);
+				after = renumber(after);
 			}
 
-			const before = line.slice(0, this.state.cursorCol - graphemeLength);
-			const after = line.slice(this.state.cursorCol);
-
 			this.state.lines[this.state.cursorLine] = before + after;
-			this.setCursorCol(this.state.cursorCol - graphemeLength);
+			this.setCursorCol(before.length);
 		} else if (this.state.cursorLine > 0) {
 			this.pushUndoSnapshot();
 			this.mergeCurrentLineIntoPrevious();
@@ -1897,8 +1914,7 @@ export class Editor implements Component, Focusable {
 		const snapshot = this.undoStack.pop();
 		if (!snapshot) return;
 		Object.assign(this.state, snapshot.state);
-		this.pastes = snapshot.pastes;
-		this.pasteCounter = snapshot.pasteCounter;
+		this.replacePastes(snapshot.pastes, snapshot.pasteCounter);
 		this.lastAction = null;
 		this.preferredVisualCol = null;
 		this.notifyChange();
diff --git a/packages/tui/src/kill-ring.ts b/packages/tui/src/kill-ring.ts
index edfce24..501c8b7 100644
--- a/packages/tui/src/kill-ring.ts
+++ b/packages/tui/src/kill-ring.ts
@@ -68,6 +68,14 @@ export class KillRing {
 		}
 	}
 
+	/** Replace the text of every entry, keeping the order of the ring. */
+	rewrite(replace: (text: string) => string): void {
+		const entries = this.ring;
+		this.ring = [];
+		this.totalBytes = 0;
+		for (const text of entries) this.push(replace(text), { prepend: false });
+	}
+
 	/** Get most recent entry without modifying the ring. */
 	peek(): string | undefined {
 		return this.ring.length > 0 ? this.ring[this.ring.length - 1] : undefined;
-- 
2.43.0


From f1247dfa6f80399059988e4f3ae06859f4722a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:27 +0000
Subject: [PATCH 59/68] fix: let a jump to a character pass over paste markers
 and the cursor itself

---
 packages/tui/src/components/editor.ts | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/packages/tui/src/components/editor.ts b/packages/tui/src/components/editor.ts
index daa051e..a95d365 100644
--- a/packages/tui/src/components/editor.ts
+++ b/packages/tui/src/components/editor.ts
@@ -1936,16 +1936,17 @@ export class Editor implements Component, Focusable {
 			const line = lines[lineIdx] || "";
 			const isCurrentLine = lineIdx === this.state.cursorLine;
 
-			// Current line: start after/before cursor; other lines: search full line
-			const searchFrom = isCurrentLine
-				? isForward
-					? this.state.cursorCol + 1
-					: this.state.cursorCol - 1
-				: undefined;
+			// Paste markers are atomic: a character of the marker itself is no match
+			const starts = [...this.segment(line, "grapheme")]
+				.filter((seg) => !isPasteMarker(seg.segment) && seg.segment.startsWith(char))
+				.map((seg) => seg.index);
 
-			const idx = isForward ? line.indexOf(char, searchFrom) : line.lastIndexOf(char, searchFrom);
+			// Current line: only past the cursor; other lines: search full line
+			const idx = isForward
+				? starts.find((start) => !isCurrentLine || start > this.state.cursorCol)
+				: starts.findLast((start) => !isCurrentLine || start < this.state.cursorCol);
 
-			if (idx !== -1) {
+			if (idx !== undefined) {
 				this.state.cursorLine = lineIdx;
 				this.setCursorCol(idx);
 				return;
-- 
2.43.0


From 0042b6e855f91d2d83601bd2b152d2969ca96119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:06 +0000
Subject: [PATCH 60/68] fix: keep the session root mailbox readable when a
 retained reply is replayed at the receipt limit

---
 .../core/delegation/session-root-mailbox.ts   | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/packages/coding-agent/src/core/delegation/session-root-mailbox.ts b/packages/coding-agent/src/core/delegation/session-root-mailbox.ts
index 2d24588..44eb606 100644
--- a/packages/coding-agent/src/core/delegation/session-root-mailbox.ts
+++ b/packages/coding-agent/src/core/delegation/session-root-mailbox.ts
@@ -222,6 +222,14 @@ function isMandatory(reply: SessionRootReply): boolean {
 	return reply.sourceReconciledAt === undefined || reply.acknowledgedAt === undefined;
 }
 
+function assertDefaultReplayReceiptCapacity(state: SessionRootMailboxState): void {
+	if (state.replayReceipts.filter((candidate) => !candidate.sourceOwned).length >= MAX_DEFAULT_REPLAY_RECEIPTS) {
+		throw new Error(
+			`Session root mailbox default replay receipt capacity reached its ${MAX_DEFAULT_REPLAY_RECEIPTS} entry limit.`,
+		);
+	}
+}
+
 function pruneRetainedReplies(replies: readonly SessionRootReply[]): SessionRootReply[] {
 	const mandatory = replies.filter(isMandatory);
 	if (mandatory.length > MAX_MANDATORY_REPLIES) {
@@ -477,9 +485,9 @@ export class SessionRootMailbox {
 					throw new Error("Session root reply identity conflicts with its durable replay receipt.");
 				}
 				accepted = existing;
-				return receipt
-					? state
-					: { ...state, replayReceipts: [...state.replayReceipts, replayReceipt(existing, sourceOwned)] };
+				if (receipt) return state;
+				if (!sourceOwned) assertDefaultReplayReceiptCapacity(state);
+				return { ...state, replayReceipts: [...state.replayReceipts, replayReceipt(existing, sourceOwned)] };
 			}
 			if (receipt) {
 				if (!sameReplayIntent(receipt, reply)) {
@@ -491,14 +499,7 @@ export class SessionRootMailbox {
 			if (state.replies.filter(isMandatory).length >= MAX_MANDATORY_REPLIES) {
 				throw new Error(`Session root mailbox reached its ${MAX_MANDATORY_REPLIES} mandatory reply limit.`);
 			}
-			if (
-				!sourceOwned &&
-				state.replayReceipts.filter((candidate) => !candidate.sourceOwned).length >= MAX_DEFAULT_REPLAY_RECEIPTS
-			) {
-				throw new Error(
-					`Session root mailbox default replay receipt capacity reached its ${MAX_DEFAULT_REPLAY_RECEIPTS} entry limit.`,
-				);
-			}
+			if (!sourceOwned) assertDefaultReplayReceiptCapacity(state);
 			if (state.replies.some((candidate) => candidate.ackToken === reply.ackToken)) {
 				throw new Error("Session root mailbox could not allocate a unique acknowledgement token.");
 			}
-- 
2.43.0


From 999aae23c55a2537365d8b16f54d5b3c94203b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:21 +0000
Subject: [PATCH 61/68] fix: keep the first settings another process stores
 while this one prepares its own first write

---
 packages/coding-agent/src/core/settings-manager.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/coding-agent/src/core/settings-manager.ts b/packages/coding-agent/src/core/settings-manager.ts
index ecccb49..2ad2347 100644
--- a/packages/coding-agent/src/core/settings-manager.ts
+++ b/packages/coding-agent/src/core/settings-manager.ts
@@ -1103,7 +1103,7 @@ export class FileSettingsStorage implements SettingsStorage {
 			}
 
 			const current = fileExists ? readFileSync(currentPath, "utf-8") : undefined;
-			const next = fn(current);
+			let next = fn(current);
 			if (next !== undefined) {
 				// Only create directory when we actually need to write
 				if (!existsSync(dir)) {
@@ -1111,7 +1111,10 @@ export class FileSettingsStorage implements SettingsStorage {
 				}
 				if (releases.length === 0) {
 					releases.push(acquireFileLockSync(path, LOW_LATENCY_FILE_LOCK_OPTIONS));
+					// Another process may have created the file before this lock was held; derive the update from it.
+					if (existsSync(path)) next = fn(readFileSync(path, "utf-8"));
 				}
+				if (next === undefined) return;
 				writeFileAtomicSync(path, next);
 				migratedLegacy = legacyExists;
 			}
-- 
2.43.0


From 248b406dd710e6a81ffcb472dd00a48010e659f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:21 +0000
Subject: [PATCH 62/68] fix: keep the other sections of the context policy when
 one of them is set

---
 packages/coding-agent/src/core/settings-manager.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/coding-agent/src/core/settings-manager.ts b/packages/coding-agent/src/core/settings-manager.ts
index 2ad2347..a135b5e 100644
--- a/packages/coding-agent/src/core/settings-manager.ts
+++ b/packages/coding-agent/src/core/settings-manager.ts
@@ -2959,12 +2959,12 @@ export class SettingsManager {
 		if (scope === "project") {
 			const projectSettings = structuredClone(this.projectSettings);
 			projectSettings.contextPolicy = { ...projectSettings.contextPolicy, curation: { ...settings } };
-			this.markProjectModified("contextPolicy");
+			this.markProjectModified("contextPolicy", "curation");
 			this.saveProjectSettings(projectSettings);
 			return;
 		}
 		this.globalSettings.contextPolicy = { ...this.globalSettings.contextPolicy, curation: { ...settings } };
-		this.markModified("contextPolicy");
+		this.markModified("contextPolicy", "curation");
 		this.save();
 	}
 
@@ -2975,13 +2975,13 @@ export class SettingsManager {
 		if (scope === "project") {
 			const projectSettings = structuredClone(this.projectSettings);
 			projectSettings.contextPolicy = { ...projectSettings.contextPolicy, enforcement: { ...settings } };
-			this.markProjectModified("contextPolicy");
+			this.markProjectModified("contextPolicy", "enforcement");
 			this.saveProjectSettings(projectSettings);
 			return;
 		}
 
 		this.globalSettings.contextPolicy = { ...this.globalSettings.contextPolicy, enforcement: { ...settings } };
-		this.markModified("contextPolicy");
+		this.markModified("contextPolicy", "enforcement");
 		this.save();
 	}
 
@@ -3012,13 +3012,13 @@ export class SettingsManager {
 		if (scope === "project") {
 			const projectSettings = structuredClone(this.projectSettings);
 			projectSettings.contextPolicy = { ...projectSettings.contextPolicy, memory: normalized };
-			this.markProjectModified("contextPolicy");
+			this.markProjectModified("contextPolicy", "memory");
 			this.saveProjectSettings(projectSettings);
 			return;
 		}
 
 		this.globalSettings.contextPolicy = { ...this.globalSettings.contextPolicy, memory: normalized };
-		this.markModified("contextPolicy");
+		this.markModified("contextPolicy", "memory");
 		this.save();
 	}
 
-- 
2.43.0


From d0dec02e7e45a53d746dac93c4a9e3b034714407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:32 +0000
Subject: [PATCH 63/68] fix: treat a credential store that holds no object as
 damaged instead of writing over it

---
 packages/coding-agent/src/core/auth-storage.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/coding-agent/src/core/auth-storage.ts b/packages/coding-agent/src/core/auth-storage.ts
index fe218ad..1419324 100644
--- a/packages/coding-agent/src/core/auth-storage.ts
+++ b/packages/coding-agent/src/core/auth-storage.ts
@@ -235,7 +235,11 @@ export class AuthStorage {
 		if (!content) {
 			return {};
 		}
-		return JSON.parse(content) as AuthStorageData;
+		const parsed: unknown = JSON.parse(content);
+		if (typeof parsed !== "object" || parsed === null || Array.isArray(parsed)) {
+			throw new Error("Invalid credential store: expected an object");
+		}
+		return parsed as AuthStorageData;
 	}
 
 	/**
-- 
2.43.0


From 079060fbc4aad756ce759d33bc679e4dc5d3231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:32 +0000
Subject: [PATCH 64/68] fix: use an API key another instance stored in place of
 an expired OAuth token

---
 packages/coding-agent/src/core/auth-storage.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/coding-agent/src/core/auth-storage.ts b/packages/coding-agent/src/core/auth-storage.ts
index 1419324..1bf2556 100644
--- a/packages/coding-agent/src/core/auth-storage.ts
+++ b/packages/coding-agent/src/core/auth-storage.ts
@@ -512,6 +512,11 @@ export class AuthStorage {
 					if (result) {
 						return result.apiKey;
 					}
+					// Another instance replaced the OAuth token by an API key while this one held the old token.
+					const storedCred = this.data[providerId];
+					if (storedCred?.type === "api_key") {
+						return resolveConfigValue(storedCred.key);
+					}
 				} catch (error) {
 					this.recordError(error);
 					// Refresh failed - re-read file to check if another instance succeeded
-- 
2.43.0


From 6fcfa64d941a64c5b72f408105cc6b2a1e99bbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:25 +0000
Subject: [PATCH 65/68] fix: a checklist replacement starts the step it asks
 for, not one that kept its status

---
 packages/coding-agent/src/core/tasks/task-state.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/coding-agent/src/core/tasks/task-state.ts b/packages/coding-agent/src/core/tasks/task-state.ts
index a194624..a0dca33 100644
--- a/packages/coding-agent/src/core/tasks/task-state.ts
+++ b/packages/coding-agent/src/core/tasks/task-state.ts
@@ -381,7 +381,10 @@ export function setTaskSteps(state: TaskStepsState, inputs: readonly TaskStepInp
 			existing,
 		});
 	});
-	const activeIndex = steps.findLastIndex((step) => step.status === "in_progress");
+	// A step this call asks to be in progress wins over one that merely kept that status.
+	const requestedIndex = inputs.findLastIndex((input) => input.status === "in_progress");
+	const activeIndex =
+		requestedIndex >= 0 ? requestedIndex : steps.findLastIndex((step) => step.status === "in_progress");
 	if (activeIndex >= 0) demoteOtherActiveSteps(steps, activeIndex);
 	return { ...nextState(state, steps, now), nextStepNumber };
 }
-- 
2.43.0


From 66c8267be6c9e8ded1f9bb05b042c9c48406bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:51 +0000
Subject: [PATCH 66/68] fix: publish a starting pipeline run whole, so a crash
 does not block the project's pipelines

---
 .../src/core/pipelines/run-state.ts           | 33 +++++++++++++++----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/packages/coding-agent/src/core/pipelines/run-state.ts b/packages/coding-agent/src/core/pipelines/run-state.ts
index 85e4681..4a3eacc 100644
--- a/packages/coding-agent/src/core/pipelines/run-state.ts
+++ b/packages/coding-agent/src/core/pipelines/run-state.ts
@@ -1,4 +1,4 @@
-import { lstatSync, mkdirSync, opendirSync, statSync } from "node:fs";
+import { lstatSync, mkdirSync, opendirSync, renameSync, rmSync, statSync } from "node:fs";
 import { basename, dirname, join } from "node:path";
 import { assertPortablePathSegment } from "../../utils/work-directory.ts";
 import { canonicalPathScopeIdentity, isPathWithinScope, safeRealpathSync } from "../autonomy/path-scope.ts";
@@ -147,18 +147,26 @@ export function readPipelineRun(runRoot: string): PipelineRun | undefined {
 	}
 }
 
-export function writePipelineRun(run: PipelineRun): void {
+function assertPersistablePipelineRun(run: PipelineRun): void {
 	if (!isPipelineRun(run)) throw new Error("Pipeline run state is invalid and was not persisted.");
 	assertPortablePathSegment("Pipeline run id", run.runId);
 	if (basename(run.runRoot) !== run.runId) {
 		throw new Error("Pipeline run root must end with its exact run id.");
 	}
+}
+
+function writeRunManifest(directory: string, run: PipelineRun): void {
+	writeFileAtomicSync(runManifestPath(directory), `${JSON.stringify(run, null, 2)}\n`);
+}
+
+export function writePipelineRun(run: PipelineRun): void {
+	assertPersistablePipelineRun(run);
 	mkdirSync(run.runRoot, { recursive: true });
 	const rootStats = lstatSync(run.runRoot);
 	if (!rootStats.isDirectory() || rootStats.isSymbolicLink()) {
 		throw new Error(`Pipeline run root is not a real directory: ${run.runRoot}`);
 	}
-	writeFileAtomicSync(runManifestPath(run.runRoot), `${JSON.stringify(run, null, 2)}\n`);
+	writeRunManifest(run.runRoot, run);
 }
 
 export function createPipelineRunRoot(cwd: string, runId: string): string {
@@ -211,9 +219,6 @@ export function instantiatePipelineRun(args: {
 }): PipelineRun {
 	const first = args.definition.stages[0];
 	if (!first) throw new Error("Pipeline definition has no stages.");
-	for (const stage of args.definition.stages) {
-		mkdirSync(stageOutputDir(args.runRoot, stage), { recursive: true });
-	}
 	const run: PipelineRun = {
 		version: 1,
 		revision: 1,
@@ -227,7 +232,21 @@ export function instantiatePipelineRun(args: {
 		createdAt: args.now,
 		updatedAt: args.now,
 	};
-	writePipelineRun(run);
+	assertPersistablePipelineRun(run);
+	// Build the run under an ignored name and publish it whole: a run directory without its manifest
+	// is an invalid managed entry that would block every later pipeline action in the project.
+	const stagingRoot = join(dirname(args.runRoot), `.${args.runId}.starting`);
+	try {
+		rmSync(stagingRoot, { recursive: true, force: true });
+		for (const stage of args.definition.stages) {
+			mkdirSync(stageOutputDir(stagingRoot, stage), { recursive: true });
+		}
+		writeRunManifest(stagingRoot, run);
+		renameSync(stagingRoot, args.runRoot);
+	} catch (error) {
+		rmSync(stagingRoot, { recursive: true, force: true });
+		throw error;
+	}
 	return run;
 }
 
-- 
2.43.0


From d06683405446ae251fad772e7c0c80fc411e1ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:06 +0000
Subject: [PATCH 67/68] fix: a stage contract that cannot be read no longer
 shortens its pipeline

---
 packages/coding-agent/src/core/pipelines/discover.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/coding-agent/src/core/pipelines/discover.ts b/packages/coding-agent/src/core/pipelines/discover.ts
index 151339e..8642b1c 100644
--- a/packages/coding-agent/src/core/pipelines/discover.ts
+++ b/packages/coding-agent/src/core/pipelines/discover.ts
@@ -58,7 +58,7 @@ export interface DiscoverPipelineOptions {
 	cwd: string;
 }
 
-function readText(path: string, rootDir: string): string | undefined {
+function readText(path: string, rootDir: string, options: { required?: boolean } = {}): string | undefined {
 	try {
 		const stats = lstatSync(path);
 		if (!stats.isFile() || stats.isSymbolicLink() || stats.size > MAX_PIPELINE_DEFINITION_FILE_BYTES) {
@@ -66,7 +66,8 @@ function readText(path: string, rootDir: string): string | undefined {
 		}
 		if (!isPathWithinScope(safeRealpathSync(path), safeRealpathSync(rootDir))) return undefined;
 		return readBoundedTextFileSync(path, MAX_PIPELINE_DEFINITION_FILE_BYTES, "Pipeline definition file");
-	} catch {
+	} catch (error) {
+		if (options.required && (error as NodeJS.ErrnoException).code !== "ENOENT") throw error;
 		return undefined;
 	}
 }
@@ -117,7 +118,9 @@ function loadStage(rootDir: string, stagesDir: string, folderName: string): Pipe
 	const parsed = parseStageFolder(folderName);
 	if (!parsed) return undefined;
 	const contractPath = join(stagesDir, folderName, CONTRACT_FILE);
-	const content = readText(contractPath, rootDir);
+	// A contract that exists but cannot be read now must not shorten the pipeline: a run would skip the
+	// stage, or complete without it.
+	const content = readText(contractPath, rootDir, { required: true });
 	if (content === undefined) return undefined;
 	const contract = parseStageContract(content);
 	return {
-- 
2.43.0


From ac8aacd55d7b08844e4a5efb733db32d5bac5395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:15 +0000
Subject: [PATCH 68/68] fix: answers with several images keep each image's own
 label

---
 packages/coding-agent/src/core/human-input.ts | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/packages/coding-agent/src/core/human-input.ts b/packages/coding-agent/src/core/human-input.ts
index 967cd8c..d4829f6 100644
--- a/packages/coding-agent/src/core/human-input.ts
+++ b/packages/coding-agent/src/core/human-input.ts
@@ -283,6 +283,17 @@ function normalizePresentationResult(request: HumanInputRequest, value: unknown)
 	};
 }
 
+/** Rename labels in one pass, so a new label equal to another image's old one is not renamed again. */
+function renameImageLabels(text: string, renamed: ReadonlyMap<string, string>): string {
+	const labels = [...renamed.keys()].filter((label) => label.length > 0);
+	if (labels.length === 0) return text;
+	const pattern = labels
+		.sort((left, right) => right.length - left.length)
+		.map((label) => label.replace(/[.*+?^${}()|[\]\\]/g, "\\$&"))
+		.join("|");
+	return text.replace(new RegExp(pattern, "g"), (label) => renamed.get(label) ?? label);
+}
+
 function persistPresentationImages(
 	result: HumanInputPresentationResult,
 	imageStore: Pick<SessionImageStore, "retainContent"> | undefined,
@@ -291,14 +302,14 @@ function persistPresentationImages(
 	let imageIndex = 0;
 	const durableContents: ImageContent[] = [];
 	const answers = result.answers.map((answer) => {
-		let custom = answer.custom;
+		const renamed = new Map<string, string>();
 		const images = answer.images?.map((image) => {
 			const content = result.imageContents[imageIndex++];
 			if (!content) throw new Error("Human-input image metadata exceeds supplied image content");
 			const sequenceMatch = /^\[Image #(\d{1,6})\]$/iu.exec(image.label);
 			const stored = imageStore.retainContent(content, sequenceMatch ? Number(sequenceMatch[1]) : undefined);
 			const durableLabel = `[Image #${stored.sequence}]`;
-			if (custom?.includes(image.label)) custom = custom.split(image.label).join(durableLabel);
+			if (!renamed.has(image.label)) renamed.set(image.label, durableLabel);
 			durableContents.push({
 				type: "image",
 				data: Buffer.from(stored.bytes).toString("base64"),
@@ -308,7 +319,7 @@ function persistPresentationImages(
 		});
 		return {
 			...cloneAnswer(answer),
-			...(custom !== undefined ? { custom } : {}),
+			...(answer.custom !== undefined ? { custom: renameImageLabels(answer.custom, renamed) } : {}),
 			...(images && images.length > 0 ? { images } : {}),
 		};
 	});
-- 
2.43.0

