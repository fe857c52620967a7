CA = "packages/coding-agent/src/core/"
AG = "packages/agent/src/"
AI = "packages/ai/src/"
TUI = "packages/tui/src/"
NA = {}
PROPS = []
def P(id, title, statement, over, text, tests, files, mech, observe, state=[], **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, observe=observe, state=state, **kw))

P("P01", "Path scopes admit only paths that physically lie inside them",
  "A path that a scope check admits is written by the file system inside an allowed directory and outside every denied one, whatever '..' segments, absolute forms or symbolic links it contains, existing or dangling. Two scopes that can name a common file are reported as overlapping, and a path plainly inside the scope is admitted.",
  "ig", "every requested path up to the stated length, every link layout and every allowed/denied configuration in bounds",
  "The tests sample a handful of traversal strings and one link; the guarantee is over every path string and link layout.",
  [CA+"autonomy/path-scope.ts", CA+"autonomy/envelope-enforcement.ts"],
  [("canonicalising scope comparison", CA+"autonomy/path-scope.ts")], ["scope check verdicts", "location of the bytes written"])
P("P02", "A gated tool runs only when its capability envelope grants the call",
  "A tool wrapped by the envelope gate executes its body only if the envelope holds a capability the tool needs, its allow and deny lists admit the tool, and every path argument, in whatever spelling the tool understands (~, @, file: URL, blanks), lies inside the path bounds; otherwise the call is refused before the body runs. Gate outcomes combine to the strictest one, a malformed outcome counts as a refusal, and an envelope derived for a child never grants more than its parent's.",
  "ig", "every subset of capabilities, tool name, tool list, path argument and outcome list in bounds",
  "Tests check single grants and denials; the combinations of capabilities, lists and path spellings are exponentially many.",
  [CA+"autonomy/gates.ts", CA+"autonomy/composite-tool-gate.ts", CA+"autonomy/envelope-enforcement.ts"],
  [("tool gate", CA+"autonomy/gates.ts"), ("wrapper", CA+"autonomy/composite-tool-gate.ts")], ["whether the wrapped tool body ran", "gate outcome"])
P("P03", "Compiled execution grants never exceed the ceiling, authority or budgets",
  "A compiled execution grant contains only capabilities that were requested or required, that the owner authorised and that lie inside the role's ceiling, and only tools whose manifest is enforceable under it; a required item that cannot be granted makes compilation fail instead of being dropped. Every granted limit is at most the tighter of the two budgets, and exceeding any limit is reported.",
  "ig", "every combination of required, requested, authorised and ceiling capabilities, tool manifests and budget values",
  "Tests use a few hand-written policies; the claim quantifies over all policy combinations and all limit values.",
  [CA+"orchestration/policy-compiler.ts", CA+"orchestration/risk-budget.ts"],
  [("policy compiler", CA+"orchestration/policy-compiler.ts"), ("budget intersection", CA+"orchestration/risk-budget.ts")], ["compiled grant", "compilation failure"])
P("P04", "No call or request is admitted once an execution budget is exhausted",
  "Once an attempt's tool-call, token, cost or time limit is reached, counting what earlier attempts of the same work already used, no further tool call or provider request is admitted. Attempts of one worker tree together never reserve or use more than the tree's limit, reservations are given back on release, and recorded usage never goes down.",
  "ish", "every prior usage, every limit subset and value, and every order of calls, usage reports, clock advances, reservations and releases in bounds",
  "Tests fix amounts and one order; off-by-one at the limit and interleaved reservations need all amounts and orders.",
  [CA+"orchestration/capability-gateway.ts", CA+"delegation/worker-tree-budget-coordinator.ts", CA+"orchestration/attempt-usage.ts"],
  [("capability gateway", CA+"orchestration/capability-gateway.ts"), ("tree budget coordinator", CA+"delegation/worker-tree-budget-coordinator.ts")], ["admission decisions", "accounted usage"])
P("P05", "Atomic stores survive a crash or I/O error at any point",
  "A store written atomically holds, after a crash or an I/O error at any operation, either its whole old or its whole new content; an error is reported, leaves no temporary file or held lock behind, and concurrent read-modify-write updates under one lock lose none. A bounded line log keeps only whole records, stays within its limits, keeps the newest records, and drops none without need.",
  "cfsi", "every crash point and single fault of one update, every interleaving of two, every record sequence and limit in bounds",
  "Tests inject one or two faults; the claim is over every operation at which the process can die or the disk can fail.",
  [CA+"util/atomic-file.ts", CA+"util/bounded-jsonl.ts"],
  [("temp file and rename", CA+"util/atomic-file.ts"), ("bounded append", CA+"util/bounded-jsonl.ts")], ["file content and directory listing after the crash or error"])
P("P06", "Concurrent workers never hold overlapping write scopes",
  "Two live write reservations never cover a common file of the same checkout, whatever spelling or symbolic link names it, a release through a stale or forged lease changes nothing, and a crash during an acquisition or release leaves the store readable and never both granted. A new worker is admitted only below every configured fleet limit, at every level of nesting.",
  "ihcg", "every pair of scopes, fencing token and lease; every crash point; every fleet shape and limit in bounds",
  "Tests use a few disjoint and equal scopes; aliasing paths and crashes between the steps are not enumerated.",
  [CA+"delegation/worker-write-reservation.ts", CA+"delegation/worker-fleet-limits.ts"],
  [("reservation store", CA+"delegation/worker-write-reservation.ts"), ("fleet limits", CA+"delegation/worker-fleet-limits.ts")], ["granted reservations", "admission decisions"])
P("P07", "A worker's mutation is executed at most once across crashes and retries",
  "For one worker task, a given write or edit is permitted to run at most once, whatever attempts crash, retry or race, and a mutation whose outcome is unknown is reported for inspection instead of being repeated. A recorded outcome is never changed, least of all by another attempt, and a damaged journal fails closed.",
  "chi", "every sequence of begin/outcome steps by attempts with any identity and token, every crash point, every damage pattern in bounds",
  "Tests crash at a few named points; at-most-once must hold at every one and for every later attempt.",
  [CA+"delegation/worker-action-journal.ts"],
  [("write-ahead intent journal", CA+"delegation/worker-action-journal.ts")], ["permits granted", "journal read back after the crash"])
P("P08", "Queued worker lanes run at most once and are never lost",
  "Every lane queued for dispatch is started at most once, within the admission decisions of its host, priority lanes first and otherwise in order; none is lost while it may still run, and a lane that cannot run is cancelled exactly once. Everything held for a lane is released when it ends, even when callbacks throw or re-enter the scheduler.",
  "shf", "every sequence of enqueue, drain, signal, settle and drop steps with every callback result, including throws and re-entry, in bounds",
  "Tests script a few schedules; the claim is over every interleaving and every failing callback.",
  [CA+"delegation/worker-dispatch-scheduler.ts"],
  [("dispatch queue", CA+"delegation/worker-dispatch-scheduler.ts")], ["lanes started and cancelled", "in-flight registrations"])
P("P09", "Dangerous shell commands are held for approval despite quoting",
  "A destructive, history-rewriting or credential-touching command that the shell would execute is classified as needing approval wherever it stands in the command line, whatever quoting, escapes or comments surround it. Text the shell only treats as data, such as a quoted argument or a local commit message, does not raise that alarm.",
  "i", "every prefix, suffix and quoted argument over the shell's quoting alphabet up to the stated length around each dangerous command",
  "Tests list example commands; quoting confusions arise from rare combinations of quotes, escapes and comments.",
  [CA+"risk-classifier.ts", CA+"autonomy/gates.ts"],
  [("quote-aware risk patterns", CA+"risk-classifier.ts")], ["risk assessment and gate outcome of a shell call"])
P("P10", "A worker's results are applied and accepted only inside its grant",
  "Files a worker reports as changed outside its granted scope are blocked, in-scope changes go to parent review, and only a complete, unblocked, change-free claim for the right request is accepted outright. Actions a worker emits are applied exactly as written or not at all, each is reported as changed, refused, failed or unknown, none touches a file outside the grant, and a malformed batch is rejected whole.",
  "ifg", "every claim shape, changed-file path, action payload and single file-system fault in bounds",
  "Tests sample a few claims and edits; payload characters, path spellings and faults between write steps are not enumerated.",
  [CA+"delegation/worker-claim.ts", CA+"delegation/worker-actions.ts"],
  [("claim validation", CA+"delegation/worker-claim.ts"), ("action application", CA+"delegation/worker-actions.ts")], ["claim verdict", "file contents", "action report"])

P("P11", "Records and lines do not depend on how the transport cuts the bytes",
  "A line-delimited stream (RPC records, provider event streams) yields exactly its lines however its bytes are cut into chunks, empty chunks and cuts inside CRLF or a multi-byte character included. A record written to the wire is one line and reads back equal, whatever characters its strings hold; an over-long line is refused or skipped alone.",
  "is", "every text up to the stated length over the framing characters and every pair of cut positions",
  "Tests cut a few example streams; framing bugs need a particular character on either side of a particular cut.",
  ["packages/coding-agent/src/modes/rpc/jsonl.ts", AI+"utils/streaming-lines.ts"],
  [("incremental line decoder", AI+"utils/streaming-lines.ts"), ("RPC reader", "packages/coding-agent/src/modes/rpc/jsonl.ts")], ["lines delivered to the reader"])
P("P12", "Key presses and pastes survive any chunking of terminal input",
  "Terminal input yields the same key and paste events however the reads cut it, as long as the pieces arrive in time; a paste is delivered whole and byte for byte, including text that resembles its markers. When input stalls mid-sequence, everything received is delivered once and in order after the timeout, and later input works normally.",
  "is", "every input up to the stated length over the escape-sequence alphabet, every sequence of complete keys and pastes, and every cut",
  "Tests feed a few sequences in fixed pieces; the number of input and cut combinations is large.",
  [TUI+"stdin-buffer.ts", TUI+"bracketed-paste.ts"],
  [("sequence splitter", TUI+"stdin-buffer.ts"), ("paste collector", TUI+"bracketed-paste.ts")], ["data and paste events"])
P("P13", "Histories sent to a model pair each tool call with exactly its own result",
  "In the history sent to any provider, each tool call is followed by exactly one result carrying its id: its real result if one exists, otherwise one marked as interrupted; failed and aborted turns are left out together with their results, even when ids repeat across turns. Signatures, opaque thinking and call ids of another model and images the model cannot take are never sent, while everything else arrives unchanged, in order, and the stored history is not modified.",
  "hi", "every history in bounds of completed, failed and aborted turns of either model, with repeated ids and missing or reordered results",
  "Tests use a few transcripts; repeated ids, model switches and failures interact combinatorially.",
  [AI+"providers/transform-messages.ts", AI+"image-support.ts"],
  [("history transformation", AI+"providers/transform-messages.ts")], ["messages handed to the provider"])
P("P14", "Text-protocol tool calls come out exactly as written, and quoted ones never run",
  "A tool call a model writes in any accepted text dialect comes out as exactly that call with its arguments unchanged and the surrounding text kept; text that only quotes an envelope inside another call's arguments never becomes a call, and all calls of one reply have distinct ids. While streaming, envelope markup is never shown, shown text is never taken back, and what is shown does not depend on how the stream was cut.",
  "is", "every argument text over the delimiter alphabet, quoted envelope, dialect and stream cut in bounds",
  "Tests use hand-picked envelopes; nesting and cut positions multiply.",
  [AI+"utils/tool-repair/text-protocol.ts", AI+"utils/tool-repair/text-protocol-live-filter.ts", AI+"stream.ts"],
  [("envelope parser", AI+"utils/tool-repair/text-protocol.ts"), ("live filter", AI+"utils/tool-repair/text-protocol-live-filter.ts"), ("stream wrapper", AI+"stream.ts")], ["parsed calls", "streamed events"])
P("P15", "An edit replaces exactly the text asked for and leaves every other byte alone",
  "An edit is applied only where its old text occurs exactly once in the file (and, if a line range is given, inside it), and the new file is the old one with just that place replaced: other text, line endings and the byte order mark stay. Absent, ambiguous, overlapping or empty edits are refused and a batch is applied whole or not at all. A match up to quotes, dashes and trailing blanks replaces exactly the original text it stands for. A change another process made before the last check before writing is never overwritten.",
  "is", "every file text and edit list up to the stated lengths, and every point at which another process changes the file",
  "Tests use a few example files; boundary characters, mixed endings and the position of a foreign write multiply.",
  [CA+"tools/edit-diff.ts", CA+"tools/edit.ts", CA+"tools/file-mutation-intent.ts"],
  [("match planning", CA+"tools/edit-diff.ts"), ("edit tool", CA+"tools/edit.ts"), ("identity checks", CA+"tools/file-mutation-intent.ts")], ["bytes of the file after the edit", "refusals"])
P("P16", "File tool calls run one at a time per file and a write never overwrites",
  "Operations of the file tools on one file, under whatever names or links, run one after another in the order they were asked for; no file operation runs beside an exclusive command; operations on different files need not wait; each caller gets its own outcome and a failure holds up nobody. A write to a path that exists, or that another process creates first, is refused and leaves the file as it is; its payload is kept and can be written elsewhere unchanged. A write by reference copies exactly the content referred to, or fails and leaves no file.",
  "sif", "every mix of three operations with every duration and start in bounds, and every point at which another process creates, changes or removes a file",
  "Tests run two or three operations in one order; order, aliases, failures and foreign changes multiply.",
  [CA+"tools/file-mutation-queue.ts", CA+"tools/write.ts", CA+"tools/file-mutation-intent.ts"],
  [("mutation queue", CA+"tools/file-mutation-queue.ts"), ("write tool", CA+"tools/write.ts"), ("content and payload references", CA+"tools/file-mutation-intent.ts")], ["order of operations", "file contents", "refusals"])
P("P17", "A session reopens as the conversation that was saved, also after a crash",
  "A reopened session has the tree of entries, the current branch, labels, model and thinking level that were saved, whatever was branched, compacted or labelled; a fork holds exactly its branch and leaves the original file unchanged. After a crash at any point everything acknowledged is there unchanged, at most the entries in flight are missing, and later entries are not lost. A message that could not be saved is not part of the conversation. Large messages read back unchanged, and sessions of older versions keep their conversation.",
  "hcf", "every history of session operations, every crash point and single fault, and every older version in bounds",
  "Tests use a few fixed session files; branch shapes, torn records and the point of the crash multiply.",
  [AG+"session/session-manager.ts", AG+"session/session-tree.ts"],
  [("session manager", AG+"session/session-manager.ts"), ("session tree", AG+"session/session-tree.ts")], ["conversation of the reopened session", "session file"])
P("P18", "Compaction loses nothing unseen and always comes to an end",
  "What a compaction summarises and what it keeps are together the live conversation, each message once and in order: no tool result is kept without its call, recent messages are kept up to the budget and not much more, every message that leaves and the earlier summary are shown to the summariser, and replacing the session leaves only the request and the summary. A nearly full context always forces compaction. The retry ladder makes at most four attempts, applies nothing after cancellation, and reports success only with the reported checkpoint in place.",
  "ihf", "every conversation shape, budget, context size and outcome of each attempt in bounds",
  "Tests compact a few fixed conversations; where the cut falls among calls, results, splits and earlier summaries is a large space.",
  [AG+"compaction/compaction.ts", AG+"compaction/loop.ts"],
  [("cut point", AG+"compaction/compaction.ts"), ("retry ladder", AG+"compaction/loop.ts")], ["messages kept and summarised", "attempts made", "outcome reported"])
P("P19", "A checkpoint keeps the user's request and rules word for word",
  "An accepted checkpoint holds the latest request of the user (its first 4000 characters) word for word, each of the user's eight latest rules word for word, also across further compactions, every file that was changed, and every failure still open, while a failure that was fixed is not listed as open. Text of the summariser's own instructions never enters it as the user's. A summary that lacks what it must have and cannot be filled in is refused; one that can is accepted.",
  "ih", "every request, rule, path and command text up to the stated lengths and every shape of the model's summary in bounds",
  "Tests use ordinary sentences; markdown marks, look-alike rules and repeated compaction break word-for-word keeping.",
  [AG+"compaction/verification.ts", AG+"compaction/extraction.ts", AG+"compaction/compaction.ts"],
  [("extraction", AG+"compaction/extraction.ts"), ("verification", AG+"compaction/verification.ts")], ["sections of the checkpoint", "refusals"])
P("P20", "A model stream ends exactly once and only real silence cuts it off",
  "A watched model stream ends with exactly one outcome, which is last and is what result() gives; the provider's events reach the reader unchanged and in order; it is cut off as stalled only when nothing arrived for the whole limit of its phase, then its request is cancelled and what was received is kept; a cancellation by the caller reaches the provider and is reported as aborted; a stream that breaks off is reported as failed. Nothing happens and no timer is left after the end. A combined abort signal fires when and only when one of its signals does.",
  "sfi", "every sequence of provider events, silences, failures and cancellations in bounds",
  "Tests drive a few event orders; the race of events, limits, cancellation and errors is over all orders and times.",
  [AG+"reliability/watchdogs.ts", AI+"utils/event-stream.ts", AI+"utils/abort-signals.ts"],
  [("stream watchdog", AG+"reliability/watchdogs.ts"), ("event stream", AI+"utils/event-stream.ts"), ("combined signals", AI+"utils/abort-signals.ts")], ["events delivered", "outcome", "timers left"])
P("P21", "Only transient model failures are retried, as often and as late as allowed",
  "A failed model request is repeated only if its failure can pass (overload, rate limit, server, network, stall), never for billing, credentials, context overflow, cancellation or unknown failures even when the text also speaks of a transient one; never more often than allowed nor before its delay, which is the provider's suggestion up to the cap or else doubles. The failed answer is out of the conversation before the retry, and cancelling stops it leaving no timer. A context overflow is recognised from the providers' documented texts or the usage, throttling is not taken for one.",
  "ifs", "every sequence of failures, suggested delay, allowance and cancellation time in bounds",
  "Tests check single messages; combinations of texts, delays and cancellation points multiply.",
  [AG+"reliability/retry-controller.ts", AG+"reliability/classifier.ts", AG+"reliability/retry.ts", AI+"utils/provider-retry.ts", AI+"utils/overflow.ts"],
  [("retry controller", AG+"reliability/retry-controller.ts"), ("failure classifier", AG+"reliability/classifier.ts"), ("request retry", AI+"utils/provider-retry.ts"), ("overflow detection", AI+"utils/overflow.ts")], ["requests made", "delays", "classification"])
P("P22", "Credential files and secret values stay out of the model's reach",
  "A call of the file, search, shell inspection, Python or process tools that names a credential file (.env, .env.*, *.env, a protected file or directory) in any spelling, quoting, link, operand or input redirect is refused before it runs; a search runs only over named files or a file pattern that cannot match .env or *.env; other calls run. Active secret values are removed from results, details, updates and errors, other text is kept. Untrusted text cannot close or forge its fence. Dotenv values are read as written and errors never quote them. A stored profile's environment is active only in projects it is bound to, and not after the owner locks, whenever the lock lands.",
  "ifs", "every path, quoting, pattern, text, document and operation order in bounds",
  "Tests check single spellings; spellings, quotings and lock points multiply.",
  [CA+"secrets/credential-exposure-guard.ts", CA+"secrets/credential-manager.ts", CA+"secrets/secret-dotenv.ts", CA+"security/secret-text.ts", CA+"security/untrusted-boundary.ts", CA+"tools/search-command-guard.ts", CA+"tools/shell-command-parser.ts"],
  [("exposure guard", CA+"secrets/credential-exposure-guard.ts"), ("credential manager", CA+"secrets/credential-manager.ts"), ("dotenv parser", CA+"secrets/secret-dotenv.ts"), ("secret shapes", CA+"security/secret-text.ts"), ("untrusted boundary", CA+"security/untrusted-boundary.ts")], ["refusals", "text returned", "environment per directory"])
P("P23", "An agent run answers every tool call once and loses no message",
  "Each requested tool call runs at most once and its result reaches the model exactly once, in call order; refused, invalid or cancelled calls do not run and are answered as errors; a failure is never reported as success. Progress is reported only between a call's start and end; at most four calls overlap, sequential ones never. Queued steering and follow-up messages are delivered exactly once in order, or stay queued and are delivered on continue; follow-ups wait until work is done. Nothing is sent to the model after cancellation; turn and stall limits hold exactly. A call handed to the background yields one result and outlives a foreground cancel. A run ends once, leaving no timers.",
  "ish", "every call batch, completion order, queue timing, refusal, failure and cancellation point in bounds",
  "Tests follow a few schedules; orders of completion, queueing and cancellation multiply.",
  [AG+"agent-loop.ts", AG+"agent.ts"],
  [("agent loop", AG+"agent-loop.ts"), ("agent", AG+"agent.ts")], ["tool executions", "messages sent to the model", "events"])

P("P24", "The model sees every tool result and repeats only what can tell it something new",
  "The request sent to the model leaves the stored transcript unchanged; a call and its result are kept or dropped together and in order; a successful result is dropped only when a later one is of the same operation or carries the same long text; withdrawn attempts are never shown; failure details are bounded and the failure list names exactly the open failures, as inert data. An operation that failed or told nothing is refused when repeated identically until a tool succeeds or the user speaks (a timeout may be retried once), is then answered as an error and not executed; a resumed session decides the same. No other call is refused.",
  "ih", "every transcript of calls, results, texts and user turns in bounds",
  "Tests use single transcripts; which results coincide and where the user speaks multiply.",
  [AG+"tool-failure-memory.ts", AG+"tool-failure-recovery-gate.ts", AG+"agent-loop.ts"],
  [("request projection", AG+"tool-failure-memory.ts"), ("repetition gate", AG+"tool-failure-recovery-gate.ts")], ["request sent to the model", "calls refused"])
P("P25", "Long output is cut only where it says so and the whole can be had",
  "Output within the limits is shown unchanged. Longer output is shown as an unbroken run of its complete first lines, last lines, or both around a line naming how many lines were left out (a last line that is itself too long shows its end), never above the byte and line limits; totals are right, and how the bytes arrived changes nothing. The saved output is exactly what was produced up to its cap, and a cut or failed save is reported. Following the read tool's offsets shows every line of a file exactly once, also filtered, numbered and for large files. A named artifact holds the whole output, is kept while held, also across a crash, and never made up; other ids reach nothing.",
  "icf", "every text, limit, chunking, page size, sequence of holds and crash point in bounds",
  "Tests cut a few texts; where limits, multibyte characters, blank lines, chunks and filters meet multiplies.",
  [AG+"utils/truncate.ts", CA+"tools/output-accumulator.ts", CA+"tools/read.ts", CA+"context/tool-output-packer.ts", CA+"context/context-artifacts.ts", CA+"context/artifact-retrieval.ts"],
  [("truncation", AG+"utils/truncate.ts"), ("output accumulator", CA+"tools/output-accumulator.ts"), ("read tool", CA+"tools/read.ts"), ("artifact store", CA+"context/context-artifacts.ts")], ["text shown", "saved output", "artifacts"])

P("P26", "What was remembered stays as written until it is replaced or removed",
  "Memory text is stored exactly as given. Adding appends a line, or supersedes the one it rewords; replacing or removing changes the first occurrence of the named text and nothing else, and is refused when it is absent. An edit made outside is never overwritten and a copy of it is kept. The files stay within their budgets; preferences that no longer fit move to an archive where they can still be found, replaced and removed. Attack texts and hidden characters are refused. A crash or error leaves the old or the new content, usable afterwards, and no session loses another's update. Structured records read back exactly, never overwrite each other, stay in their project, follow no link and can be removed; organizing loses no fact. The model is shown what is stored, bounded, blocked lines marked.",
  "ischf", "every operation, text, order, second session, outside edit, crash and failure point in bounds",
  "Tests store plain sentences once; patterns in texts, limits, two sessions and crash points multiply.",
  [CA+"memory/providers/file-store.ts", CA+"memory/providers/user-memory-archive.ts", CA+"memory/okf-project-memory-store.ts", CA+"context/okf-memory.ts", CA+"context/okf-memory-provider.ts"],
  [("memory files", CA+"memory/providers/file-store.ts"), ("preference archive", CA+"memory/providers/user-memory-archive.ts"), ("structured records", CA+"memory/okf-project-memory-store.ts")], ["memory files", "archive", "records", "prompt"])

P("P27", "A tool runs with what the model sent, or with a faithful repair of it",
  "Arguments that fit a tool's declaration are passed on untouched. Others are refused with a message, or repaired so that they fit: every value sent is kept, unchanged and under its field (allowing for quoting, wrapping, letter case, known aliases), only empty placeholders of optional fields are left out, no value is made up, and the changed fields are named. Arguments with only one reading are repaired. What the model sent is never changed in place. A list of words becomes a shell command only if the shell reads back the same words. Of malformed text only whole values are used, never a part of one. Repair can be switched off.",
  "i", "every shape, text, spelling and malformation in bounds",
  "Tests try one fixture per repair; shapes, optional fields, nested values and broken text combine.",
  [AI+"utils/validation.ts", AI+"utils/tool-repair/analyzer.ts", AI+"utils/tool-repair/repairer.ts", AI+"utils/tool-repair/registry.ts"],
  [("argument validation", AI+"utils/validation.ts"), ("argument repair", AI+"utils/tool-repair/repairer.ts")], ["arguments", "notes", "refusals"])

P("P28", "The orchestration event log keeps one whole, ordered history",
  "Every committed event is in the log once, in commit order with consecutive positions, for every store opened on it. Repeating an append with its key returns the first event; the key with other content, or a wrong expected position, is refused. After a crash or file error an event is whole or absent and the log goes on. Compaction keeps history and keys; damage is reported, never read as another history; a reader beside a writer never sees a history that never was. A listener hears each of its store's commits once.",
  "iscfh", "every sequence of appends and compactions by two stores, crash point, file error and damage in bounds",
  "Tests check single appends and one damaged file; crash points, compactions and writers combine.",
  [CA+"orchestration/event-store.ts"],
  [("event store", CA+"orchestration/event-store.ts")], ["log", "positions", "listeners"])

P("P29", "Task work is leased once, proven before it counts, and survives any reload",
  "A task has at most one live attempt and an agent at most one. Work is queued, leased or started only while its objective is active, approvals are granted, what it depends on is done, its retry delay is over and its budget lasts; an old or expired lease is refused and fencing tokens never go back. A task or objective is completed only with the trusted evidence or review it requires. What has ended never changes, and a closed objective keeps no open work. A refused command changes nothing, a reported one took effect, and every state reached is the same after a reload or in another runtime.",
  "hscp", "every sequence of commands, from every life stage, with every change of clock in bounds",
  "Tests follow single life cycles; commands out of turn, repeated and after reloads multiply.",
  [CA+"orchestration/task-runtime.ts", CA+"orchestration/task-runtime-reducer.ts", CA+"orchestration/task-runtime-codecs.ts"],
  [("task runtime", CA+"orchestration/task-runtime.ts"), ("reducer", CA+"orchestration/task-runtime-reducer.ts"), ("snapshot codec", CA+"orchestration/task-runtime-codecs.ts")], ["task and attempt states", "leases", "reloaded state"])
P("P30", "A goal ends only when proven, and the work delegated under it follows it",
  "The agent completes a goal only when every requirement is satisfied, each by trusted evidence it cites (unless that rule is switched off), and no step, lane, background task or pipeline of it is open; it can neither change what was asked nor act on a goal that is stopped. A goal starts again only by its owner. The goal read back from the session is the goal that was saved, a damaged journal never brings an older one back, and a change based on an outdated goal is refused. Delegated work is active, paused or ended as its goal is, knows its requirements and proof, and ends when the goal is completed, cancelled, cleared or replaced.",
  "hsi", "every sequence of agent, owner and system actions, from every life stage, in bounds",
  "Tests follow single flows; reuse, replacement and reopening across goal and work state do not show there.",
  [CA+"goals/goal-tool-core.ts", CA+"goals/goal-state.ts", CA+"goals/goal-session-controller.ts", CA+"goals/session-goal-state.ts", CA+"orchestration/delegation-ledger.ts"],
  [("completion rules", CA+"goals/goal-tool-core.ts"), ("goal journal", CA+"goals/session-goal-state.ts"), ("controller", CA+"goals/goal-session-controller.ts"), ("delegated work", CA+"orchestration/delegation-ledger.ts")], ["goal status", "journal read back", "objective and attempts"])
P("P31", "Delegated work is recorded once and, when interrupted, taken up once more",
  "Repeating a delegation or a message to an agent that is under way returns the same attempt and records nothing; one that differs from what was recorded is refused. A new one is queued exactly as asked, under the agent's unchanged contract, only while its objective is active, the agent is idle and the budget lasts. After a restart, work that was running in the old process is given up and queued again exactly once with the same request, or failed when its attempts are spent; no other work is disturbed, work that cannot be queued now does not stop the rest, and recovering again adds nothing.",
  "hsci", "every sequence of requests, outcomes and restarts, from every life stage, in bounds",
  "Tests retry one request and recover one lane; conflicting retries and mixed recoveries multiply.",
  [CA+"orchestration/delegation-ledger.ts", CA+"orchestration/task-runtime.ts"],
  [("requests and recovery", CA+"orchestration/delegation-ledger.ts"), ("task runtime", CA+"orchestration/task-runtime.ts")], ["queued attempts", "event log", "recovered work"])
P("P32", "Rendered text fits its width and keeps every character and style",
  "Text wrapped to a width gives lines that each fit it, in which every character that is not a blank at a break appears once, in order and in its style; words are split only when longer than the width. Line breaks end lines; underlines and links do not run past a line's end. Truncated text fits the width, is the whole text or a start of it with the ellipsis, and is padded exactly. Slices and overlay segments hold exactly the columns asked for, in their styles, a wide character that is cut being left out. Measured widths are those shown. Text components fill their width exactly.",
  "is", "every text in bounds over letters, blanks, wide characters, marks, tabs, breaks and style codes, in every width",
  "Tests try chosen strings; codes, wide characters and widths meet at every column.",
  [TUI+"utils.ts", TUI+"components/text.ts", TUI+"components/truncated-text.ts"],
  [("wrapping, slicing and width", TUI+"utils.ts"), ("text components", TUI+"components/text.ts")], ["rendered lines", "cells and styles"])
P("P33", "The terminal shows exactly the current frame, whatever changed since the last",
  "After every change of what components render, of the terminal's size, of an overlay or of the cursor mark, after a forced redraw and after a stop and start, the terminal shows each line of the current frame on its row, cut at the edge, in its style, and nothing of an earlier frame; the end of the frame is on the screen, the cursor is at its mark, no line runs over the edge and what stood on the terminal before is kept. An overlay covers just its own cells at the place asked for, kept on the screen, and what it covered returns when it goes.",
  "hsi", "every sequence of changes to frames, sizes, overlays and cursor in bounds, on an emulated terminal",
  "Tests replay chosen frame pairs; partial redraws depend on scrolling, sizes and earlier frames.",
  [TUI+"tui.ts", TUI+"utils.ts"],
  [("differential renderer", TUI+"tui.ts"), ("slicing", TUI+"utils.ts")], ["the emulated screen", "cursor"])
P("P34", "What is typed, pasted and edited is what is submitted, and undo leads back",
  "In the prompt editor and in single-line inputs every key does just what it stands for, by whole characters, words, lines and folded pastes, and changes nothing else. What is killed comes back as it was; a folded paste keeps its content however it is copied, killed, moved or renumbered. Undo leads back through texts that were there, down to the first. The text submitted is the text entered, pastes written out. The drawn lines hold exactly the text within the width, the cursor where it is. Private and masked fields never show their content or keep it in undo, history or kill memory.",
  "hsi", "every sequence of edits from each prepared state in bounds, widths and paddings included",
  "Tests follow single key sequences; kills, folds, undo and renumbering interact.",
  [TUI+"components/editor.ts", TUI+"components/input.ts", TUI+"kill-ring.ts", TUI+"undo-stack.ts", TUI+"word-navigation.ts", TUI+"bracketed-paste.ts"],
  [("editor", TUI+"components/editor.ts"), ("single-line input", TUI+"components/input.ts"), ("kill memory", TUI+"kill-ring.ts")], ["text and cursor", "submitted text", "drawn lines"])
P("P35", "An archive is unpacked whole, inside its destination, or refused",
  "A downloaded ZIP is unpacked only as the files and folders it names below the destination, each with the content its checksum and size stand for, private to the user. An entry that leads elsewhere, names a link or device, clashes with another or with what is there, crosses a link, or an archive cut, damaged, encrypted or at odds with itself is refused. Nothing outside the destination, and nothing that was there before, is ever changed; every refusal and failed write is reported as such.",
  "ipf", "every name, every byte of every header, every cut and damage, and every obstacle on the path in bounds",
  "Tests try some hostile archives; any single byte can make one.",
  [CA[:-5]+"utils/zip-extractor.ts"],
  [("reading and unpacking", CA[:-5]+"utils/zip-extractor.ts")], ["tree below the destination", "tree outside", "refusal"])
P("P36", "Messages between workers and session are kept, once, until answered",
  "A message accepted into a worker's mailbox, or a worker's reply accepted for its session, is held until it is delivered, reconciled and acknowledged, across restarts, crashes at any step and failing writes. Sent again under its identity it is taken once and gives what was first accepted; changed, it is refused, even after its history was dropped. A reply is owed, begun, committed or rolled back as a whole. Limits refuse new messages, never what was accepted, and only the oldest completed history goes. Waiting ends once: at a reply, an abort or the timeout. A damaged mailbox is neither read nor written over.",
  "sch", "every history of operations, crash point, fill level and damaged field in bounds",
  "Tests fill one limit at a time; replay, release, pruning, crashes and limits interact.",
  [CA+"delegation/session-root-mailbox.ts", CA+"delegation/worker-agent-control.ts", CA+"delegation/replay-safe-mailbox-bounds.ts"],
  [("session root mailbox", CA+"delegation/session-root-mailbox.ts"), ("worker mailbox", CA+"delegation/worker-agent-control.ts")], ["pending and awaiting messages", "replay results", "refusals"])

P("P37", "Settings survive other sessions; projects act only when trusted",
  "Changing one setting changes that setting and nothing else: what another session, an editor or a newer version wrote stays, also nested and also when both write for the first time, across crashes at any step and failing writes, which are reported and stored with the next change. A settings file that cannot be parsed is never written over. In force are the user's settings with those of the project over them, level by level. Settings of a project that is not trusted are neither read, applied nor written, also when trust is withdrawn while a change waits. A decision of trust holds for that directory, under every name it has, and a damaged record trusts nothing. A worker's session never writes settings or trust.",
  "sch", "every setter and history of changes, layers, trust decisions, damage and crash point in bounds",
  "Tests set one field in one process; stale sessions, first writes and withdrawn trust interact.",
  [CA+"settings-manager.ts", CA+"trust-manager.ts", CA+"util/atomic-file.ts"],
  [("settings manager", CA+"settings-manager.ts"), ("project trust", CA+"trust-manager.ts")], ["settings files", "settings in force", "trust decisions"])

P("P38", "Credentials are stored whole, refreshed once and taken in order",
  "A change of one provider's credential changes no other, whoever else writes, across crashes at any step and failing writes, which are reported; the file and everything beside it is readable by its owner alone, and one that is damaged is never written over. However many requests of however many sessions meet an expired or refused token, it is refreshed once, no refresh token is used twice, what the provider gave is what is stored, and each gets a key that is valid or none; a failed refresh leaves the token for the next try and nothing locked. A key comes from the command line, else the store, the environment, the configured fallback; a template is filled as documented or gives no key. A status never shows one.",
  "sch", "every history, schedule of requests, provider answer, source and template in bounds",
  "Tests run one refresh race; expiry, refusal, replacement, failure and other writers interact.",
  [CA+"auth-storage.ts", CA+"resolve-config-value.ts", AI+"utils/oauth/index.ts", CA+"util/atomic-file.ts"],
  [("credential store", CA+"auth-storage.ts"), ("key templates", CA+"resolve-config-value.ts")], ["the credentials file", "keys given", "refresh requests"])

P("P39", "Packing of stale context loses nothing and touches nothing recent",
  "Before a turn only stale results are packed: a read superseded by a later read of the same file, an old long result of a listed tool, an old page of memory; never a message among the recent ones kept, a latest read, a result the assistant still speaks of within the last answers, a short one, or one of another kind. Messages keep number, order, role, call and sender, so every call keeps its answer; the conversation itself is not changed. A packed message says how much was left out, and names a place only if the exact text is there, whatever write fails or crashes; two texts never share a place, a preview writes nothing, and the same conversation is packed the same way. The report adds up.",
  "hicf", "every conversation of the turns in bounds, citation, limit, store state, fault and crash point",
  "Tests pack a few conversations; recency, supersession, citation and store faults interact.",
  [CA+"context-gc.ts", CA+"text-preview.ts", CA+"util/atomic-file.ts"],
  [("context packing", CA+"context-gc.ts")], ["messages sent", "the packed store", "the report"])

P("P40", "The session checklist is what the calls made it, and is read back whole",
  "After any calls the checklist read back from the session is the one asked for: at most one step is in progress, the one asked for last; a step put back is told; a replaced list keeps the numbers, notes, evidence and links of steps it still has; no number is given twice; a duplicate of an open step is not added; a refused call changes nothing. Whatever is accepted can be read back, at every limit, and a damaged entry never hides an older whole one. A selector changes the one step it names or none. A step is linked only to a stage of the active run, never by half. Commands mean what is documented; a neglected list is noted once, at the third turn.",
  "hi", "every history of calls, selector, link, limit, stored entry and sequence of turns in bounds",
  "Tests make single calls; kept fields, demotion, limits and read-back interact over histories.",
  [CA+"tasks/task-state.ts", CA+"tools/task-steps.ts", CA+"tasks/task-command.ts", CA+"tasks/session-task-state.ts", CA+"tasks/task-contract-monitor.ts", CA+"session-snapshot.ts"],
  [("checklist", CA+"tasks/task-state.ts"), ("checklist tool", CA+"tools/task-steps.ts")], ["the checklist read back", "tool results", "commands"])

P("P41", "A pipeline run passes its stages in order, by what is on disk, and stays inside",
  "A project has at most one active run, whichever session starts or continues it; a run moves to the next stage only if the stage at hand has a real file among its outputs, no open step is linked to it and no tool task runs, and it completes after its last stage alone. What is told of a run is what is stored, and what a session remembers never counts for more. After a crash at any step, or a read or write that fails, the run is as before or after, any session can go on, and nothing is reported that was not stored. Nothing outside the project's runs and the definition is read into the context, counted as output or written, by path or link; the context is bounded. An unreadable or ambiguous store is never built upon.",
  "hgcf", "every history of two sessions, layout, link, store content, fault and crash point in bounds",
  "Tests walk a few runs; sessions, links, faults and the run store interact.",
  [CA+"pipelines/run-state.ts", CA+"pipelines/increment.ts", CA+"pipelines/discover.ts", CA+"pipelines/context.ts", CA+"pipelines/parse-contract.ts", CA+"tools/pipeline.ts"],
  [("pipeline runs", CA+"pipelines/run-state.ts"), ("pipeline tool", CA+"tools/pipeline.ts")], ["the run store", "stage contexts", "tool results"])

P("P42", "A question to the user is answered by the user alone, whole, once and for itself",
  "A reply is taken as the answer only if it answers each question once with what was offered; every other reply counts as cancelled or is refused, and a question is settled once. What the user wrote is kept whole: a long text is stored and its place told, or the question stays open; every image of an answer is kept under a label of its own, and each label in the text leads to the image that was given under it, in whatever session images were kept before. A question left open is asked again once, in its own session, and its answer goes to its own call; what was answered is not asked again, images lost or not supported are told. The image store gives back an image exactly or not at all, never a damaged, linked or another session's, after any fault or crash.",
  "hicf", "every reply, label, text length, history, fault and crash point in bounds",
  "Tests use tidy replies and single images; labels, stored images, restarts and faults interact.",
  [CA+"human-input.ts", CA+"human-input-controller.ts", CA+"session-image-store.ts"],
  [("questions to the user", CA+"human-input.ts"), ("session images", CA+"session-image-store.ts")], ["answers and their texts", "stored snapshots", "images given back"])
