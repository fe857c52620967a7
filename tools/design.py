#!/usr/bin/env python3
"""Writes DESIGN.md: the engine description (design_engine.md), one section per property (oracle texts below, bounds from
the checks' meta, reasons from properties.jsonl), the defects from known-findings.jsonl and the table of planted bugs."""
import json, os, subprocess, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
ORACLE = {
"P01": "The requested path is one symbolic string, link targets are symbolic strings. The real scope check decides; the oracle is the file-system model itself: the admitted path is *written* through it and the inode that changed must lie under an allowed directory and under no denied one. Completeness: a lexically plain inside path must be admitted. Overlap: two scopes with a common file must be reported.",
"P02": "The real envelope gate wraps a recording body (and the real read/ls/write tools behind scope wrapper and gateway). Oracle: a hand-written table of which capability each tool needs, and the file the tool opened in the model must be inside the bounds. Gate outcome lists are symbolic; the strictest must win.",
"P03": "The real compiler runs on capability sets whose memberships are symbolic flags and budgets that are symbolic integers. Oracle: set inclusion and minimum written out directly.",
"P04": "The real budget tracker and tree coordinator, driven by symbolic amounts. Oracle: a shadow sum of everything admitted and reported.",
"P05": "The real atomic-file and bounded-log code on the file-system model. A hook ahead of every mutating operation crashes or fails at a symbolic point (inside a write: after a symbolic prefix); the model's remaining state is read back by the real reader and compared to old/new.",
"P06": "Three acquisitions by real reservation stores over one directory; the oracle resolves each scope through the model's links and compares the inode paths of live grants pairwise; fencing tokens symbolic. Fleet admission is compared with counts taken independently.",
"P07": "Real journal objects; attempts' identity, fencing token and payload symbolic. Oracle: a ghost list of permits granted per operation (at most one), outcomes once written never change, crash at any operation.",
"P08": "The real scheduler under a host whose answers are symbolic and re-entrant. Oracle: ghost ledger of starts, cancels, reservations and releases, order by priority and age.",
"P09": "The command is symbolic text around a dangerous command. Oracle: an independent POSIX quoting lexer in the check decides whether the dangerous words are executed or data.",
"P10": "Real claim reconciliation and action applier over the file-system model with links and a fault at any operation. Oracle: state of the tree before/after, per action.",
"P11": "Symbolic text, symbolic cut positions; the decoded records must equal those of the uncut text by an independent splitter.",
"P12": "Symbolic bytes and cut positions; the event list must equal that of the uncut input, and for pastes the exact content; virtual timers decide stalls.",
"P13": "Symbolic histories through the real transformMessages; oracle: direct definition of pairing and of what must be kept, per block.",
"P14": "Calls are rendered by a small printer in each dialect with symbolic argument text, then parsed by the real parser, whole and streamed at every cut; the arguments must be what was printed.",
"P15": "Symbolic file text and edits; oracle: occurrence counting and replacement by definition over characters; approximate matches by a normalisation table in the check.",
"P16": "Real mutation queue with operations of symbolic duration and start; oracle: intervals per inode never overlap, order kept; write tool with another process acting ahead of any file operation.",
"P17": "Symbolic sequences of session operations on the real SessionManager over the model, shadow tree in the check, reopened after each step, after a crash at any operation with any part of an append written, or after an I/O error.",
"P18": "Symbolic conversations, budgets and retry outcomes through real compaction; oracle: partition of the live entries, pairing, budget arithmetic as unbounded integers.",
"P19": "Symbolic request/rule/path text through the real checkpoint builder, verifier and repair; oracle: word-for-word containment read back by an independent reader of the sections.",
"P20": "Every sequence of provider steps and silences under virtual timers on the real stream watch; oracle: a small phase automaton.",
"P21": "Real classifier and retry controller; failure texts symbolic around the listed ones; delays symbolic; oracle: table of kinds and direct arithmetic.",
"P22": "Symbolic file names, quoting and patterns through the real guards; oracle: what the shell/tool would open, by the check's own lexer and glob matcher; redaction by where the secret was put; credential store by a ghost of bindings and locks.",
"P23": "The real agent loop with a scripted provider and tools with symbolic outcomes, durations and cancellations; oracle: ghost multiset of calls, results, messages; overlap counts.",
"P24": "Real history planner and governor over symbolic call/result sequences; oracle: identity of operations and information told, computed from the script, and the same decisions after a resume.",
"P25": "Symbolic line lengths, limits and byte cuts through the real truncation, accumulator, read tool and artifact store; oracle: the text by definition from the full output.",
"P26": "Symbolic sequences of memory operations of two sessions on the model with crash/fault/outside edit; oracle: shadow list of lines and archive.",
"P27": "Symbolic declarations and values through the real validator/repair; oracle: the check's own reading of each value (which single value it stands for) and a POSIX word splitter.",
"P28": "Two real event stores over one directory in the model; crash, partial write, I/O error or damage at any file operation; oracle: shadow log of acknowledged events.",
"P29": "The real durable task runtime, every sequence of commands from each life stage; oracle: state invariants, per-step laws (`moved`), effect of each reported command, commands plainly in turn must be accepted, and equality after replay, after snapshot load and in a second runtime.",
"P30": "Real goal journal, controller and runtime; oracle: completion rule written out over requirements × evidence × open work; goal read back equals goal saved; objective state is a function of goal state.",
"P31": "Real delegation ledger and runtime from each life stage, reopened at any step; oracle: a repeat records nothing, a conflict is refused, recovery requeues once.",
"P32": "Real wrapping, slicing, truncation, width and text components on symbolic texts; oracle: cells with widths and styles from an independent reading of the control codes.",
"P33": "Real TUI on an emulated terminal; oracle: the frame (and overlay) as cells, compared cell by cell with the screen after every change.",
"P34": "Real editor and input fed with key sequences; oracle: a flat list of characters and folded pastes with a cursor, kill list and visited states.",
"P35": "Real extractor on the file-system model, archives built field by field; oracle: per field, whether another value must be refused, ignored or changes the kind; the tree inside and outside compared.",
"P36": "Both real mailboxes on the file-system and lock models; oracle: a list of messages with what was delivered, answered and released, and counts against each limit for filled mailboxes.",
"P37": "The real settings manager and trust store on the file-system and lock models, up to two sessions and an editor; oracle: the two settings documents as plain values changed one setting at a time, a level-by-level merge, and a map of decisions per real directory; reads of an untrusted project's file are counted.",
"P38": "The real credential store on the file-system and lock models, two sessions, with an OAuth provider that accepts each refresh token once; oracle: the credentials as a plain map, the provider's own record of its current token, the documented order of sources and a one-line definition of templates.",
"P39": "The real packing of a conversation on the file-system model; oracle: a few-line rule of what is stale, recent, superseded and cited, the texts themselves compared with what the store holds, and a table of citations.",
"P40": "The real checklist tool, commands, snapshots and contract monitor; oracle: a reference list of a few lines per call, the documented order of selectors, tables of commands, and a counter of neglected turns.",
"P41": "The real pipeline tool of two sessions on the file-system and lock models; oracle: a list of runs with the outputs put into each stage, a secret kept outside that no text may hold, the tree outside compared before and after, and a table of contracts.",
"P42": "The real question, controller and image-store modules on the session and file-system models; oracle: a table of allowed replies, the bytes put under each label read back through a fresh store, and a list of the images kept with what was done to each file.",
}
exec(open("tools/design_more.py").read()) if os.path.exists("tools/design_more.py") else None
def meta(pid):
    out = subprocess.run(["node", "-e", r'''const s=require("fs").readFileSync(process.argv[1],"utf8");const m=s.match(/export const meta = (\{[\s\S]*?\n\};)/);const x=eval("("+m[1].replace(/;$/,"")+")");console.log(JSON.stringify({b:x.bounds,o:x.outside,a:x.assumptions}))''', f"checks/{pid}.js"], capture_output=True, text=True)
    return json.loads(out.stdout)
props = [json.loads(l) for l in open("properties.jsonl")]
man = json.load(open("MANIFEST.json"))
o = [open("tools/design_engine.md").read().rstrip(), ""]
o += ["## The properties", "",
"Each is decided by `checks/<ID>.js` with the engine above: level *bounded, exhaustive within the bounds* (`model_checking`).",
"\"Specified\" says what is symbolic and what the oracle is. Cost: a quick run takes 5–160 s on 8 cores (time, paths and queries of the last run are in `evidence/<ID>.json`);",
"a thorough run up to its deadline with the wider bounds. Files encoded: everything the listed sources import from /repo that a path reaches (listed per run in the evidence).", ""]
for p in props:
    pid = p["id"]
    if not os.path.exists(f"checks/{pid}.js"): continue
    m = meta(pid)
    o += [f"### {pid} {p['title']}", "", "*Specified.* " + ORACLE.get(pid, ""), ""]
    o += ["*Bounds.* " + "; ".join(m["b"]) + ".", ""]
    if m["o"]: o += ["*Outside.* " + "; ".join(m["o"]) + ".", ""]
    if m["a"]: o += ["*Assumed.* " + "; ".join(m["a"]) + ".", ""]
    o += ["*Beyond tests.* " + p["why_tests_cant"], ""]
o += ["## Genuine defects found", "", "Each was found as a counterexample on the unchanged tree, replayed on the real code, and repaired by a `fix:` commit in /repo; the check reports it again if it returns.", ""]
for l in open("known-findings.jsonl"):
    l = l.strip()
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: o.append(f"- {m[1]} ({m[2]}): {m[3]}")
    elif l: o.append("- recorded: " + l)
o += ["", open("tools/design_tail.md").read()]
open("DESIGN.md", "w").write("\n".join(o))
