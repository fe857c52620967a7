// Folder pipelines: one active run a project, stages passed by what is on disk, nothing outside read or written.
import { S } from "symex";
import fs from "node:fs";
import { findActivePipelineRun, loadPipelineRunById, resolveCurrentProjectPipelineRun, resolvePipelineDefinitionForRun, scanStageOutput } from "@repo/packages/coding-agent/src/core/pipelines/index.ts";
import { createActivePipelineContextMessage } from "@repo/packages/coding-agent/src/core/pipelines/active-context.ts";
import { parseStageContract } from "@repo/packages/coding-agent/src/core/pipelines/parse-contract.ts";
import { crash, fault } from "./lib/fault.js";

export const meta = {
  bounds: ["every sequence of 2 (thorough 3) of 15 actions of two sessions, from 7 stages of life of the runs of a project", "a start, increment, last increment or abandonment crashing at any step or failing at any write or read, then done again by another session", "15 ways for a definition, a contract, an input, an output or a managed directory to point outside", "19 contents of the run store", "11 layouts of definitions", "13 contracts"],
  outside: ["two processes at once inside the lock's own steps (P05)"],
  assumptions: ["the lock excludes other holders until it is stale (P05)"],
};
const CW = "/w", RUNS = "/w/.pi/pipeline-runs", AGENT = "/agent/pipelines", SECRET = "TOP SECRET";
const write = (p, t) => { fs.mkdirSync(p.slice(0, p.lastIndexOf("/")), { recursive: true }); fs.writeFileSync(p, t); };
const stage = (title, inputs = "") => "# " + title + "\n\nOne job: do " + title + ".\n\n## Inputs\n" + inputs + "\n## Process\n1. go\n\n## Outputs\n- x.md\n\n## Human check\nlook at " + title + "\n";
const define = (root, name, stages) => { write(root + "/AGENTS.md", "# entry of " + name + "\n"); write(root + "/CONTEXT.md", "---\nname: " + name + "\nform: pipeline\n---\n# routing\n"); for (const [id, text] of stages) write(root + "/stages/" + id + "/CONTEXT.md", text); };
const two = (name = "research", root = CW + "/.pi/pipelines/r") => define(root, name, [["01_find", stage("find")], ["02_draft", stage("draft", "- Working (this run): ../01_find/output/a.md\n")]]);
const load = async (S) => { S.stub("packages/coding-agent/src/core/tools/orchestration-panel.ts", { emptyOrchestrationCall() {}, renderOrchestrationToolResult() {} }); fs.mkdirSync(CW); const { createPipelineToolDefinition } = await import("@repo/packages/coding-agent/src/core/tools/pipeline.ts"); let ids = 0, tick = 0; const world = { steps: [], tasks: [] };
  world.open = (snapshot) => { const s = { snapshot }; const tool = createPipelineToolDefinition({ cwd: () => CW, agentPipelinesDir: () => AGENT, getPipelineRun: () => s.snapshot, savePipelineRun: (r) => { s.snapshot = JSON.parse(JSON.stringify(r)); }, getOpenTaskSteps: () => world.steps, getBackgroundToolTasks: () => world.tasks, now: () => "T" + tick++, createRunId: () => "run-" + ++ids }); s.do = (input) => tool.execute("c", input); return s; }; return world; };
const NAMES = ["01_find", "02_draft"], opts = { agentPipelinesDir: AGENT, cwd: CW };
const outputs = (run, k) => RUNS + "/" + run + "/" + NAMES[k] + "/output";
const tree = (p, out = []) => { for (const n of fs.readdirSync(p).sort()) { const q = p + "/" + n, st = fs.lstatSync(q); out.push(q + (st.isSymbolicLink() ? "@" : st.isDirectory() ? "/" : "=" + fs.readFileSync(q, "utf8"))); if (st.isDirectory()) tree(q, out); } return out; };
export const cases = {
  history: { covers: ["started", "refused", "moved on", "completed", "abandoned"], async run(S) {
    const w = await load(S); two(); const s = [w.open(), w.open()], m = { runs: [], last: [undefined, undefined], links: [], busy: false }, act = () => m.runs.find((r) => r.status === "active"), cur = (k) => act() ?? m.runs.find((r) => r.id === m.last[k]);
    const ACT = {
      start: async (k) => { const had = act(), r = await s[k].do({ action: "start", name: " Research " }); if (had) return [r, false, had]; const run = { id: "run-" + (m.runs.length + 1), at: 0, status: "active", rev: 1, out: [[], []] }; m.runs.push(run); m.last[k] = run.id; S.cover("started"); return [r, true, run]; },
      inc: async (k) => { const c = cur(k), ok = c?.status === "active" && !m.busy && !m.links.some(([id, at]) => id === c.id && at === c.at) && c.out[c.at].length > 0, r = await s[k].do({ action: "increment" }); if (ok) { c.rev++; m.last[k] = c.id; if (c.at === 1) { c.status = "completed"; S.cover("completed"); } else { c.at++; S.cover("moved on"); } } return [r, ok, c]; },
      drop: async (k) => { const c = cur(k), r = await s[k].do({ action: "abandon" }); if (c) { if (c.status === "active") { c.status = "abandoned"; c.rev++; S.cover("abandoned"); } m.last[k] = c.id; } return [r, !!c, c]; },
    };
    const put = (name, counts) => { const c = act(); if (!c) return; const d = outputs(c.id, c.at) + "/" + name; if (name.endsWith("/")) fs.mkdirSync(d, { recursive: true }); else write(d, "x"); if (counts && !c.out[c.at].includes(name)) c.out[c.at].push(name); };
    const DO = { startA: () => ACT.start(0), startB: () => ACT.start(1), incA: () => ACT.inc(0), incB: () => ACT.inc(1), dropA: () => ACT.drop(0), dropB: () => ACT.drop(1), file: () => put("a.md", true), nested: () => put("d/b.md", true), hidden: () => put(".gitkeep"), dir: () => put("empty/"), link: () => { const c = act(); if (c) { m.links = [[c.id, c.at]]; w.steps = [{ id: "step-1", pipelineRunId: c.id, pipelineStageId: NAMES[c.at] }]; } }, linkOther: () => { m.links = []; w.steps = [{ id: "step-1" }, { id: "step-2", pipelineRunId: "run-9", pipelineStageId: "01_find" }, { id: "step-3", pipelineRunId: act()?.id, pipelineStageId: NAMES[1 - (act()?.at ?? 0)] }]; }, busy: () => { m.busy = true; w.tasks = [{ taskId: "t1", status: "completed" }, { taskId: "t2", status: "running" }]; }, idle: () => { m.busy = false; w.tasks = [{ taskId: "t1", status: "failed" }]; }, byId: async () => { const id = m.runs[0]?.id ?? "run-1", c = m.runs[0], ok = c?.status === "active" && !m.busy && !m.links.some(([i, at]) => i === c.id && at === c.at) && c.out[c.at].length > 0, r = await s[0].do({ action: "increment", runId: " " + id + " " }); if (ok) { c.rev++; m.last[0] = c.id; if (c.at === 1) c.status = "completed"; else c.at++; } return [r, ok, c]; } };
    const check = () => { for (const r of m.runs) { const d = loadPipelineRunById(CW, r.id); S.assert(d && d.status === r.status && d.currentStageId === NAMES[r.at] && d.revision === r.rev, "a run on disk is not where its stages' outputs brought it"); NAMES.forEach((_, k) => S.assert(JSON.stringify(scanStageOutput(outputs(r.id, k)).outputFiles) === JSON.stringify([...r.out[k]].sort()), "the outputs of a stage are not its files")); } const a = findActivePipelineRun(CW); S.assert(a?.runId === act()?.id && fs.readdirSync(fs.existsSync(RUNS) ? RUNS : CW).filter((n) => n.startsWith("run-")).length === m.runs.length, "the project has not the one active run it should"); };
    for (const step of S.pick("life", [[], ["startA"], ["startA", "file"], ["startA", "file", "incA"], ["startA", "file", "incA", "nested"], ["startA", "file", "incA", "file", "incB"], ["startA", "dropB"]])) await DO[step](); check(); const n = S.thorough ? 3 : 2;
    for (let i = 0; i < n; i++) { const got = await DO[S.pick("act" + i, Object.keys(DO))](); if (got) { const [r, ok, run] = got; S.assert(r.details.applied === ok && !!r.isError === !ok, "an action is accepted or refused wrongly"); if (run && r.details.run) S.assert(r.details.run.runId === run.id && r.details.run.status === run.status && r.details.run.currentStageId === NAMES[run.at], "what is told of the run is not what is stored"); if (!ok) S.cover("refused"); else if (run.status === "active") S.assert(r.content[0].text.includes("stage=" + NAMES[run.at]) && r.content[0].text.includes("do " + NAMES[run.at].slice(3)), "the contract given is not the one of the stage"); } check(); }
    const c = cur(1), st = await s[1].do({ action: "status" }); S.assert(!!st.isError === !c && (!c || st.details.run.runId === c.id && NAMES.every((x, k) => st.content[0].text.includes("[" + (c.out[k].length ? "x" : " ") + "] " + x))), "the status is not that of the current run"); const msg = createActivePipelineContextMessage({ options: opts, snapshot: s[1].snapshot, onError: (e) => S.fail("the context is not available: " + e) }); S.assert(!!msg === !!act() && (!msg || msg.content.includes("run=" + act().id)), "the turn is not given the stage at hand");
  } },
  crash: { covers: ["crashed", "failed", "before", "after"], async run(S) {
    const w = await load(S); two(); const a = w.open(), how = S.pick("how", ["start", "increment", "last", "abandon"]); if (how !== "start") { await a.do({ action: "start", name: "research" }); write(outputs("run-1", 0) + "/a.md", "x"); } if (how === "last") { await a.do({ action: "increment" }); write(outputs("run-1", 1) + "/a.md", "x"); }
    const input = how === "start" ? { action: "start", name: "research" } : { action: how === "last" ? "increment" : how }, mode = S.pick("mode", ["crash", "write", "read"]), was = findActivePipelineRun(CW), c = mode === "crash" ? crash(S, 24) : fault(S, 24, ["ENOSPC", "EIO"], { reads: mode === "read" }), r = await a.do(input); c.end(); if (!(c.dead || c.hit)) return; S.cover(c.dead ? "crashed" : "failed"); S.now += 120000;
    const b = w.open(a.snapshot), now = S.try(() => findActivePipelineRun(CW)); S.assert(now.ok, "a crash or failed write leaves runs no session can go on with: " + now.error?.message); const on = how === "start" ? now.value !== undefined : how === "increment" ? now.value?.currentStageId === "02_draft" : now.value === undefined; S.cover(on ? "after" : "before"); if (!c.dead) S.assert(!r.details.applied || on, "a change is reported that was not stored"); if (now.value) for (const n of NAMES) S.assert(fs.statSync(RUNS + "/" + now.value.runId + "/" + n + "/output").isDirectory(), "a run lacks a stage's place for its output"); if (!on) S.assert(JSON.stringify(now.value) === JSON.stringify(was), "a run is left half changed");
    if (!on) { const again = await b.do(input); S.assert(again.details.applied, "what a crash broke off cannot be done again: " + again.details.error); } const end = findActivePipelineRun(CW); S.assert(how === "start" ? end?.currentStageId === "01_find" : how === "increment" ? end?.currentStageId === "02_draft" && end.revision === 2 : end === undefined && loadPipelineRunById(CW, "run-1").status === (how === "last" ? "completed" : "abandoned"), "the run is not where the action done again brings it");
  } },
  escape: { covers: ["inside", "outside"], async run(S) {
    const w = await load(S), R = CW + "/.pi/pipelines/r"; write("/out/secret.md", SECRET + " facts"); fs.mkdirSync("/out/runs"); const before = () => JSON.stringify(tree("/out")), ways = ["plain", "ref up", "ref abs", "ref link", "ref dirlink", "work up", "work other", "work link", "contract link", "entry link", "stage link", "store link", "pi link", "output link", "outputs link"], way = S.pick("way", ways), IN = { plain: "- Reference (every run): ../../_shared/rules.md\n", "ref up": "- Reference: ../../../../../../out/secret.md\n", "ref abs": "- 3: /out/secret.md\n", "ref link": "- Layer 3: l.md\n", "ref dirlink": "- Reference: ld/secret.md\n", "work up": "- Working: ../../../../../out/secret.md\n", "work other": "- Working: ../../run-9/01_find/output/s.md\n", "work link": "- 4: l.md\n" }[way] ?? "";
    if (way === "pi link") { fs.mkdirSync("/out/pi"); fs.symlinkSync("/out/pi", CW + "/.pi"); define(AGENT + "/r", "research", [["01_find", stage("find")], ["02_draft", stage("draft")]]); } else { define(way === "store link" ? AGENT + "/r" : R, "research", [["01_find", stage("find", IN)], ["02_draft", stage("draft", IN)]]); write(R + "/_shared/rules.md", "Be brief"); write(RUNS + "/.x", ""); } if (way === "work other") { fs.mkdirSync(RUNS, { recursive: true }); }
    const rest = { "ref link": () => fs.symlinkSync("/out/secret.md", R + "/stages/01_find/l.md"), "ref dirlink": () => fs.symlinkSync("/out", R + "/stages/01_find/ld"), "contract link": () => { fs.rmSync(R + "/stages/02_draft/CONTEXT.md"); fs.symlinkSync("/out/secret.md", R + "/stages/02_draft/CONTEXT.md"); }, "entry link": () => { fs.rmSync(R + "/AGENTS.md"); fs.symlinkSync("/out/secret.md", R + "/AGENTS.md"); }, "stage link": () => { fs.mkdirSync("/out/03_x"); fs.writeFileSync("/out/03_x/CONTEXT.md", SECRET); fs.symlinkSync("/out/03_x", R + "/stages/03_x"); }, "store link": () => { fs.rmSync(RUNS, { recursive: true }); fs.symlinkSync("/out/runs", RUNS); } }; rest[way]?.(); const was = before(), s = w.open(), r = await s.do({ action: "start", name: "research" }); let texts = r.content[0].text;
    if (way === "store link" || way === "pi link") { S.assert(!r.details.applied, "a run is kept in a place outside the project"); } else { S.assert(r.details.applied, "a pipeline is refused for what it only names: " + r.details.error); if (way === "plain") S.assert(texts.includes("Be brief"), "a reference inside is not given"); const dir = RUNS + "/run-1/01_find"; if (way === "work link") fs.symlinkSync("/out/secret.md", dir + "/l.md"); if (way === "output link") fs.symlinkSync("/out/secret.md", dir + "/output/o.md"); if (way === "outputs link") { fs.rmSync(dir + "/output", { recursive: true }); fs.symlinkSync("/out", dir + "/output"); } if (way === "work other") write(RUNS + "/.other/s.md", SECRET); const st = await s.do({ action: "status" }); texts += st.content[0].text; const inc = await s.do({ action: "increment" }); texts += inc.content[0].text; S.assert(!inc.details.applied, "a file outside counts as the output of a stage"); if (way === "output link") { write(dir + "/output/real.md", "x"); S.assert(JSON.stringify(scanStageOutput(dir + "/output").outputFiles) === '["real.md"]', "a file outside counts as the output of a stage"); fs.symlinkSync("real.md", dir + "/output/in.md"); S.assert(scanStageOutput(dir + "/output").outputFiles.length === 2, "a link inside does not count"); } }
    S.assert(!texts.includes(SECRET), "a file outside is given to the model"); S.assert(before() === was, "something is written outside the project"); S.cover(way === "plain" ? "inside" : "outside");
  } },
  store: { covers: ["usable", "refused", "active"], async run(S) {
    const w = await load(S); two(); const good = (id, more) => ({ version: 1, revision: 3, runId: id, pipelineName: "research", definitionPath: CW + "/.pi/pipelines/r", runRoot: RUNS + "/" + id, currentStageId: "01_find", status: "active", createdAt: "T", updatedAt: "T", ...more }), put = (id, run) => { for (const n of NAMES) fs.mkdirSync(RUNS + "/" + id + "/" + n + "/output", { recursive: true }); write(RUNS + "/" + id + "/run.json", typeof run === "string" ? run : JSON.stringify(run)); }; fs.mkdirSync("/out"); write("/out/run-1/run.json", JSON.stringify(good("run-1", { runRoot: "/out/run-1" })));
    const WAYS = { none() {}, active: () => put("run-7", good("run-7")), done: () => put("run-7", good("run-7", { status: "completed" })), dropped: () => put("run-7", good("run-7", { status: "abandoned" })), "other id": () => put("run-7", good("run-8")), elsewhere: () => put("run-7", good("run-7", { runRoot: "/out/run-7" })), status: () => put("run-7", good("run-7", { status: "paused" })), stage: () => put("run-7", good("run-7", { currentStageId: "../x" })), revision: () => put("run-7", good("run-7", { revision: 1.5 })), torn: () => put("run-7", JSON.stringify(good("run-7")).slice(0, 40)), list: () => put("run-7", "[]"), big: () => put("run-7", JSON.stringify(good("run-7")) + " ".repeat(70000)), "no manifest": () => fs.mkdirSync(RUNS + "/run-7", { recursive: true }), stray: () => write(RUNS + "/notes.txt", "x"), "hidden stray": () => write(RUNS + "/.notes", "x"), "root link": () => { fs.mkdirSync(RUNS, { recursive: true }); fs.symlinkSync("/out/run-1", RUNS + "/run-1"); }, "manifest link": () => { fs.mkdirSync(RUNS + "/run-1", { recursive: true }); fs.symlinkSync("/out/run-1/run.json", RUNS + "/run-1/run.json"); }, two: () => { put("run-7", good("run-7")); put("run-8", good("run-8")); }, "gone stage": () => put("run-7", good("run-7", { currentStageId: "09_gone" })) };
    const way = S.pick("way", Object.keys(WAYS)); WAYS[way](); const hint = S.pick("hint", ["none", "outside", "run-7", "bad id"]), s = w.open(hint === "outside" ? good("run-1", { runRoot: "/out/run-1" }) : hint === "run-7" ? good("run-7", { revision: 99, currentStageId: "02_draft" }) : hint === "bad id" ? good("../../../out/run-1", { runRoot: "/out/run-1" }) : undefined), before = fs.existsSync(RUNS) ? tree(RUNS) : [], was = JSON.stringify(tree("/out")), usable = ["none", "done", "dropped", "hidden stray"].includes(way), active = way === "active" || way === "gone stage";
    const seen = S.try(() => resolveCurrentProjectPipelineRun(CW, s.snapshot)); S.assert(seen.ok === (usable || active), "runs that cannot be told apart are used, or sound ones not"); if (seen.ok) { S.assert(seen.value?.runId === (active || (hint === "run-7" && (way === "done" || way === "dropped")) ? "run-7" : undefined), "a run is taken that is not the project's"); if (seen.value) S.assert(seen.value.revision === 3 && seen.value.currentStageId !== "02_draft", "what a session remembers is taken for what is stored"); }
    for (const id of ["run-1", "../../../out/run-1", "/out/run-1", " ", "run-8"]) { const got = loadPipelineRunById(CW, id); S.assert(!got || way === "two" && id === "run-8", "a run outside the project is read"); } const inc = await s.do({ action: "increment", ...(S.flag("byId") ? { runId: "run-1" } : {}) }); S.assert(!inc.details.applied, "a run that is not the project's, or has no output, moves on"); const r = await s.do({ action: "start", name: "research" }); S.assert(r.details.applied === usable, "a run is started beside one that is active or unreadable"); if (!usable) { S.assert((fs.existsSync(RUNS) ? tree(RUNS) : []).filter((x) => !x.includes("/.")).join("\n") === before.filter((x) => !x.includes("/.")).join("\n"), "a refused start changes the runs"); S.cover(active ? "active" : "refused"); } else S.cover("usable"); S.assert(JSON.stringify(tree("/out")) === was, "a run outside is changed");
  } },
  definitions: { covers: ["found", "not found", "moved"], async run(S) {
    const w = await load(S), LAY = { order: () => define(CW + "/.pi/pipelines/r", "research", [["10_last", stage("last")], ["02_mid", stage("mid")], ["02_early", stage("early")], ["01_first", stage("first")]]), flat: () => { write(CW + "/.pi/pipelines/flat/01_first/CONTEXT.md", stage("first")); write(CW + "/.pi/pipelines/flat/notes/CONTEXT.md", "x"); write(CW + "/.pi/pipelines/flat/CONTEXT.md", "---\nname: research\n---\n"); }, "no stage": () => define(CW + "/.pi/pipelines/r", "research", []), "odd names": () => define(CW + "/.pi/pipelines/r", "research", [["1_x", stage("x")], ["01-x", stage("x")], ["01_X", stage("x")], ["001_x", stage("x")]]), "long name": () => define(CW + "/.pi/pipelines/r", "n".repeat(65), [["01_first", stage("first")]]), both: () => { define(AGENT + "/q", "Research", [["01_first", stage("first")]]); define(CW + "/.pi/pipelines/r", "research", [["01_other", stage("other")]]); }, unnamed: () => { write(CW + "/.pi/pipelines/research/01_first/CONTEXT.md", stage("first")); }, "bad yaml": () => { define(CW + "/.pi/pipelines/r", "research", [["01_first", stage("first")]]); write(CW + "/.pi/pipelines/r/CONTEXT.md", "---\nname: [\n---\n"); }, "no contract": () => { define(CW + "/.pi/pipelines/r", "research", [["01_first", stage("first")]]); fs.mkdirSync(CW + "/.pi/pipelines/r/stages/00_none", { recursive: true }); }, "huge contract": () => { define(CW + "/.pi/pipelines/r", "research", [["01_first", stage("first")], ["00_big", stage("big") + "z".repeat(70000)]]); }, "long input": () => { define(CW + "/.pi/pipelines/r", "research", [["01_first", stage("first", "- Reference: ../../long.md\n- Reference: ../../long.md\n- Reference: ../../long.md\n")]]); write(CW + "/.pi/pipelines/r/long.md", "q".repeat(20000)); } };
    const lay = S.pick("layout", Object.keys(LAY)); LAY[lay](); const ok = !["no stage", "odd names", "long name", "bad yaml"].includes(lay), s = w.open(), name = S.pick("name", ["research", "RESEARCH", "resear", " "]), hit = ok && (name === "research" || name === "RESEARCH"), r = await s.do({ action: "start", name }); S.assert(r.details.applied === hit, "a pipeline is started that is not named, or one that is there is not"); if (!hit) { S.cover("not found"); return; }
    S.assert(r.details.run.currentStageId === "01_first", "a run does not start at its first stage"); S.cover("found"); S.assert(r.content[0].text.length < 9500, "the stage context is not bounded"); if (lay === "order") { const at = []; for (let i = 0; i < 5; i++) { const cur = findActivePipelineRun(CW); if (!cur) break; at.push(cur.currentStageId); write(cur.runRoot + "/" + cur.currentStageId + "/output/x", "1"); await s.do({ action: "increment" }); } S.assert(at.join() === "01_first,02_early,02_mid,10_last" && loadPipelineRunById(CW, "run-1").status === "completed", "the stages are not passed in order"); }
    if (lay === "both" || lay === "flat") { const run = loadPipelineRunById(CW, "run-1"), got = resolvePipelineDefinitionForRun(opts, run); S.assert(got.rootDir === run.definitionPath, "a run follows another definition of its name"); if (lay === "flat") { fs.renameSync(CW + "/.pi/pipelines/flat", CW + "/.pi/pipelines/moved"); S.assert(resolvePipelineDefinitionForRun(opts, run)?.rootDir === CW + "/.pi/pipelines/moved", "a definition that was moved is lost"); S.cover("moved"); } }
  } },
  contracts: { covers: ["read", "refused"], run(S) {
    const C = [["# t\nOne job: a b\n", { title: "t", oneJob: "a b" }], ["---\nx: 1\n---\n# t\r\n\r\none JOB:  c \r\n", { title: "t", oneJob: "c" }], ["## Inputs\n- Working (this run): a.md\n* Reference (every run): b.md\n1. 3: c.md\nLayer 4: d.md\nnothing here\n", { inputs: [["working", "a.md"], ["reference", "b.md"], ["reference", "c.md"], ["working", "d.md"]] }], ["## inputs\n- Do NOT load: e\nDo not load f\n", { inputs: [], doNotLoad: ["e", "f"] }], ["## Process\n1. x\n2. y\ntext\n- z\n## Outputs\n- a.md → output/\n- b → output\n- c\n", { process: ["x", "y", "z"], outputs: ["a.md", "b", "c"] }], ["## Inputs extra\n- Working: a\n", { inputs: [] }], ["### Inputs\n- Working: a\n", { inputs: [] }], ["## Human check\nlook\n\nwell\n## Other\nno", { humanCheck: "look\n\nwell" }], ["## Human check\n" + "h".repeat(1100), { humanCheck: "h".repeat(1000) }], ["## Process\n- " + "p".repeat(4000) + "\n", { process: ["p".repeat(4000)] }], ["## Process\n- " + "p".repeat(4001) + "\n", null], ["", { title: "", oneJob: "", inputs: [], process: [] }], ["# one\n# two\n", { title: "one" }]];
    const [text, want] = S.pick("contract", C), r = S.try(() => parseStageContract(text)); S.assert(r.ok === !!want, "a contract is refused or accepted wrongly"); if (!want) { S.cover("refused"); return; } for (const k of Object.keys(want)) S.assert(JSON.stringify(k === "inputs" ? r.value.inputs.map((i) => [i.kind, i.path]) : r.value[k]) === JSON.stringify(want[k]), "a contract is read otherwise than written: " + k); S.cover("read");
  } },
};
