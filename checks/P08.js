// Worker dispatch: every queued lane runs at most once, is not lost, and releases what it holds.
import { S } from "symex";
import { WorkerDispatchScheduler } from "@repo/packages/coding-agent/src/core/delegation/worker-dispatch-scheduler.ts";

export const meta = {
  bounds: ["two (thorough three) lanes, ordinary or priority, and a sequence of 4 (thorough 5) enqueue, drain, reservation-signal, settle and drop steps", "each admission, run result (not started, completed, rejected, throwing), cancellation failure, registration failure and deregistration failure chosen freely", "re-entrant drains from inside admission, cancellation and run"],
  outside: ["durable task state behind the callbacks"],
  assumptions: ["the host answers through the documented callbacks"],
};
function world(S, o = {}) {
  const w = { live: new Map(), runs: new Map(), started: [], cancels: [], pend: [], disposed: false, warns: 0, gone: new Set(), authority: new Map(), regFails: 0 };
  let serial = 0;
  w.admission = () => ({ action: "start" });
  w.sched = new WorkerDispatchScheduler({
    agentDir: "/agent",
    registerInFlightWork: (_d, _k, label) => { if (o.regFail?.(label)) { w.regFails++; throw new Error("registry"); } const id = serial++; w.live.set(id, label); return () => { w.live.delete(id); if (o.deregFail?.(label)) throw new Error("deregister"); }; },
    isDisposed: () => w.disposed,
    admit: (q, r) => { const a = w.admission(r.laneId, q); if (a.action === "cancel") w.authority.set(r.laneId, a.reasonCode); return a; },
    getRecord: (id) => (w.gone.has(id) ? undefined : { laneId: id }),
    run: (q, r) => {
      w.started.push(r.laneId); w.runs.set(r.laneId, (w.runs.get(r.laneId) ?? 0) + 1); o.onRun?.(r.laneId, w);
      if (o.runThrows?.(r.laneId)) { w.authority.set(r.laneId, "worker_background_error"); throw new Error("start"); }
      return new Promise((res, rej) => w.pend.push({ id: r.laneId, res, rej }));
    },
    cancel: (id, reason) => { w.cancels.push([id, reason]); S.assert(w.authority.get(id) === reason || (reason === "session_disposed" && w.disposing), "a lane was cancelled although nothing decided to"); o.onCancel?.(id, w); if (o.cancelFail?.(id)) throw new Error("durable"); w.gone.add(id); },
    warn: () => { w.warns++; },
  });
  w.settle = (k, how) => { const p = w.pend.splice(k, 1)[0]; if (how === "done") p.res({ started: true }); else if (how === "skip") { w.authority.set(p.id, "why"); p.res({ started: false, skipReason: "why" }); } else { w.authority.set(p.id, "worker_background_error"); p.rej(new Error("boom")); } };
  return w;
}
const once = (w, S) => { for (const [, n] of w.runs) S.assert(n === 1, "a lane was started twice"); };
const turn = async (n = 6) => { for (let i = 0; i < n; i++) await Promise.resolve(); };
export const cases = {
  lifecycle: { covers: ["ran", "waited", "cancelled"], async run(S) {
    const n = S.thorough ? 3 : 2;
    let cancelBudget = S.upto("cancelFails", 1);
    const w = world(S, { cancelFail: () => cancelBudget-- > 0 });
    let asked = 0;
    w.admission = (id) => {
      const a = S.pick("adm" + asked++, asked > 5 ? ["start"] : ["start", "wait", "reserve", "cancel"]);
      if (a !== "start") S.cover(a === "cancel" ? "cancelled" : "waited");
      return a === "start" ? { action: "start" } : a === "wait" ? { action: "wait", reason: "capacity" } : a === "reserve" ? { action: "wait", reason: "write_reservation" } : { action: "cancel", reasonCode: "blocked" };
    };
    for (let i = 0; i < n; i++) w.sched.enqueue({ laneId: "l" + i }, { i }, false, i === n - 1);
    w.sched.enqueue({ laneId: "l0" }, { dup: 1 });
    S.assert(w.sched.queuedCount === n && w.live.size === n, "a lane queued twice holds two slots");
    w.sched.drain();
    if (w.pend.length > 0) { w.settle(0, S.pick("how", ["done", "skip", "reject"])); await turn(); }
    w.sched.drain(S.flag("signal"));
    once(w, S);
    // nothing is lost: with admission open every lane that was not cancelled starts
    w.admission = () => ({ action: "start" }); cancelBudget = 0;
    w.sched.drain(true); await turn();
    for (let i = 0; i < n; i++) S.assert(w.runs.has("l" + i) || w.gone.has("l" + i), "a queued lane was lost");
    while (w.pend.length) w.settle(0, "done");
    await turn(); once(w, S);
    S.cover("ran");
    S.assert(w.sched.queuedCount === 0 && w.live.size === 0, "an idle scheduler still blocks a reload");
  } },
  cancelOwns: { covers: ["retained"], async run(S) {
    // a cancelled lane whose durable cancellation failed never runs until that write succeeds
    let failing = true, deregBudget = S.upto("deregFails", 1);
    const w = world(S, { cancelFail: () => failing, deregFail: () => deregBudget-- > 0 });
    w.admission = () => ({ action: "start" });
    w.sched.enqueue({ laneId: "x" }, {});
    w.sched.drain();
    const how = S.pick("how", ["skip", "reject"]);
    w.settle(0, how); await turn();
    S.cover("retained");
    S.assert(w.live.size === 1, "a lane whose cancellation is not yet durable does not block a reload");
    w.sched.enqueue({ laneId: "x" }, {}); w.sched.drain();
    S.assert(w.runs.get("x") === 1, "a lane with an unfinished cancellation was started again");
    const mode = S.pick("mode", ["recover", "dispose"]);
    if (mode === "recover") { failing = false; w.sched.drain(); S.assert(w.gone.has("x"), "a failed cancellation was not retried"); }
    else { w.disposing = true; w.sched.cancelQueued(); w.disposed = true; }
    S.assert(w.live.size === 0, "a resolved cancellation still blocks a reload");
  } },
  dispose: { covers: ["queued", "running"], async run(S) {
    const fails = S.pick("cancelFails", ["none", "first", "all"]), dereg = S.flag("deregFails");
    const w = world(S, { cancelFail: (id) => fails === "all" || (fails === "first" && id === "l0"), deregFail: () => dereg });
    w.admission = (id) => (id === "l0" ? { action: "start" } : { action: "wait", reason: S.pick("why", ["capacity", "write_reservation"]) });
    for (const id of ["l0", "l1", "l2"]) w.sched.enqueue({ laneId: id }, {});
    if (S.flag("drained")) w.sched.drain();
    S.cover(w.pend.length ? "running" : "queued");
    const before = w.started.length;
    w.disposing = true;
    w.sched.cancelQueued(); w.disposed = true;
    S.assert(w.sched.queuedCount === 0, "disposal left lanes queued");
    S.assert(w.live.size === 0, "disposal left a lane blocking a reload");
    if (w.pend.length) { w.settle(0, S.pick("how", ["done", "skip", "reject"])); await turn(); }
    w.sched.drain(true);
    S.assert(w.started.length === before, "a disposed scheduler started a lane");
    S.assert(w.live.size === 0, "a run that ended after disposal left a reload blocker");
  } },
  register: { covers: ["rolled back", "accepted"], async run(S) {
    let k = S.upto("failAt", 3), n = 0;
    const w = world(S, { regFail: () => n++ === k });
    let accepted = 0;
    for (let i = 0; i < 3; i++) { const r = S.try(() => w.sched.enqueue({ laneId: "l" + i }, {}, S.flag("rec" + i), S.flag("pri" + i))); if (r.ok) accepted++; else S.cover("rolled back"); S.assert(r.ok === (n - 1 !== k), "a failed registration was not reported"); }
    S.assert(w.sched.queuedCount === accepted && w.live.size === accepted, "a failed registration left a lane queued without a blocker");
    w.sched.drain();
    S.assert(w.started.length === accepted, "an accepted lane did not start"); if (accepted === 3) S.cover("accepted");
    once(w, S);
  } },
  reentrant: { covers: ["nested"], async run(S) {
    const where = S.pick("where", ["admit", "run", "cancel", "capacity"]);
    const w = world(S, { onRun: (id, w2) => { if (where === "run" && w2.started.length < 4) w2.sched.drain(S.flag("sig" + w2.started.length)); }, onCancel: (id, w2) => { if (where === "cancel") w2.sched.drain(); } });
    let asked = 0;
    const last = new Map();
    w.admission = (id) => { if (where === "admit" && asked < 3) w.sched.drain(); const a = S.pick("a" + asked++, asked > 4 ? ["start"] : ["start", "wait", "cancel"]); last.set(id, a); return a === "cancel" ? { action: "cancel", reasonCode: "r" } : { action: a, reason: "capacity" }; };
    if (where === "capacity") w.sched.onQueueCapacityAvailable(() => w.sched.drain());
    for (let i = 0; i < 2; i++) w.sched.enqueue({ laneId: "l" + i }, {});
    w.sched.drain(); await turn();
    once(w, S); S.cover("nested");
    for (let i = 0; i < 2; i++) { const id = "l" + i, a = last.get(id); S.assert(a !== "start" || w.runs.get(id) === 1, "an admitted lane was not started"); S.assert(a !== "wait" || !w.runs.has(id), "a waiting lane was started"); S.assert(a !== "cancel" || (!w.runs.has(id) && w.gone.has(id)), "a cancelled lane ran or was not cancelled"); }
  } },
  signal: { covers: ["while draining", "while idle"], async run(S) {
    // one wake-up for waiting write reservations, from inside any callback or between drains, asks every waiting lane again
    let serial = 0, signalAt = -1, signalled = false;
    const asked = new Map(), at = S.upto("at", 6), n = S.thorough ? 3 : 2;
    const fire = (w2) => { if (signalled || serial < at) return; signalled = true; signalAt = serial++; S.cover("while draining"); w2.sched.drain(true); };
    const w = world(S, { onRun: (_id, w2) => fire(w2), onCancel: (_id, w2) => fire(w2) });
    w.admission = (id) => { fire(w); const a = S.pick("adm" + serial, serial > 7 ? ["start"] : ["reserve", "wait", "start", "cancel"]); asked.set(id, [serial++, a]); return a === "start" ? { action: "start" } : a === "cancel" ? { action: "cancel", reasonCode: "r" } : { action: "wait", reason: a === "reserve" ? "write_reservation" : "capacity" }; };
    for (let i = 0; i < n; i++) w.sched.enqueue({ laneId: "l" + i }, {});
    w.sched.drain();
    if (!signalled && S.flag("second")) w.sched.drain();
    if (!signalled) { signalled = true; signalAt = serial++; S.cover("while idle"); w.sched.drain(true); }
    await turn(); once(w, S);
    for (let i = 0; i < n; i++) { const id = "l" + i, last = asked.get(id); if (!w.runs.has(id) && !w.gone.has(id)) S.assert(last && last[0] > signalAt, "a waiting lane was not asked again after the reservation wake-up"); }
  } },
  order: { covers: ["priority"], async run(S) {
    const w = world(S); const want = [];
    const n = S.thorough ? 5 : 4;
    for (let i = 0; i < n; i++) { const p = S.flag("p" + i); w.sched.enqueue({ laneId: "l" + i }, {}, false, p); if (p) want.unshift("l" + i); else want.push("l" + i); }
    const drop = S.upto("drop", n); if (drop < n) { S.assert(w.sched.dropQueued("l" + drop), "a queued lane cannot be dropped"); want.splice(want.indexOf("l" + drop), 1); }
    w.sched.drain(); S.cover("priority");
    S.assert(w.started.join() === want.join(), "lanes did not start in priority and arrival order, or a dropped lane ran");
  } },
  bound: { covers: ["full"], async run(S) {
    const w = world(S);
    for (let i = 0; i < 255; i++) w.sched.enqueue({ laneId: "l" + i }, {});
    const pri = S.flag("pri");
    const r = S.try(() => w.sched.enqueue({ laneId: "y" }, {}, false, pri));
    S.assert(r.ok === pri, "the last queue slot is not kept for a mandatory verifier");
    if (pri) S.assert(!S.try(() => w.sched.enqueue({ laneId: "z" }, {}, false, true)).ok, "the queue grew beyond its bound");
    S.cover("full");
  } },
};
