// Write reservations of concurrent workers and fleet admission.
import { S } from "symex";
import fs from "node:fs";
import path from "node:path";
import { crash } from "./lib/fault.js";
import { WorkerWriteReservationStore } from "@repo/packages/coding-agent/src/core/delegation/worker-write-reservation.ts";
import { evaluateNewWorkerAdmission, intersectWorkerDelegationLimits, resolveWorkerFleetLimits, workerQueueHasCapacity } from "@repo/packages/coding-agent/src/core/delegation/worker-fleet-limits.ts";

export const meta = {
  bounds: ["three acquisitions by three attempts in the shared checkout or an isolated one, the third after a release through a genuine, stale or forged lease; write scopes every path of up to 2 (thorough 3) characters over '/al.' below the checkout, where l is a link to a; fencing tokens every integer 1..3", "every crash point of the last acquisition or release", "fleets of up to 4 agents with symbolic parentage, status and limits"],
  outside: ["Windows path syntax", "process-liveness evidence gathered by the caller", "availability wake-ups"],
  assumptions: ["each process opens its own store object over one agent directory", "proper-lockfile is replaced by a model of its lock directory"],
};
const OWN = (n) => `pi-worker:${n}:00000000-0000-4000-8000-00000000000${n % 10}`;
const REPO = "/w/repo", WT = "/w/wt";
function world() { for (const d of ["/w/repo/a", "/w/wt/a", "/agent"]) fs.mkdirSync(d, { recursive: true }); fs.symlinkSync("/w/repo/a", "/w/repo/l"); fs.symlinkSync("a", "/w/wt/l"); }
// where a path really is, computed independently: lexical normalisation, then the one link
function real(root, rel) {
  const segs = [];
  for (const s of (root + "/" + rel).split("/")) { if (s === "" || s === ".") continue; if (s === "..") { segs.pop(); continue; } segs.push(s); }
  if (segs.length > 2 && segs[0] === "w" && (segs[1] === "repo" || segs[1] === "wt") && segs[2] === "l") segs[2] = "a";
  return segs.join("/") + "/";
}
const overlap = (a, b) => a.startsWith(b) || b.startsWith(a);
const store = () => new WorkerWriteReservationStore({ agentDir: "/agent" });
const ws = (iso) => iso ? { repositoryRoot: REPO, executionRoot: WT, isolatedWorktreeId: iso === true ? "wt-1" : iso } : { repositoryRoot: REPO, executionRoot: REPO };
const req = (n, iso, scopes, fence = 1) => ({ parentSessionId: "s", ownerId: OWN(n), taskId: "t" + n, attemptId: "a" + n, fencingToken: fence, access: "write", workspace: ws(iso), writeScopes: scopes });
const listed = (iso) => store().recover({ workspace: ws(iso), evidence: [] }).outcomes.map((o) => o.lease);
export const cases = {
  exclusive: { covers: ["both granted", "second blocked", "outside"], run(S) {
    world();
    const len = S.thorough ? 3 : 2;
    const iso1 = S.flag("iso1"), iso2 = S.pick("iso2", [false, "wt-1", "wt-2"]);
    const r1 = S.pick("scope1", ["a", ".", "l", "ab", "a/x"]), r2 = S.str("scope2", { min: 0, max: len, of: "/al." });
    const root = (i) => i ? WT : REPO;
    const g1 = store().acquire(req(1, iso1, [root(iso1) + "/" + r1]));
    S.assert(g1.kind === "granted" && g1.lease, "a first reservation inside its checkout was not granted");
    const p1 = real(root(iso1), r1), p2 = real(root(iso2), r2);
    const g2 = S.try(() => store().acquire(req(2, iso2, S.flag("two") ? [root(iso2) + "/zz", root(iso2) + "/" + r2] : [root(iso2) + "/" + r2])));
    if (!p2.startsWith(root(iso2).slice(1) + "/")) { S.cover("outside"); S.assert(!g2.ok, "a scope outside the execution root was reserved"); return; }
    S.assert(g2.ok, "acquiring threw for a scope inside its checkout");
    if (overlap(p1, p2)) { S.cover("second blocked"); S.assert(g2.value.kind === "blocked" && g2.value.reasonCode === "overlapping_write_scope", "two live reservations cover the same files"); S.assert(g2.value.conflictingReservationIds.length === 1 && g2.value.conflictingReservationIds[0] === g1.lease.reservationId, "the blocked attempt is not told who holds the scope"); }
    else { S.cover("both granted"); S.assert(g2.value.kind === "granted" && g2.value.lease, "disjoint scopes were not both granted"); }
    const held = [...listed(false), ...listed(true)].length;
    S.assert(held === (g2.value.kind === "granted" ? 2 : 1), "the store does not hold exactly the granted reservations");
  } },
  fence: { covers: ["released", "kept"], run(S) {
    world();
    const f1 = S.int("fence1", 1, 3);
    const g1 = store().acquire(req(1, false, [REPO + "/a"], f1)).lease;
    const again = store().acquire(req(1, false, [REPO + "/a"], f1));
    S.assert(again.kind === "granted" && again.lease.reservationId === g1.reservationId && listed(false).length === 1, "acquiring again for the same attempt is not idempotent");
    const widen = store().acquire(req(1, false, [REPO + "/a", REPO + "/b"], f1));
    S.assert(widen.kind === "blocked", "an attempt widened its reservation by acquiring again");
    const lease = { ...g1 };
    const what = S.pick("forge", ["none", "fence", "owner", "task", "attempt", "session", "identity", "id"]);
    if (what === "fence") lease.fencingToken = S.int("fence2", 1, 3);
    if (what === "owner") lease.ownerId = OWN(2);
    if (what === "task") lease.taskId = S.str("task2", { len: 2, of: "t12" });
    if (what === "attempt") lease.attemptId = S.str("att2", { len: 2, of: "a12" });
    if (what === "session") lease.parentSessionId = S.str("ses2", { len: 1, of: "st" });
    if (what === "identity") { lease.executionIdentity = "isolated:" + WT; lease.isolatedWorktreeId = "wt-1"; }
    if (what === "id") lease.reservationId = "other";
    const exact = what === "none" || (what === "fence" && lease.fencingToken === f1) || (what === "task" && lease.taskId === "t1") || (what === "attempt" && lease.attemptId === "a1") || (what === "session" && lease.parentSessionId === "s");
    const r = store().release(lease);
    S.cover(exact ? "released" : "kept");
    S.assert((r.kind === "released") === exact, "a lease that is not the live one released it, or the live one could not");
    S.assert(listed(false).length === (exact ? 0 : 1), "the reservation's presence contradicts the release result");
    const g2 = store().acquire(req(2, false, [REPO + "/a/x"]));
    S.assert((g2.kind === "granted") === exact, "the scope's availability contradicts the release result");
    if (exact) S.assert(store().release(g1).kind !== "released" && listed(false).length === 1, "releasing twice took another attempt's reservation");
  } },
  crash: { covers: ["crashed", "completed"], run(S) {
    world();
    const pre = S.upto("pre", 2);
    const leases = [];
    for (let i = 1; i <= pre; i++) leases.push(store().acquire(req(i, false, [REPO + "/p" + i])).lease);
    const c = crash(S, 9, { cuts: true });
    const releasing = pre > 0 && S.flag("release");
    const r = S.try(() => releasing ? store().release(leases[0]) : store().acquire(req(5, false, [REPO + "/a"])));
    const died = c.end();
    S.cover(died ? "crashed" : "completed");
    const now = listed(false);
    const ids = now.map((l) => l.taskId).sort().join(",");
    const before = leases.map((l) => l.taskId).sort().join(",");
    const after = (releasing ? leases.slice(1).map((l) => l.taskId) : [...leases.map((l) => l.taskId), "t5"]).sort().join(",");
    S.assert(died ? ids === before || ids === after : r.ok && ids === after, "a crash left a reservation set that is neither the old nor the new one");
    for (const l of now) S.assert(store().acquire(req(7, false, l.writeScopes)).kind === "blocked", "a surviving reservation does not block an overlapping writer");
    S.assert(store().recover({ workspace: ws(false), evidence: now.map((l) => ({ reservationId: l.reservationId, state: "unknown" })) }).outcomes.every((o) => o.kind === "inspection_required"), "a reservation of unknown liveness is treated as reclaimable");
  } },
  damaged: { covers: ["refused"], run(S) {
    world();
    const g = store().acquire(req(1, false, [REPO + "/a"])).lease;
    const file = g.filePath, text = fs.readFileSync(file, "utf8");
    const kind = S.pick("damage", ["cut", "schema", "root", "dup", "scopes", "fence", "owner"]);
    if (kind === "cut") fs.writeFileSync(file, text.slice(0, S.pick("at", [0, 1, 40, text.length - 2])));
    else {
      const j = JSON.parse(text), e = j.reservations[0];
      if (kind === "schema") j.schemaVersion = S.int("schema", 2, 9);
      if (kind === "root") j.repositoryRoot = "/elsewhere";
      if (kind === "dup") j.reservations.push({ ...e });
      if (kind === "scopes") e.writeScopes = [];
      if (kind === "fence") e.fencingToken = S.int("badFence", -2, 0);
      if (kind === "owner") e.ownerId = S.pick("badOwner", ["x", "pi-worker:0:00000000-0000-4000-8000-000000000001", 5]);
      fs.writeFileSync(file, JSON.stringify(j));
    }
    S.cover("refused");
    S.assert(!S.try(() => store().acquire(req(2, false, [REPO + "/zzz"]))).ok, "a writer was admitted over an unreadable reservation store");
    S.assert(!S.try(() => store().release(g)).ok, "an unreadable reservation store was rewritten");
  } },
  fleet: { covers: ["admitted", "refused"], run(S) {
    const n = S.upto("agents", S.thorough ? 4 : 3);
    const agents = {};
    for (let i = 0; i < n; i++) {
      const parent = i === 0 ? -1 : S.upto("parent" + i, i, 0) - 1;
      const p = parent < 0 ? undefined : "g" + parent;
      agents["g" + i] = { agentId: "g" + i, status: S.flag("retired" + i) ? "retired" : "active", depth: p ? agents[p].depth + 1 : 0, ...(p ? { parentAgentId: p } : {}) };
    }
    const lim = resolveWorkerFleetLimits({ maxDepth: S.int("maxDepth", 0, 3), maxChildrenPerAgent: S.int("maxChildren", 0, 3), maxNestedAgentsPerSession: S.int("maxNested", 0, 4) });
    lim.maxAgentsPerSession = S.int("maxAgents", 0, 6);
    const slots = S.upto("slots", 2, 1);
    const who = S.pick("who", [undefined, "g0", "g1", "nobody"]);
    const r = evaluateNewWorkerAdmission(agents, who, lim, slots);
    const all = Object.values(agents), par = who === undefined ? undefined : agents[who];
    S.cover(r.ok ? "admitted" : "refused");
    let may = n + slots <= lim.maxAgentsPerSession;
    if (who !== undefined) may = may && !!par && par.status !== "retired" && par.depth + 1 <= lim.maxDepth && all.filter((a) => a.parentAgentId === who).length < lim.maxChildrenPerAgent && all.filter((a) => a.parentAgentId && a.status !== "retired").length < lim.maxNestedAgentsPerSession;
    S.assert(r.ok === may, "a worker was admitted beyond the fleet limits, or refused within them");
  } },
  limits: { covers: ["narrowed"], run(S) {
    const L = (k) => ({ maxDepth: S.int(k + "d", 0, 1000000), maxChildrenPerAgent: S.int(k + "c", 0, 1000000), maxNestedAgentsPerSession: S.int(k + "n", 0, 1000000) });
    const a = L("a"), b = L("b"), host = resolveWorkerFleetLimits(), r = intersectWorkerDelegationLimits(a, b), m = resolveWorkerFleetLimits(a);
    for (const k of ["maxDepth", "maxChildrenPerAgent", "maxNestedAgentsPerSession"]) {
      S.assert(r[k] <= a[k] && r[k] <= b[k] && r[k] <= host[k] && m[k] <= host[k] && m[k] <= a[k], "a delegation limit was widened");
    }
    S.cover("narrowed");
    const q = S.int("queued", 0, 1000), pr = S.bool("priority");
    S.assert(!workerQueueHasCapacity(q, pr) || q < host.maxQueuedDispatches, "the dispatch queue accepts work beyond its bound");
    S.assert(!(q < host.maxQueuedDispatches) || workerQueueHasCapacity(q, true), "a mandatory verifier has no slot although the queue is not full");
  } },
};
