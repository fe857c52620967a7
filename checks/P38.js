import { S } from "symex";
import fs from "node:fs";
import { AuthStorage } from "@repo/packages/coding-agent/src/core/auth-storage.ts";
import { resolveConfigValue, getMissingConfigValueEnvVarNames, getConfigValueEnvVarNames } from "@repo/packages/coding-agent/src/core/resolve-config-value.ts";
import { registerOAuthProvider } from "@repo/packages/ai/src/oauth.ts";
import { crash, fault } from "./lib/fault.js";

export const meta = {
  bounds: ["up to 3 (thorough 4) changes of credentials by two sessions and an editor, with a crash at any step or a failing write in the last", "up to 3 requests at once by two sessions - for a key, to recover from a refusal, to store or remove a credential - on a token that is valid, about to expire or expired, with a provider that answers, fails once or fails always, and that accepts each refresh token once", "every combination of where a key may come from", "key templates of up to 4 (thorough 5) characters over an alphabet of 7", "8 damaged files, before the session starts or after"],
  outside: ["the providers' own protocols", "keys given by a shell command", "a crash between the provider's answer and the write"],
  assumptions: ["a lock left by a process that died expires", "a lock is not lost while its owner lives"],
};
const F = "/agent/auth.json", K = (key) => ({ type: "api_key", key });
const setup = (S) => { S.stub("packages/coding-agent/src/config.ts", { getAgentDir: () => "/agent", CONFIG_DIR_NAME: ".pi", getBinDir: () => "/agent/bin" }); fs.mkdirSync("/agent"); };
const read = () => (fs.existsSync(F) ? fs.readFileSync(F, "utf8") : undefined), put = (d) => fs.writeFileSync(F, typeof d === "string" ? d : JSON.stringify(d), { mode: 0o600 });
const canon = (v) => (Array.isArray(v) ? v.map(canon) : v && typeof v === "object" ? Object.fromEntries(Object.keys(v).sort().filter((k) => v[k] !== undefined).map((k) => [k, canon(v[k])])) : v), same = (a, b) => JSON.stringify(canon(a)) === JSON.stringify(canon(b));
const doc = () => { const t = read(); if (t === undefined) return {}; const r = S.try(() => JSON.parse(t)); S.assert(r.ok, "the credentials file is damaged"); return r.value; };
const secret = () => { for (const n of fs.readdirSync("/agent")) { const st = fs.statSync("/agent/" + n); if (st.isFile()) S.assert((st.mode & 0o077) === 0, "credentials can be read by others"); } };
const BAD = ["{", "{\"a\":{\"type\":\"api_key\",\"key\":\"x\"}", "null", "5", "\"x\"", "[]", "{}x", "true"];
export const cases = {
  changes: { covers: ["several", "crashed", "failed"], async run(S) {
    setup(S); let cur = {}; if (S.flag("held")) { cur = { a: K("1"), zz: { type: "new", x: [1] }, o: { type: "oauth", access: "t", refresh: "r", expires: 5, extra: { b: 1 } } }; put(cur); } const ss = [AuthStorage.create(F), AuthStorage.create(F)], how = S.pick("how", ["live", "crash", "fault"]), n = S.upto("steps", (how === "live" ? 3 : 2) + (S.thorough ? 1 : 0), 1); secret();
    for (let i = 0; i < n; i++) {
      S.now += 5; const last = i === n - 1, who = S.upto("who" + i, how === "live" ? 2 : i === 0 ? 1 : 0); if (who === 2) { cur = { ...cur, ...S.pick("edit" + i, [{ yy: K("e") }, { a: K("e") }]) }; put(cur); continue; }
      const [id, v] = S.pick("op" + i, [["a", K("2")], ["a", undefined], ["b", K("3")], ["o", undefined], ["o", { type: "oauth", access: "u", refresh: "s", expires: 9 }]]), c = last && how === "crash" ? crash(S, 8, { cuts: true }) : undefined, f = last && how === "fault" ? fault(S, 5, ["ENOSPC"]) : undefined, before = cur; cur = { ...cur }; if (v) cur[id] = v; else delete cur[id]; if (v) ss[who].set(id, v); else if (S.flag("logout" + i)) ss[who].logout(id); else ss[who].remove(id);
      if (c || f) { const hit = c ? c.end() : f.hit; if (f) f.end(); if (!hit) return; S.now += 120000; S.cover(c ? "crashed" : "failed"); const now = doc(), failed = ss[who].drainErrors().length > 0; secret(); S.assert((same(now, before) && (c || failed)) || same(now, cur), c ? "after a crash the credentials are neither as before nor as after" : "a credential that could not be stored is not reported, or others are lost"); const s = AuthStorage.create(F); s.set("n", K("n")); S.assert(s.drainErrors().length === 0 && same(doc(), { ...now, n: K("n") }), "after a failure credentials can no longer be changed"); return; }
      S.assert(ss[who].drainErrors().length === 0 && same(doc(), cur), "a change of one credential lost or changed another, or was not stored"); S.assert(same(ss[who].get(id), v), "a credential just stored is not in force"); secret(); if (i > 0) S.cover("several");
    }
    const s = AuthStorage.create(F); S.assert(same(s.getAll(), cur) && same(s.list().sort(), Object.keys(cur).sort()) && ["a", "b", "o"].every((k) => s.has(k) === k in cur), "the credentials read are not those stored");
  } },
  refresh: { covers: ["refreshed", "not needed", "recovered", "failed", "replaced", "together"], async run(S) {
    setup(S); const left = S.pick("left", [-1, 0, 1, 1000]), mood = S.pick("provider", ["answers", "fails once", "fails", "slow"]), server = { refresh: "r0", access: "t0", n: 0, calls: 0 }; let spent = 0, rotated = 0;
    registerOAuthProvider({ id: "acme", name: "Acme", login: async () => ({}), getApiKey: (c) => "key-" + c.access, refreshToken: async (c) => { server.calls++; if (mood === "slow") await new Promise((r) => setTimeout(r, 50)); else await null; if (mood === "fails" || (mood === "fails once" && server.calls === 1)) throw new Error("network"); if (c.refresh !== server.refresh) { spent++; throw new Error("spent"); } rotated++; server.n++; server.refresh = "r" + server.n; server.access = "t" + server.n; return { access: server.access, refresh: server.refresh, expires: S.now + 100000, extra: c.extra }; } });
    const old = { type: "oauth", access: "t0", refresh: "r0", expires: S.now + left, extra: "e" }; put({ acme: old, zz: K("z") }); const ss = [AuthStorage.create(F), AuthStorage.create(F)]; S.env.procEnv.OTHER = "x"; const n = S.upto("calls", 3, 1), jobs = []; let other, replaced = false, recovers = 0; const drain = async () => { for (const j of jobs) await j.p; };
    for (let i = 0; i < n; i++) { const who = i === 0 ? 0 : S.upto("who" + i, 1), s = ss[who], what = S.pick("what" + i, ["key", "recover", "store", "replace", "remove"].slice(0, i === 0 ? 2 : 5)); if (i > 0 && S.flag("pause" + i)) await S.settle(S.pick("turns" + i, [1, 10]));
      if (what === "key") jobs.push({ what, who, after: replaced, p: S.tryAsync(() => s.getApiKey("acme")) }); else if (what === "recover") { recovers++; jobs.push({ what, who, p: S.tryAsync(() => s.recoverRejectedOAuthApiKey("acme", "key-t0")) }); }
      else { if (other || replaced) { await drain(); return; } s.drainErrors(); if (what === "store") { other = "b"; s.set("b", K("b")); } else { replaced = what; if (what === "replace") s.set("acme", K("plain")); else s.remove("acme"); } const errs = s.drainErrors(), now = doc(), ok = what === "store" ? same(now.b, K("b")) : what === "replace" ? same(now.acme, K("plain")) : !("acme" in now); S.assert(ok || errs.length > 0, "a credential that could not be stored is not reported"); if (!ok) { await drain(); return; } } }
    const out = []; for (const j of jobs) out.push({ ...j, r: await j.p }); secret(); const now = doc(), expired = left <= 0;
    S.assert(spent === 0, "a refresh token is used a second time"); S.assert(same(now.zz, K("z")) && (!other || same(now.b, K("b"))), "a refresh lost another credential"); S.assert(out.every((j) => j.r.ok), "a request for a key throws");
    if (!replaced) { S.assert(now.acme.refresh === server.refresh && now.acme.access === server.access && now.acme.extra === "e", "the refreshed token is not the one stored"); S.assert(rotated <= 1, "the same expired or refused token is refreshed twice"); } else S.cover("replaced");
    for (const j of out) { const v = j.r.value; if (replaced) { S.assert(v === undefined || v === "plain" || /^key-t\d$/.test(v), "a key from nowhere"); if (j.what === "key" && j.after === "replace" && expired) S.assert(v === "plain" || (server.n > 0 && v === "key-" + server.access), "a key another session stored in place of an expired token is not used"); continue; }
      if (j.what === "key") { if (!expired && recovers === 0) { S.assert(v === "key-t0" && server.calls === 0, "a token that is still valid is refreshed or withheld"); S.cover("not needed"); } else if (expired && mood !== "fails") { if (mood !== "fails once") S.assert(v === "key-" + server.access, "a session does not get the key refreshed by it or by another"); S.assert(v === undefined || v === "key-" + server.access, "a session gets a key that is no longer valid"); if (v) S.cover("refreshed"); } else if (expired) { S.assert(v === undefined, "a key is given that could not be refreshed"); S.cover("failed"); } }
      else { if (mood === "answers" || mood === "slow") S.assert(v === "key-t1", "a refused key is not replaced by a fresh one"); else S.assert(v === undefined || (mood === "fails once" && v === "key-t1"), "a refused key is given again"); if (v) S.cover("recovered"); } }
    if (jobs.length > 1) S.cover("together");
    const again = S.try(() => fs.existsSync(F + ".lock")); S.assert(again.ok && !again.value, "the credentials stay locked after a request"); if (mood === "fails once" && expired && !replaced && server.n === 0 && server.calls > 0) { const v = await ss[1].getApiKey("acme"); S.assert(v === "key-t1", "after a failed refresh the next one is not tried"); }
  } },
  sources: { covers: ["command line", "stored", "environment", "fallback", "none"], async run(S) {
    setup(S); const run = S.flag("runtime"), held = S.pick("stored", ["none", "key", "token", "expired", "unknown"]), env = S.flag("env"), fall = S.flag("fallback"), ask = S.pick("ask", [undefined, { includeFallback: false }, { includeFallback: true }]), id = held === "unknown" ? "nobody" : "openai";
    registerOAuthProvider({ id: "openai", name: "O", login: async () => ({}), getApiKey: (c) => c.access, refreshToken: async () => ({ access: "fresh", refresh: "r", expires: S.now + 9 }) });
    if (held !== "none") put({ [id]: held === "key" ? K("$WORD-$$") : { type: "oauth", access: "t", refresh: "r", expires: S.now + (held === "token" ? 1 : -1) } }); S.env.procEnv.WORD = "w"; if (env) S.env.procEnv.OPENAI_API_KEY = "env"; const s = AuthStorage.create(F), raw = read(); if (run) s.setRuntimeApiKey(id, "cli"); if (fall) s.setFallbackResolver((p) => (p === id ? "fb" : undefined));
    const stored = { none: undefined, key: "w-$", token: "t", expired: "fresh", unknown: undefined }[held], usable = held !== "unknown", e = env && id === "openai", want = run ? "cli" : held === "unknown" ? undefined : stored ?? (e ? "env" : fall && ask?.includeFallback !== false ? "fb" : undefined);
    const st = s.getAuthStatus(id); S.assert(s.hasAuth(id) === (run || held !== "none" || e || fall), "whether a provider has a key is told wrongly"); S.assert(st.configured === (held !== "none") && st.source === (held !== "none" ? "stored" : run ? "runtime" : e ? "environment" : fall ? "fallback" : undefined), "the source of a key is told wrongly"); S.assert(!JSON.stringify(st).includes("cli") && !JSON.stringify(st).includes("fb\""), "a status shows a key");
    const v = await s.getApiKey(id, ask); S.assert(v === want, "a key comes from another source than the first that has one"); if (held !== "expired") S.assert(read() === raw || raw === undefined, "asking for a key changed the credentials"); if (run) { S.assert(!(read() ?? "").includes("cli"), "a key of the command line is stored"); s.removeRuntimeApiKey(id); S.assert((await s.getApiKey(id)) !== "cli", "a key taken back is still given"); }
    S.cover(run ? "command line" : stored ? "stored" : want === "env" ? "environment" : want === "fb" ? "fallback" : "none");
  } },
  templates: { covers: ["filled", "missing", "literal"], run(S) {
    S.env.procEnv.A = "v$A"; S.env.procEnv.A1 = S.flag("empty") ? "" : "w"; const n = S.upto("len", S.thorough ? 5 : 4, 1); let t = ""; for (let i = 0; i < n; i++) t += S.pick("c" + i, i === 0 ? ["$", "{", "A", "x", "1"] : ["$", "!", "{", "}", "A", "1", "-"]); let missing = false; const names = [];
    const want = t.replace(/\$([$!])|\$\{([^}]*)\}|\$([A-Za-z_][A-Za-z0-9_]*)/g, (all, esc, braced, bare) => { if (esc) return esc; const name = bare ?? (/^[A-Za-z_][A-Za-z0-9_]*$/.test(braced) ? braced : undefined); if (name === undefined) return all; if (!names.includes(name)) names.push(name); const v = S.env.procEnv[name]; if (!v) missing = true; return v ?? ""; });
    S.assert(resolveConfigValue(t) === (missing ? undefined : want), "a key template gives another key"); S.assert(same(getConfigValueEnvVarNames(t), names) && same(getMissingConfigValueEnvVarNames(t), names.filter((k) => !S.env.procEnv[k])), "the variables a key needs are told wrongly"); S.cover(missing ? "missing" : names.length ? "filled" : "literal");
  } },
  damage: { covers: ["kept", "mended"], async run(S) {
    setup(S); const bad = S.pick("bad", BAD), late = S.flag("late"); put(late ? { a: K("1") } : bad); const s = AuthStorage.create(F); S.assert(s.drainErrors().length === (late ? 0 : 1), "damaged credentials are not reported, or sound ones are"); if (late) { put(bad); if (S.flag("reload")) { s.reload(); S.assert(s.drainErrors().length === 1 && same(s.get("a"), K("1")), "credentials that cannot be read again are not kept as they were"); } }
    const r = S.try(() => { s.set("b", K("2")); s.remove("a"); return [s.get("b"), s.list(), s.has("a"), s.hasAuth("b")]; }); S.assert(r.ok && same(r.value, [K("2"), ["b"], false, true]), "damaged credentials make a session fail"); S.assert(read() === bad, "damaged credentials were written over"); S.cover("kept");
    S.now += 120000; put({ a: K("3") }); s.reload(); s.drainErrors(); s.set("b", K("2")); S.assert(s.drainErrors().length === 0 && same(doc(), { a: K("3"), b: K("2") }), "credentials that were mended can no longer be changed"); S.cover("mended");
  } },
};
