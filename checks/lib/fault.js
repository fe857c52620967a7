// Crash and fault injection on the in-memory file system.
// crash(): the process dies right before its k-th mutating operation, or in the middle of a write, leaving
// a prefix; nothing the process does afterwards has any effect. fault(): one operation fails with an errno.
export function crash(S, max, opts = {}) {
  const k = S.upto(opts.name ?? "crashAt", max);
  const st = { dead: false, n: 0, k, at: null };
  S.fs.S.hook = (op, path, extra) => {
    if (st.dead) throw dead();
    if (op === "read" || op === "open:r") return;
    if (st.n++ !== k) return;
    st.dead = true; st.at = op;
    if (op === "write" && extra && extra.data.length > 0 && !opts.noTear) {
      const len = extra.data.length;
      const cut = opts.cuts ? S.pick("cut", [...new Set([0, 1, Math.floor(len / 2), len - 1, len])].filter((x) => x >= 0)) : S.upto("cut", len);
      if (cut > 0) extra.partial(cut);
    }
    throw dead();
  };
  st.end = () => { S.fs.S.hook = null; S.fs.closeAll(); S.now = S.now + 120000; return st.dead; };
  return st;
}
const dead = () => { const e = new Error("process died"); e.code = "EDEAD"; return e; };
export function fault(S, max, codes = ["ENOSPC", "EIO"], opts = {}) {
  const k = S.upto(opts.name ?? "faultAt", max);
  const st = { hit: null, n: 0, k };
  S.fs.S.hook = (op, path, extra) => {
    if ((op === "read" || op === "open:r") && !opts.reads) return;
    if (opts.only && !opts.only(op, path)) return;
    if (st.n++ !== k) return;
    st.hit = op; st.path = path;
    if (op === "write" && extra && extra.data.length > 0) { const cut = S.pick("cut", [0, Math.floor(extra.data.length / 2)]); if (cut > 0) extra.partial(cut); }
    throw S.fs.err(S.pick("errno", codes), op, path);
  };
  st.end = () => { S.fs.S.hook = null; };
  return st;
}
