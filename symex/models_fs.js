// In-memory model of the parts of node:fs / node:fs/promises the code under test uses.
// One mutable tree per run; every mutation goes through `hook`, where a harness injects crashes and faults.
// Contents are strings (possibly symbolic). A crash keeps what had been applied ("process crash" model: an
// applied write survives; bytes of an interrupted write may be a prefix).
function mk() {
  let ino = 1;
  const S = { nodes: null, fds: null, hook: null, log: [], nextFd: 100, now: 1700000000000 };
  const err = (code, call, p) => { const e = new Error(code + ": " + ({ ENOENT: "no such file or directory", EEXIST: "file already exists", ENOTDIR: "not a directory", EISDIR: "illegal operation on a directory", ENOTEMPTY: "directory not empty", EACCES: "permission denied", ENOSPC: "no space left on device", EIO: "i/o error", EBADF: "bad file descriptor", ELOOP: "too many symbolic links", EINVAL: "invalid argument" }[code] ?? code) + ", " + call + " '" + p + "'"); e.code = code; e.syscall = call; e.path = p; e.errno = -1; return e; };
  const dir = (mode) => ({ t: "d", ch: new Map(), mode: mode ?? 0o755, ino: ino++, mtimeMs: S.now, nlink: 2 });
  const file = (data, mode) => ({ t: "f", data, mode: mode ?? 0o644, ino: ino++, mtimeMs: S.now, nlink: 1 });
  function reset() { S.nodes = dir(); S.fds = new Map(); S.hook = null; S.readMax = undefined; S.bytes = undefined; S.log = []; S.nextFd = 100; mkdirp("/tmp"); }
  const toPath = (p) => { if (typeof p === "object" && p !== null && typeof p.pathname === "string") return decodeURIComponent(p.pathname); if (typeof p !== "string") { const e = new TypeError('The "path" argument must be of type string'); e.code = "ERR_INVALID_ARG_TYPE"; throw e; } return p; };
  const parts = (p) => __path.resolve(p).split("/").filter((x) => x.length > 0);
  function walk(p, call, follow, depth) {
    // returns {parent,name,node}
    if (p.length > 0 && p.includes("\u0000")) { const e = new TypeError("The argument 'path' must be a string without null bytes"); e.code = "ERR_INVALID_ARG_VALUE"; throw e; }
    if (depth > 20) throw err("ELOOP", call, p);
    const ps = parts(p);
    let cur = S.nodes, parent = null, name = "";
    let at = "";
    for (let i = 0; i < ps.length; i++) {
      if (cur === undefined) throw err("ENOENT", call, p);
      if (cur.t !== "d") throw err("ENOTDIR", call, p);
      parent = cur; name = ps[i];
      cur = parent.ch.get(name);
      const last = i === ps.length - 1;
      if (cur !== undefined && cur.t === "l" && (!last || follow)) {
        const tgt = __path.resolve(at === "" ? "/" : at, cur.target, ...ps.slice(i + 1));
        return walk(tgt, call, follow, (depth ?? 0) + 1);
      }
      at = at + "/" + name;
    }
    return { parent, name, node: cur, real: at === "" ? "/" : at };
  }
  const ev = (op, path, extra) => { S.log.push(op); if (S.hook) S.hook(op, path, extra); };
  function mkdirp(p) { let cur = S.nodes; let made; let at = ""; for (const s of parts(p)) { at += "/" + s; let n = cur.ch.get(s); if (n !== undefined && n.t === "l") { n = walk(at, "mkdir", true).node; if (n === undefined) throw err("ENOENT", "mkdir", p); } if (n === undefined) { n = dir(); cur.ch.set(s, n); if (made === undefined) made = at; } if (n.t !== "d") throw err("ENOTDIR", "mkdir", p); cur = n; } return made; }
  const encOf = (o) => (typeof o === "string" ? o : o && o.encoding) ?? null;
  const asStr = (d) => (typeof d === "string" ? d : d && typeof d.toString === "function" && d.__text !== undefined ? d.__text : Buffer.isBuffer(d) ? d.toString("utf8") : d instanceof Uint8Array ? Buffer.from(d).toString("utf8") : String(d));
  const flagOf = (o, d) => (o && typeof o === "object" && o.flag) || d;
  const F = {};
  F.existsSync = (p) => { try { if (typeof p !== "string" && !(p instanceof URL)) return false; return walk(toPath(p), "access", true).node !== undefined; } catch { return false; } };
  F.accessSync = (p) => { if (walk(toPath(p), "access", true).node === undefined) throw err("ENOENT", "access", p); };
  F.readFileSync = (p, o) => {
    let node;
    if (typeof p === "number") { const f = S.fds.get(p); if (!f) throw err("EBADF", "read", p); node = f.node; }
    else { p = toPath(p); ev("read", p); node = walk(p, "open", true).node; }
    if (node === undefined) throw err("ENOENT", "open", p);
    if (node.t === "d") throw err("EISDIR", "read", p);
    if (encOf(o) === null && S.bytes !== undefined && S.bytes.has(p)) return S.bytes.get(p);
    return encOf(o) === null ? Buffer.from(node.data, "utf8") : node.data;
  };
  F.openSync = (p, flags, mode) => {
    p = toPath(p);
    flags = flags ?? "r";
    if (typeof flags === "number") { const c = F.constants; const acc = flags & 3; flags = (flags & c.O_APPEND) ? "a" : (flags & c.O_CREAT) ? ((flags & c.O_EXCL) ? "wx" : (flags & c.O_TRUNC) ? "w" : "c") : acc === 0 ? "r" : "r+"; }
    ev("open:" + flags, p);
    const w = walk(p, "open", true);
    let node = w.node;
    const base = flags.replace("+", "").replace("s", "");
    if (base === "r") { if (node === undefined) throw err("ENOENT", "open", p); }
    else {
      if (base.includes("x") && node !== undefined) throw err("EEXIST", "open", p);
      if (node !== undefined && node.t === "d") throw err("EISDIR", "open", p);
      if (node === undefined) { if (w.parent === null) throw err("EISDIR", "open", p); node = file("", mode); w.parent.ch.set(w.name, node); }
      else if (base[0] === "w") node.data = "";
    }
    const fd = S.nextFd++;
    S.fds.set(fd, { node, pos: 0, append: base[0] === "a", path: p });
    return fd;
  };
  F.closeSync = (fd) => { if (!S.fds.has(fd)) throw err("EBADF", "close", fd); S.fds.delete(fd); };
  F.fsyncSync = (fd) => { const f = S.fds.get(fd); if (!f) throw err("EBADF", "fsync", fd); ev("fsync", f.path); };
  F.fdatasyncSync = F.fsyncSync;
  const unfinished = (d) => { for (let k = 1; k <= 3 && k <= d.length; k++) { const b = d[d.length - k]; if ((b & 0xc0) === 0x80) continue; return b >= 0xf0 ? (k < 4 ? k : 0) : b >= 0xe0 ? (k < 3 ? k : 0) : b >= 0xc0 ? (k < 2 ? k : 0) : 0; } return 0; };
  F.writeSync = (fd, data, a, b, c) => {
    const f = S.fds.get(fd); if (!f) throw err("EBADF", "write", fd);
    let s, position;
    if (typeof data === "string") { s = data; position = a; }
    else {
      let d = a !== undefined && a !== null && typeof a === "number" ? data.subarray(a, b === undefined || b === null ? undefined : a + b) : data;
      position = c;
      if (d.__text === undefined && typeof position !== "number") {
        // A character cut between two writes is held back until its last byte arrives.
        const size = d.length;
        if (f.node.pend) { d = Buffer.concat([f.node.pend, d]); f.node.pend = undefined; }
        const k = unfinished(d);
        if (k > 0) { put(f, asStr(d.subarray(0, d.length - k)), position); f.node.pend = Buffer.from(d.subarray(d.length - k)); return size; }
        if (size !== d.length) { put(f, asStr(d), position); return size; }
      }
      s = asStr(d);
    }
    put(f, s, position);
    return Buffer.byteLength(s, "utf8");
  };
  function put(f, s, position) {
    const apply = (n) => {
      const d = f.node.data;
      const part = n === undefined ? s : s.slice(0, n);
      if (f.append || (typeof position !== "number" && f.pos >= d.length)) f.node.data = d + part;
      else { const at = typeof position === "number" ? position : f.pos; f.node.data = d.slice(0, at) + part + d.slice(at + part.length); }
    };
    ev("write", f.path, { data: s, partial: apply });
    apply();
    f.node.mtimeMs = ++S.now;
    if (!f.append && typeof position !== "number") f.pos += s.length;
  }
  F.readSync = (fd, buf, off, len, pos) => {
    const f = S.fds.get(fd); if (!f) throw err("EBADF", "read", fd);
    if (off !== null && typeof off === "object") { len = off.length; pos = off.position; off = off.offset; }
    off = off ?? 0; len = len ?? buf.length - off;
    const d = Buffer.from(f.node.data, "utf8");
    const at = typeof pos === "number" ? pos : f.pos;
    const n = Math.max(0, Math.min(len, d.length - at, S.readMax ?? len)); // a read may return less than asked for
    for (let i = 0; i < n; i++) buf[off + i] = d[at + i];
    if (typeof pos !== "number") f.pos += n;
    return n;
  };
  F.fstatSync = (fd, o) => { const f = S.fds.get(fd); if (!f) throw err("EBADF", "fstat", fd); return stat(f.node); };
  F.ftruncateSync = (fd, n) => { const f = S.fds.get(fd); ev("truncate", f.path); f.node.data = f.node.data.slice(0, n ?? 0); };
  F.truncateSync = (p, n) => { const w = walk(toPath(p), "open", true); if (w.node === undefined) throw err("ENOENT", "open", p); ev("truncate", p); w.node.data = w.node.data.slice(0, n ?? 0); };
  F.fchmodSync = (fd, m) => { const f = S.fds.get(fd); f.node.mode = m; };
  F.writeFileSync = (p, data, o) => {
    const s = asStr(data);
    if (typeof p === "number") { const f = S.fds.get(p); if (!f) throw err("EBADF", "write", p); put(f, s); return; }
    const fd = F.openSync(p, flagOf(o, "w"), o && typeof o === "object" ? o.mode : undefined);
    try { put(S.fds.get(fd), s); if (o && typeof o === "object" && o.flush) F.fsyncSync(fd); } finally { S.fds.delete(fd); }
  };
  F.appendFileSync = (p, data, o) => { if (typeof p === "number") { const f = S.fds.get(p); put({ node: f.node, path: f.path, append: true, pos: 0 }, asStr(data)); return; } const fd = F.openSync(p, "a", o && typeof o === "object" ? o.mode : undefined); try { put(S.fds.get(fd), asStr(data)); } finally { S.fds.delete(fd); } };
  F.mkdirSync = (p, o) => {
    p = toPath(p);
    ev("mkdir", p);
    if (o && typeof o === "object" && o.recursive) return mkdirp(p);
    const w = walk(p, "mkdir", false);
    if (w.node !== undefined || w.parent === null) throw err("EEXIST", "mkdir", p);
    w.parent.ch.set(w.name, dir(o && typeof o === "object" ? o.mode : undefined));
    return undefined;
  };
  F.mkdtempSync = (pre) => { const p = toPath(pre) + "T" + String(100000 + S.nextFd++).slice(1); F.mkdirSync(p); return p; };
  F.renameSync = (a, b) => {
    a = toPath(a); b = toPath(b);
    ev("rename", a, { to: b });
    const x = walk(a, "rename", false), y = walk(b, "rename", false);
    if (x.node === undefined) throw err("ENOENT", "rename", a);
    if (y.parent === null) throw err("EINVAL", "rename", b);
    if (y.node !== undefined) { if (y.node.t === "d" && x.node.t !== "d") throw err("EISDIR", "rename", a); if (y.node.t !== "d" && x.node.t === "d") throw err("ENOTDIR", "rename", a); if (y.node.t === "d" && y.node.ch.size > 0) throw err("ENOTEMPTY", "rename", a); }
    x.parent.ch.delete(x.name); y.parent.ch.set(y.name, x.node);
  };
  F.unlinkSync = (p) => { p = toPath(p); ev("unlink", p); const w = walk(p, "unlink", false); if (w.node === undefined) throw err("ENOENT", "unlink", p); if (w.node.t === "d") throw err("EISDIR", "unlink", p); w.parent.ch.delete(w.name); w.node.nlink--; };
  F.rmdirSync = (p) => { p = toPath(p); ev("rmdir", p); const w = walk(p, "rmdir", false); if (w.node === undefined) throw err("ENOENT", "rmdir", p); if (w.node.t !== "d") throw err("ENOTDIR", "rmdir", p); if (w.node.ch.size > 0) throw err("ENOTEMPTY", "rmdir", p); w.parent.ch.delete(w.name); };
  F.rmSync = (p, o) => {
    p = toPath(p); ev("rm", p);
    let w;
    try { w = walk(p, "rm", false); } catch (e) { if (o && o.force && (e.code === "ENOENT" || e.code === "ENOTDIR")) return; throw e; }
    if (w.node === undefined) { if (o && o.force) return; throw err("ENOENT", "rm", p); }
    if (w.node.t === "d" && !(o && o.recursive)) { const e = err("EISDIR", "rm", p); e.code = "ERR_FS_EISDIR"; throw e; }
    if (w.parent === null) { w.node.ch.clear(); return; }
    w.parent.ch.delete(w.name);
  };
  F.copyFileSync = (a, b, mode) => { a = toPath(a); b = toPath(b); ev("copy", a, { to: b }); const x = walk(a, "copyfile", true); if (x.node === undefined) throw err("ENOENT", "copyfile", a); if (x.node.t === "d") throw err("EISDIR", "copyfile", a); const y = walk(b, "copyfile", true); if (y.node !== undefined) { if (mode & 1) throw err("EEXIST", "copyfile", b); y.node.data = x.node.data; } else y.parent.ch.set(y.name, file(x.node.data, x.node.mode)); };
  F.linkSync = (a, b) => { a = toPath(a); b = toPath(b); ev("link", a, { to: b }); const x = walk(a, "link", false); if (x.node === undefined) throw err("ENOENT", "link", a); const y = walk(b, "link", false); if (y.node !== undefined) throw err("EEXIST", "link", a); y.parent.ch.set(y.name, x.node); x.node.nlink++; };
  F.symlinkSync = (t, p) => { p = toPath(p); ev("symlink", p, { to: t }); const y = walk(p, "symlink", false); if (y.node !== undefined) throw err("EEXIST", "symlink", p); y.parent.ch.set(y.name, { t: "l", target: t, mode: 0o777, ino: ino++, mtimeMs: S.now, nlink: 1 }); };
  F.readlinkSync = (p) => { const w = walk(toPath(p), "readlink", false); if (w.node === undefined) throw err("ENOENT", "readlink", p); if (w.node.t !== "l") throw err("EINVAL", "readlink", p); return w.node.target; };
  F.realpathSync = (p) => { const w = walk(toPath(p), "realpath", true); if (w.node === undefined) throw err("ENOENT", "realpath", p); return w.real; };
  F.realpathSync.native = F.realpathSync;
  F.chmodSync = (p, m) => { const w = walk(toPath(p), "chmod", true); if (w.node === undefined) throw err("ENOENT", "chmod", p); ev("chmod", p, { mode: m }); w.node.mode = m; };
  F.chownSync = () => {};
  F.utimesSync = (p, a, m) => { const w = walk(toPath(p), "utime", true); if (w.node === undefined) throw err("ENOENT", "utime", p); w.node.mtimeMs = typeof m === "number" ? m * 1000 : m.getTime(); };
  function stat(node) {
    const size = node.t === "f" ? Buffer.byteLength(node.data, "utf8") : 0;
    return { size, mode: node.mode | (node.t === "d" ? 0o40000 : node.t === "l" ? 0o120000 : 0o100000), ino: node.ino, dev: 1, nlink: node.nlink, uid: 0, gid: 0, mtimeMs: node.mtimeMs, ctimeMs: node.mtimeMs, atimeMs: node.mtimeMs, birthtimeMs: node.mtimeMs, mtime: new Date(node.mtimeMs), ctime: new Date(node.mtimeMs), birthtime: new Date(node.mtimeMs), atime: new Date(node.mtimeMs), isFile: () => node.t === "f", isDirectory: () => node.t === "d", isSymbolicLink: () => node.t === "l", isFIFO: () => false, isSocket: () => false, isBlockDevice: () => false, isCharacterDevice: () => false };
  }
  F.statSync = (p, o) => { let w; try { w = walk(toPath(p), "stat", true); } catch (e) { if (o && o.throwIfNoEntry === false && e.code === "ENOENT") return undefined; throw e; } if (w.node === undefined) { if (o && o.throwIfNoEntry === false) return undefined; throw err("ENOENT", "stat", p); } return stat(w.node); };
  F.lstatSync = (p, o) => { let w; try { w = walk(toPath(p), "lstat", false); } catch (e) { if (o && o.throwIfNoEntry === false && e.code === "ENOENT") return undefined; throw e; } if (w.node === undefined) { if (o && o.throwIfNoEntry === false) return undefined; throw err("ENOENT", "lstat", p); } return stat(w.node); };
  F.opendirSync = (p) => { const l = F.readdirSync(p, { withFileTypes: true }); let i = 0; return { path: p, readSync: () => l[i++] ?? null, closeSync() {}, async read() { return l[i++] ?? null; }, async close() {}, async *[Symbol.asyncIterator]() { yield* l; } }; };
  F.readdirSync = (p, o) => {
    p = toPath(p);
    const w = walk(p, "scandir", true);
    if (w.node === undefined) throw err("ENOENT", "scandir", p);
    if (w.node.t !== "d") throw err("ENOTDIR", "scandir", p);
    const names = [...w.node.ch.keys()];
    if (o && typeof o === "object" && o.withFileTypes) return names.map((n) => { const c = w.node.ch.get(n); return { name: n, parentPath: p, path: p, isFile: () => c.t === "f", isDirectory: () => c.t === "d", isSymbolicLink: () => c.t === "l" }; });
    return names;
  };
  F.constants = __nativeFs.constants;
  F.watch = () => ({ close() {}, on() { return this; }, unref() {} });
  F.watchFile = () => {};
  F.unwatchFile = () => {};
  const pr = {};
  for (const k of ["access", "readFile", "writeFile", "appendFile", "mkdir", "mkdtemp", "rename", "unlink", "rmdir", "rm", "copyFile", "link", "symlink", "readlink", "realpath", "chmod", "stat", "lstat", "readdir", "truncate", "utimes"]) {
    const f = F[k + "Sync"];
    pr[k] = async (...a) => { await null; return f(...a); };
    F[k] = (...a) => { const cb = a.pop(); let r; try { r = f(...a); } catch (e) { Promise.resolve().then(() => cb(e)); return; } Promise.resolve().then(() => cb(null, r)); };
  }
  pr.constants = F.constants;
  pr.open = async (p, flags, mode) => {
    await null;
    const fd = F.openSync(p, flags, mode);
    return {
      fd, async close() { await null; if (S.fds.has(fd)) F.closeSync(fd); }, async sync() { await null; F.fsyncSync(fd); }, async datasync() { F.fsyncSync(fd); },
      async writeFile(d) { await null; put(S.fds.get(fd), asStr(d)); }, async appendFile(d) { await null; put(S.fds.get(fd), asStr(d)); },
      async write(...a) { await null; return { bytesWritten: F.writeSync(fd, ...a) }; },
      async read(b, off, len, pos) { await null; return { bytesRead: F.readSync(fd, b, off, len, pos), buffer: b }; },
      async readFile(o) { await null; return F.readFileSync(fd, o); }, async stat() { await null; return F.fstatSync(fd); }, async truncate(n) { await null; F.ftruncateSync(fd, n); }, async chmod(m) { F.fchmodSync(fd, m); },
      async [Symbol.asyncDispose]() { if (S.fds.has(fd)) F.closeSync(fd); },
    };
  };
  // advisory lock directories, as proper-lockfile keeps them (stale after 10 s unless told otherwise)
  const lk = {};
  const elocked = (f) => { const e = new Error("Lock file is already being held"); e.code = "ELOCKED"; e.file = f; return e; };
  lk.lockSync = (f, o) => {
    o = o ?? {};
    if (o.realpath !== false) f = F.realpathSync(f);
    const lp = o.lockfilePath || __path.resolve(f) + ".lock";
    ev("lock", lp);
    const w = walk(lp, "mkdir", false);
    if (w.node !== undefined) { const stale = o.stale === undefined ? 10000 : o.stale; if (!(stale > 0 && (w.node.at ?? 0) < Date.now() - stale)) throw elocked(f); w.parent.ch.delete(w.name); }
    if (w.parent === null) throw err("ENOENT", "mkdir", lp);
    const d = dir(); d.at = Date.now(); w.parent.ch.set(w.name, d);
    let done = false;
    return () => {
      if (done) { const e = new Error("Lock is already released"); e.code = "ERELEASED"; throw e; }
      ev("unlock", lp);
      done = true;
      const x = walk(lp, "rmdir", false);
      if (x.node === d) x.parent.ch.delete(x.name);
    };
  };
  lk.lock = async (f, o) => {
    o = o ?? {};
    const r = typeof o.retries === "number" ? { retries: o.retries } : o.retries ?? { retries: 0 };
    for (let n = 0; ; n++) {
      await null;
      try { const rel = lk.lockSync(f, o); return async () => { await null; rel(); }; }
      catch (e) { if (e === null || typeof e !== "object" || e.code !== "ELOCKED" || n >= (r.retries ?? 10)) throw e; }
      const ms = Math.min((r.minTimeout ?? 1000) * (r.factor ?? 2) ** n, r.maxTimeout ?? 1e9);
      await new Promise((res) => setTimeout(res, ms));
    }
  };
  lk.checkSync = (f, o) => { const lp = (o && o.lockfilePath) || __path.resolve(f) + ".lock"; return walk(lp, "stat", false).node !== undefined; };
  lk.check = async (f, o) => lk.checkSync(f, o);
  lk.unlockSync = (f, o) => { const lp = (o && o.lockfilePath) || __path.resolve(f) + ".lock"; const x = walk(lp, "rmdir", false); if (x.node !== undefined) x.parent.ch.delete(x.name); };
  lk.unlock = async (f, o) => lk.unlockSync(f, o);
  lk.default = lk; lk.__esModule = true;
  F.promises = pr;
  F.__esModule = true; F.default = F;
  pr.__esModule = true; pr.default = pr;
  reset();
  return { F, pr, S, lk, reset, mkdirp, walk, data: (p) => { const n = walk(p, "x", true).node; return n === undefined ? undefined : n.data; }, put: (p, d, mode) => { mkdirp(__path.dirname(p)); const w = walk(p, "x", true); if (w.node !== undefined) w.node.data = d; else w.parent.ch.set(w.name, file(d, mode)); }, closeAll: () => S.fds.clear(), err };
}
module.exports = mk();
