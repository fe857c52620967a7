// Model of node:path (posix), instrumented together with the code under test.
const assertStr = (p, n) => { if (typeof p !== "string") { const e = new TypeError('The "' + n + '" argument must be of type string. Received ' + (p === null ? "null" : typeof p)); e.code = "ERR_INVALID_ARG_TYPE"; throw e; } };
function normalizeString(path, allowAboveRoot) {
  let res = "", lastSegmentLength = 0, lastSlash = -1, dots = 0, code = 0;
  for (let i = 0; i <= path.length; ++i) {
    if (i < path.length) code = path.charCodeAt(i);
    else if (code === 47) break;
    else code = 47;
    if (code === 47) {
      if (lastSlash === i - 1 || dots === 1) {
      } else if (dots === 2) {
        if (res.length < 2 || lastSegmentLength !== 2 || res.charCodeAt(res.length - 1) !== 46 || res.charCodeAt(res.length - 2) !== 46) {
          if (res.length > 2) {
            const k = res.lastIndexOf("/");
            if (k === -1) { res = ""; lastSegmentLength = 0; }
            else { res = res.slice(0, k); lastSegmentLength = res.length - 1 - res.lastIndexOf("/"); }
            lastSlash = i; dots = 0; continue;
          } else if (res.length !== 0) { res = ""; lastSegmentLength = 0; lastSlash = i; dots = 0; continue; }
        }
        if (allowAboveRoot) { res += res.length > 0 ? "/.." : ".."; lastSegmentLength = 2; }
      } else {
        if (res.length > 0) res += "/" + path.slice(lastSlash + 1, i);
        else res = path.slice(lastSlash + 1, i);
        lastSegmentLength = i - lastSlash - 1;
      }
      lastSlash = i; dots = 0;
    } else if (code === 46 && dots !== -1) ++dots;
    else dots = -1;
  }
  return res;
}
const P = {
  sep: "/", delimiter: ":",
  resolve(...args) {
    let resolved = "", abs = false;
    for (let i = args.length - 1; i >= -1 && !abs; i--) {
      const path = i >= 0 ? args[i] : __cwd();
      assertStr(path, "paths[" + i + "]");
      if (path.length === 0) continue;
      resolved = path + "/" + resolved;
      abs = path.charCodeAt(0) === 47;
    }
    resolved = normalizeString(resolved, !abs);
    if (abs) return "/" + resolved;
    return resolved.length > 0 ? resolved : ".";
  },
  normalize(path) {
    assertStr(path, "path");
    if (path.length === 0) return ".";
    const isAbs = path.charCodeAt(0) === 47;
    const trail = path.charCodeAt(path.length - 1) === 47;
    path = normalizeString(path, !isAbs);
    if (path.length === 0) { if (isAbs) return "/"; return trail ? "./" : "."; }
    if (trail) path += "/";
    return isAbs ? "/" + path : path;
  },
  isAbsolute(path) { assertStr(path, "path"); return path.length > 0 && path.charCodeAt(0) === 47; },
  join(...args) {
    if (args.length === 0) return ".";
    let joined;
    for (const a of args) { assertStr(a, "path"); if (a.length > 0) joined = joined === undefined ? a : joined + "/" + a; }
    if (joined === undefined) return ".";
    return P.normalize(joined);
  },
  relative(from, to) {
    assertStr(from, "from"); assertStr(to, "to");
    if (from === to) return "";
    from = P.resolve(from); to = P.resolve(to);
    if (from === to) return "";
    const fromStart = 1, fromEnd = from.length, fromLen = fromEnd - fromStart;
    const toStart = 1, toLen = to.length - toStart;
    const length = fromLen < toLen ? fromLen : toLen;
    let lastCommonSep = -1, i = 0;
    for (; i < length; i++) {
      const fc = from.charCodeAt(fromStart + i);
      if (fc !== to.charCodeAt(toStart + i)) break;
      else if (fc === 47) lastCommonSep = i;
    }
    if (i === length) {
      if (toLen > length) {
        if (to.charCodeAt(toStart + i) === 47) return to.slice(toStart + i + 1);
        if (i === 0) return to.slice(toStart + i);
      } else if (fromLen > length) {
        if (from.charCodeAt(fromStart + i) === 47) lastCommonSep = i;
        else if (i === 0) lastCommonSep = 0;
      }
    }
    let out = "";
    for (i = fromStart + lastCommonSep + 1; i <= fromEnd; ++i) {
      if (i === fromEnd || from.charCodeAt(i) === 47) out += out.length === 0 ? ".." : "/..";
    }
    return out + to.slice(toStart + lastCommonSep);
  },
  dirname(path) {
    assertStr(path, "path");
    if (path.length === 0) return ".";
    const hasRoot = path.charCodeAt(0) === 47;
    let end = -1, matched = true;
    for (let i = path.length - 1; i >= 1; --i) {
      if (path.charCodeAt(i) === 47) { if (!matched) { end = i; break; } }
      else matched = false;
    }
    if (end === -1) return hasRoot ? "/" : ".";
    if (hasRoot && end === 1) return "//";
    return path.slice(0, end);
  },
  basename(path, suffix) {
    assertStr(path, "path");
    let end = path.length;
    while (end > 0 && path.charCodeAt(end - 1) === 47) end--;
    let start = end;
    while (start > 0 && path.charCodeAt(start - 1) !== 47) start--;
    const base = path.slice(start, end);
    if (suffix !== undefined && suffix.length > 0 && base.length > suffix.length && base.endsWith(suffix)) return base.slice(0, base.length - suffix.length);
    return base;
  },
  extname(path) {
    assertStr(path, "path");
    let startDot = -1, startPart = 0, end = -1, matchedSlash = true, preDotState = 0;
    for (let i = path.length - 1; i >= 0; --i) {
      const code = path.charCodeAt(i);
      if (code === 47) { if (!matchedSlash) { startPart = i + 1; break; } continue; }
      if (end === -1) { matchedSlash = false; end = i + 1; }
      if (code === 46) { if (startDot === -1) startDot = i; else if (preDotState !== 1) preDotState = 1; }
      else if (startDot !== -1) preDotState = -1;
    }
    if (startDot === -1 || end === -1 || preDotState === 0 || (preDotState === 1 && startDot === end - 1 && startDot === startPart + 1)) return "";
    return path.slice(startDot, end);
  },
  toNamespacedPath(p) { return p; },
  parse(path) {
    const base = P.basename(path), ext = P.extname(path);
    const abs = P.isAbsolute(path);
    let dir = P.dirname(path);
    if (dir === "." && !path.startsWith(".")) dir = "";
    return { root: abs ? "/" : "", dir, base, ext, name: ext ? base.slice(0, base.length - ext.length) : base };
  },
  format(o) { const dir = o.dir || o.root; const base = o.base || (o.name || "") + (o.ext || ""); if (!dir) return base; return dir === o.root ? dir + base : dir + "/" + base; },
  matchesGlob() { throw new Error("matchesGlob not modelled"); },
};
P.posix = P;
P.default = P;
P.win32 = __nativePath.win32;
P.__esModule = true;
module.exports = P;
