#!/usr/bin/env python3
"""Make a planted bug: plant.py NAME PROPERTY < spec, where spec is python defining EDITS=[(file,old,new)], NEEDS, BREAKS, DEMO (module text).
The demo module imports from process.cwd() (= /repo) and must throw or exit nonzero when the bug is there."""
import sys, os, json, subprocess, shutil, tempfile
name, prop = sys.argv[1:3]
ns = {}
exec(sys.stdin.read(), ns)
out = f"/verif/seeded/{name}"
os.makedirs(out, exist_ok=True)
wt = "/tmp/prepo"  # a copy of /repo with its build products; brought to /repo's HEAD first
if not os.path.exists(wt): subprocess.check_call(["cp", "-a", "/repo", wt])
subprocess.check_call(["git", "-C", wt, "fetch", "-q", "/repo", "HEAD"]); subprocess.check_call(["git", "-C", wt, "reset", "-q", "--hard", "FETCH_HEAD"])
for f, old, new in ns["EDITS"]:
    p = f"{wt}/{f}"; s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
d = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
assert d
open(out + "/patch.diff", "w").write(d)
open(out + "/demo.mjs", "w").write(ns["DEMO"].lstrip("\n"))
open(out + "/demo.sh", "w").write('#!/bin/sh\nexec node --experimental-strip-types --no-warnings "$(dirname "$0")/demo.mjs"\n')
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
# demo on the unchanged and the changed tree
def demo(): return subprocess.run(["sh", out + "/demo.sh"], cwd=wt, capture_output=True, text=True, timeout=280)
subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
a = demo()
subprocess.check_call(["git", "-C", wt, "apply", out + "/patch.diff"])
try:
    b = demo()
    c = subprocess.run(["node", "symex/run.mjs", prop], cwd="/verif", capture_output=True, text=True, timeout=900, env={**os.environ, "VERIF_REPO": wt}) if "nocheck" not in sys.argv else None
finally: subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
print(name, "demo clean:", a.returncode, "patched:", b.returncode, "| check:", c and c.returncode)
if a.returncode: print("CLEAN FAIL", a.stdout[-800:], a.stderr[-1500:])
print("patched says:", (b.stderr.strip().splitlines() or ["-"])[-12:][0:6] if b.returncode else "PASSES (bad)")
if c: print("\n".join(c.stdout.strip().splitlines()[-6:]))
