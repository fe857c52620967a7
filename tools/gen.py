#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NA
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OVER = {"i": "inputs", "s": "schedules", "c": "crash_points", "h": "histories", "g": "configurations", "f": "fault_sequences", "p": "programs"}
props, checks = [], []
for p in PROPS:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": [OVER[c] for c in p["over"]], "text": p["text"]},
        "why_tests_cant": p["tests"],
        "anchors": {"files": p["files"], "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p.get("state", [])],
            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}})
    for f in p["files"]: assert os.path.exists("/repo/" + f), (p["id"], f)
    if p["id"] in NA: continue
    checks.append({"property": p["id"],
        "quick_cmd": f"node symex/run.mjs {p['id']} --tier quick", "thorough_cmd": f"node symex/run.mjs {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "symbolic execution of the TypeScript source with z3 deciding every branch and assertion; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Holds for every value within the bounds in the evidence file (bounded exhaustive symbolic execution of the current source, each path replayed on the real code in node); nothing is claimed outside them. " + p.get("note", "Trusts the instrumenter, the library models (file system, path, clock, locks; cross-checked by the native replay of every path) and z3.")})
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in props: f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "node symex/run.mjs Z00", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks: the checks read /repo's source and instrument it in memory. DESIGN.md explains the engine; known-findings.jsonl lists known findings and repairs."}
with open(ROOT + "/MANIFEST.json", "w") as f: json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
import jsonschema
ms = json.load(open("/root/.vp/MANIFEST.schema.json")) if os.path.exists("/root/.vp/MANIFEST.schema.json") else None
if ms:
    jsonschema.validate(m, ms)
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props: jsonschema.validate(p, ps)
print(len(props), "properties,", len(checks), "checks")
