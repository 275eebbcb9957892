#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and from harnesses.PROPS."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import harnesses as HS

I = "include/asioext/"
P = []
NA = []
LEVEL = {}


def p(id, title, statement, over, text, why, files, mech, note, state=(), observe=()):
    a = {"files": [I + f if not f.startswith("src/") else f for f in files], "mechanism": [{"name": n, "where": I + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
    LEVEL[id] = note


exec(open(os.path.join(V, "tools", "props_text.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
TECH = "symbolic execution of the LLVM IR of the real sources; every assertion decided by SMT (z3/cvc5, bit-vectors) over all values within the bounds; counterexamples replayed natively"
checks = [{"property": x["id"], "quick_cmd": "python3 check.py %s" % x["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % x["id"], "technique": TECH,
           "level": "model_checking", "level_note": LEVEL[x["id"]]} for x in P if x["id"] in HS.PROPS]
na = [{"property": x["id"], "reason": dict(NA).get(x["id"], "no harness yet")} for x in P if x["id"] not in HS.PROPS]
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
