#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level_note="", state=None, na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": "none"}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append((d, level_note, na))
exec(open(os.path.join(VERIF, "tools", "props_data.py")).read())
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for d, _, _ in P: f.write(json.dumps(d) + "\n")
TECH = "symbolic execution of the real code (rustc LLVM IR of /repo/src, own executor, z3): inputs, sizes and task interleavings are solver variables; violations are replayed natively"
man = {"version": 1, "setup_cmd": "bash tools/setup.sh",
       "checks": [{"property": d["id"], "quick_cmd": f"python3 tools/check.py {d['id']} quick", "thorough_cmd": f"python3 tools/check.py {d['id']} thorough", "technique": TECH, "level": "model_checking", "level_note": n or "exhaustive over all values within the bounds printed in the evidence"} for d, n, na in P if not na],
       "not_applicable": [{"property": d["id"], "reason": na} for d, n, na in P if na],
       "notes": "See DESIGN.md. No hooks in /repo are needed: the checks compile the current sources of /repo/src against environment models."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1); f.write("\n")
