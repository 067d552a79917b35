#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single place where both are edited)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, level, note, technique=None, observe=None, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note, technique=technique, observe=observe, state=state, na=na))
VG = "static analysis: abstract interpretation of the repository's MIR over a value-graph (global value numbering) domain with joins, value sets and intervals; implementation and reference graphs compared for equal normal forms"
exec(open(os.path.join(H, "tools/props.py")).read())
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]: a["observe_at"] = p["observe"]
        if p["state"]: a["state"] = p["state"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough", "technique": p["technique"] or VG, "level": p["level"], "level_note": p["note"]} for p in P if not p["na"]]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": "The analyser (driver/, engine/) is built by setup.sh; every check lowers /repo's current sources to MIR through the harness crate and analyses that. No check runs code of /repo."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
