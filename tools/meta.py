#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None,
                           **({"state": state} if state else {})}, technique=technique, note=note))
CI = "common/include/rofl/common/"
CS = "common/src/"
GI = "geometry/include/rofl/geometry/"
GS = "geometry/src/"
exec(open(os.path.join(V, "tools", "table.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup_check.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
     "not_applicable": [],
     "notes": "Every check builds its own harness from /repo's current sources (g++ with AddressSanitizer), generates cases from VERIF_SEED with fixed counts, shrinks failures to a choice tape and writes it under replays/. Replay: python3 check.py <id> --replay <file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
