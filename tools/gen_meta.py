#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list in tools/meta.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from meta import PROPS, NA
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }, ensure_ascii=False) + "\n")
TECH = "symbolic execution of the real code's SSA form, paths decided by z3 within stated bounds; counterexamples replayed natively"
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{
   "property": p["id"],
   "quick_cmd": f"bash check.sh {p['id']} quick",
   "thorough_cmd": f"bash check.sh {p['id']} thorough",
   "technique": TECH,
   "level": "model_checking",
   "level_note": p["note"],
 } for p in PROPS],
 "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
 "notes": "Every check re-reads /repo's working tree, translates it to SSA and executes it symbolically; see DESIGN.md.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(PROPS), "claimed,", len(NA), "not applicable")
