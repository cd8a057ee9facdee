#!/usr/bin/env python3
"""fixed.py PROP COMMIT: records a fix commit of /repo in known_findings.json."""
import json, subprocess, sys
p, c = sys.argv[1:3]
t = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%s", c], text=True).strip()
assert t.startswith("fix: ")
f = "/verif/known_findings.json"
s = open(f).read().rstrip()
body = s[:-1].rstrip()
body += "" if body.endswith(",") else ","
open(f, "w").write(body + "\n " + json.dumps({"property": p, "entry": "", "label": "", "where": "", "status": "fixed", "commit": c, "what": f"fixed: property={p} {c} {t[5:]}"}) + "\n]\n")
json.load(open(f))
