#!/usr/bin/env python3
"""fix.py PROP[,PROP] "what failed": commits /repo's working tree as "fix: what failed" (or only the paths that follow) and records it in known_findings.json."""
import json, subprocess, sys
props, what = sys.argv[1], sys.argv[2]
subprocess.check_call(["git", "-C", "/repo", "commit", "-qm", "fix: " + what] + (["--"] + sys.argv[3:] if sys.argv[3:] else ["-a"]))
h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], text=True).strip()
p = "/verif/known_findings.json"
d = json.load(open(p))
for q in props.split(","):
    d.setdefault("fixed", []).append(f"fixed: property={q} {h} {what}")
json.dump(d, open(p, "w"), indent=1)
print(h, what)
