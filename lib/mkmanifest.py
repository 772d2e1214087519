#!/usr/bin/env python3
"""Writes ../MANIFEST.json: a check for every property that has a module in checks/, the rest under not_applicable."""
import glob, json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "differential runtime monitor: the real module under generated workloads against a numpy reference, repeated under AddressSanitizer",
    "C20": "ThreadSanitizer plus an exactly-once monitor over every element, under injected delays and thread counts",
    "C24": "ThreadSanitizer plus an offline checker of the delivered log (exactly once, in order)",
    "C21": "online monitor of live buffers (overlap, contents) over random allocation histories, repeated under AddressSanitizer",
    "C22": "AddressSanitizer and crash/hang monitor under malformed calls",
    "C23": "monitor of input bytes, reference counts and memory growth around every call",
    "C03": "AddressSanitizer and crash/hang monitor under damaged files, against a reference parser of what must be rejected",
}
NOTE = {
    "default": "Exploration: every generated call is decided by an element-by-element comparison with an independent reference; "
               "assurance covers the calls generated (counts in the evidence file), not all inputs. Trusts numpy and the compiler sanitizers.",
}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
have = {}
for f in glob.glob(V + "/checks/c[0-9][0-9]_*.py"):
    m = re.match(r"c(\d\d)_", os.path.basename(f))
    have["C" + m.group(1)] = f
checks = [dict(property=p, quick_cmd=f"python3 run.py {p} --tier quick", thorough_cmd=f"python3 run.py {p} --tier thorough",
               evidence_file=f"evidence/{p}.json", technique=TECH.get(p, TECH["default"]), level="exploration",
               level_note=NOTE.get(p, NOTE["default"])) for p in props if p in have]
man = dict(version=1, setup_cmd="python3 lib/build.py", checks=checks,
           not_applicable=[dict(property=p, reason="no check built yet") for p in props if p not in have])
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
