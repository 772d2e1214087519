"""Helper to write seeded/<id>/ from (file, old text, new text) edits against /repo's HEAD."""
import difflib, json, os, subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plant(id, prop, edits, demo, needs, breaks):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new, *nth in edits:
        base = files.get(f) or (subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f], text=True),) * 2
        assert base[1].count(old) == 1 or nth, (id, f, base[1].count(old), old)
        parts = base[1].split(old)
        k = nth[0] + 1 if nth else 1
        files[f] = (base[0], old.join(parts[:k]) + new + old.join(parts[k:]))
    with open(d + "/patch.diff", "w") as o:
        for f, (a, b) in files.items():
            o.write(f"diff --git a/{f} b/{f}\n")
            o.writelines(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    with open(d + "/demo.py", "w") as o:
        o.write(demo.lstrip())
    with open(d + "/demo.sh", "w") as o:
        o.write('#!/bin/bash\nPYTHONPATH=/repo/_build/src PYTHONDONTWRITEBYTECODE=1 exec timeout 250 /opt/vp/venv/bin/python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
