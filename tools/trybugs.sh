#!/bin/bash
# trybugs.sh ID...: tries planted bugs on a scratch copy of /repo (bind-mounted over /repo in a private mount namespace).
# Prints one line per bug: applies/builds, stable tests, demo without/with the patch, and what the property's quick check said.
S=/tmp/sv
[ -d $S ] || cp -a /repo $S
git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD
exec unshare -Urm bash -c '
mount --bind /tmp/sv /repo
bash /opt/vp/build.sh >/tmp/sv.log 2>&1 || { echo "clean build failed"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  (cd /repo; bash $d/demo.sh >/tmp/sv.demo0 2>&1); clean=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/sv.log 2>&1; then
    (cd /repo; bash $d/demo.sh >/tmp/sv.demo1 2>&1); bad=$?
    if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/sv.json >/dev/null 2>&1
    t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"));t=json.load(open(\"/tmp/sv.json\"))
f=[x for x in b[\"stable\"] if x not in t[\"passed\"]];print(len(f) and f[:3] or \"pass\")"); else t=skipped; fi
    p=$(python3 -c "import json;print(json.load(open(\"$d/meta.json\"))[\"property\"])")
    out=$(cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 run.py $p 2>&1); rc=$?
    echo "$id: demo clean=$clean patched=$bad; tests $t; check $p rc=$rc; $(echo "$out" | grep -A1 ^VIOLATION | head -2 | tail -1 | cut -c1-160)"
  else echo "$id: build failed"; tail -20 /tmp/sv.log; fi
  git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh >/tmp/sv.log 2>&1
' x "$@"
