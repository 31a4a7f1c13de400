#!/bin/bash
# repofix.sh "message": rebuilds and tests /repo's working tree against the baseline list, then commits it.
out=$(mktemp /tmp/fixXXXX.json)
bash /opt/vp/build.sh || { echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh "$out" >/dev/null 2>&1
python3 - "$out" <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(d):
    for k in ('passed','pass','stable','tests'):
        if k in d: return set(d[k])
    raise SystemExit(str(list(d)))
miss=passed(b)-passed(o)
print(len(passed(b)),'baseline;',len(miss),'not passing')
for m in list(miss)[:10]: print('  ',m)
sys.exit(1 if miss else 0)
P
cd /repo && git add -A && git commit -qm "$1" && git log -1 --format='%h %s'
