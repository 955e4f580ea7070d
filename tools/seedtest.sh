#!/bin/bash
# seedtest.sh <seed id> [property]: apply a planted change to /repo, build, run the stable tests, the demo and the check, undo it.
S=/verif/seeded/$1; P=${2:-$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")}
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
cp -r $S /tmp/seed.$$; rm -f /tmp/seed.$$/patch.diff /tmp/seed.$$/meta.json
if [ -z "$SKIPBASE" ]; then bash /tmp/seed.$$/demo.sh >/tmp/seed.$$.o 2>&1; echo "demo on base: $?"; fi
git apply $S/patch.diff || { rm -rf /tmp/seed.$$; exit 2; }
if [ -z "$SKIPBUILD" ]; then
bash /opt/vp/build.sh >/tmp/seed.$$.b 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/seed.$$.json >/tmp/seed.$$.t 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.$$.json'))
base=set(b.get('stable_pass') or b.get('passed') or b.get('stable') or [])
ok=set(r.get('passed') or [])
print('tests: missing', sorted(base-ok)[:5] if base else list(b)[:5], len(base), len(ok))
P
fi
bash /tmp/seed.$$/demo.sh >/tmp/seed.$$.o 2>&1; echo "demo with patch: $?"; tail -2 /tmp/seed.$$.o
(cd /verif && ./check $P quick) > /tmp/seed.$$.c 2>&1; echo "check $P: $?"; (grep -E 'VIOLATION|REPLAY' /tmp/seed.$$.c | head -3; grep UNDEC /tmp/seed.$$.c | head -3) | cut -c1-300
git checkout -q -- . ; rm -rf /tmp/seed.$$ /tmp/seed.$$.*
[ -z "$SKIPBUILD" ] && [ -n "$REBUILD" ] && bash /opt/vp/build.sh >/dev/null 2>&1
exit 0
