#!/bin/bash
# bug.sh ID [check ids...] : confirms a planted bug and runs its property's check (and others) against it; development aid
D=/verif/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 2; }
git apply --check "$D/patch.diff" || exit 2
git apply "$D/patch.diff"
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/tmp/bug.build2 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/bug.build 2>&1 || { echo "DOES NOT BUILD"; tail -20 /tmp/bug.build; exit 1; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/bug.out >/tmp/bug.test 2>&1
python3 - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o=json.load(open('/tmp/bug.out'))
p=o.get('passed') or o.get('pass') or o
ps=set(p) if isinstance(p,list) else {k for k,v in p.items() if v in ('pass','passed',True,'ok')}
print('tests: broken stable:',sorted(b-ps) or 'none')
PY
fi
bash "$D/demo.sh" >/tmp/bug.demo 2>&1; echo "demo with bug: exit $? ($(tail -1 /tmp/bug.demo | cut -c1-150))"
for c in $P "$@"; do (cd /verif && timeout 900 python3 check.py $c 2>&1 | cut -c1-300 | head -${LINES_MAX:-5}); done
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/bug.build2 2>&1
bash "$D/demo.sh" >/tmp/bug.demo2 2>&1; echo "demo clean: exit $? ($(tail -1 /tmp/bug.demo2 | cut -c1-150))"
