#!/bin/bash
# seedtest.sh ID [notest]: confirm a planted bug (builds, stable tests pass, demo distinguishes) and run its property's check against it.
cd /repo || exit 9
[ -z "$(git status --short)" ] || { echo "/repo not clean"; exit 9; }
S=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/seed.b 2>&1 || { tail -5 /tmp/seed.b; exit 9; }
bash $S/demo.sh >/tmp/seed.d0 2>&1; D0=$?
git apply $S/patch.diff || exit 9
bash /opt/vp/build.sh >/tmp/seed.b 2>&1 || { echo "BUILD FAILS"; tail -20 /tmp/seed.b; exit 9; }
bash $S/demo.sh >/tmp/seed.d1 2>&1; D1=$?
T=skipped
if [ "$2" != notest ]; then
bash /opt/vp/test.sh /tmp/seed.t.json >/tmp/seed.t 2>&1
T=$(python3 - <<'X'
import json
t=json.load(open('/tmp/seed.t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
base=b.get('passed') or b.get('tests') or b.get('stable')
print('lost:',[x for x in base if x not in t['passed']])
X
)
fi
cd /verif
python3 bin/vrun.py check $P >/tmp/seed.c 2>/tmp/seed.ce; C=$?
echo "$1 property=$P demo0=$D0 demo1=$D1 tests=$T check=$C $(grep -c VIOLATION /tmp/seed.c) $(grep -m1 key: /tmp/seed.ce)"
[ $D0 = 0 ] || tail -5 /tmp/seed.d0
git -C /repo checkout -q -- .
