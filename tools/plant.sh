#!/bin/bash
# plant.sh ID: confirm seeded/ID in /repo: applies, builds, tests pass, demo 0 without / nonzero with; then undo.
set -u
ID=$1; D=/verif/seeded/$ID
S=$(mktemp -d /tmp/plant-XXXXXX); cp -a $D/. $S/; rm -f $S/*.diff $S/meta.json
cd /repo; git diff --quiet || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $S/demo.sh >$S/o0 2>&1; a=$?
git apply $D/patch.diff || { echo "$ID: does not apply"; exit 2; }
bash /opt/vp/test.sh $S/t.json >$S/log 2>&1
p=$(python3 - $S/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def ids(x):
    r=x.get('passed') or x.get('tests') or x
    return set(r if isinstance(r,list) else [k for k,v in r.items() if v in('pass','passed',True,'PASS')])
bs=b.get('stable') or b.get('passed') or b.get('tests') or b
m=set(bs)-ids(t)
print('tests-ok' if not m else 'TESTS-FAIL %s'%sorted(m))
P
)
timeout 300 bash $S/demo.sh >$S/o1 2>&1; b=$?
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
echo "$ID: demo clean=$a patched=$b $p"
[ $a = 0 ] || tail -5 $S/o0
[ $b != 0 ] || tail -5 $S/o1
rm -rf "$S"
