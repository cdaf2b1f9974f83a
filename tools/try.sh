#!/bin/bash
# try.sh ID [PROPERTY]: run the check(s) against a mutated copy of /repo's sources (VF_REPO); never touches /repo
ID=$1; D=/verif/seeded/$ID
P=${2:-$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")}
S=$(mktemp -d /tmp/try-XXXXXX); mkdir $S/repo; (cd /repo && git archive HEAD) | tar -x -C $S/repo
(cd $S/repo && git init -q . 2>/dev/null && git apply $D/patch.diff) || { echo "$ID no apply"; rm -rf "$S"; exit 2; }
cp -a /verif $S/verif 2>/dev/null; rm -rf "$S/verif/seeded" "$S/verif/.git"
t=$(date +%s)
VF_REPO=$S/repo timeout 900 python3 $S/verif/run.py $P --tier quick >$S/out 2>&1; rc=$?
echo "$ID $P rc=$rc $(( $(date +%s)-t ))s $(grep -m1 '^job' $S/out | cut -c1-120)"
[ $rc = 1 ] || tail -3 $S/out | cut -c1-300
rm -rf "$S"
