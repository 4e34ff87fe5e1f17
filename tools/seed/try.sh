#!/bin/bash
# try.sh <id> [full]: demo on the clean tree and on the patched one; which checks catch it; full: the test suite too.
ID=$1; S=/verif/seeded/$ID; W=/tmp/seedtree
exec 9> /tmp/seedtree.lock; flock 9
[ -d $W ] || { cp -a /repo $W; sed -i 's/a/a/' $W/Cargo.toml; }
git -C $W fetch -q /repo HEAD 2> /dev/null; git -C $W checkout -q -f FETCH_HEAD; git -C $W clean -fdq
(cd "$W" && bash "$S/demo.sh"); echo "clean demo: $?"
(cd "$W" && git apply "$S/patch.diff") || { echo "PATCH FAILS"; exit 1; }
(cd "$W" && bash "$S/demo.sh"); echo "patched demo: $?"
if [ "$2" = full ]; then
    sed "s#/repo#$W#g; s#^\. .*#. /tmp/seed-env.sh#" /opt/vp/test.sh > /tmp/seed-test.sh; sed "s#/repo#$W#g" /opt/vp/env.sh > /tmp/seed-env.sh
    bash /tmp/seed-test.sh /tmp/seed-res.json
    python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed-res.json'))
m=sorted(set(b['stable'])-set(r['passed'])); print('stable tests missing:', len(m), m[:8])
P
fi
cd /verif
for c in ${CHECKS:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))")}; do
    SCC_REPO=$W SCC_CACHE=/tmp/seed-cache timeout 900 python3 sa/check.py $c > /tmp/seed-out.$ID.$c 2>&1; rc=$?
    [ $rc -ne 0 ] && { echo "$c: exit $rc"; grep -v "^    path" /tmp/seed-out.$ID.$c | cut -c1-300 | head -${LINES_MAX:-4}; }
done
git -C $W checkout -q -f
