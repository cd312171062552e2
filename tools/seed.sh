#!/bin/bash
# usage: tools/seed.sh ID   -- confirm the planted bug seeded/ID in a scratch copy of /repo, then run its property's check on it
# (needs seeded/ID/{patch.diff,demo.sh,meta.json}); restores /repo afterwards.  Development tool: no check uses it.
pgrep -f '[v]check' >/dev/null && { echo 'not while vcheck runs'; exit 8; }
id=$1; S=/verif/seeded/$id; W=/tmp/seedwork_$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; cp -a /repo "$W"
D=$(mktemp -d /tmp/demo_XXXX); cp -a $S/. $D/; rm -f $D/*.diff $D/meta.json
git -C /repo apply --check $S/patch.diff || exit 9
cd /repo && bash $D/demo.sh >/tmp/demo_clean.log 2>&1; c=$?
git -C /repo apply $S/patch.diff
bash $D/demo.sh >/tmp/demo_bug.log 2>&1; b=$?
t=skip
if [ "$2" != notest ]; then
  bash /opt/vp/test.sh /tmp/seed_out.json >/dev/null 2>&1
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/seed_out.json'))['passed']
print([x for x in b if x not in o])")
fi
cd /verif && ./check $prop quick > /tmp/seed_check.log 2>&1; k=$?
git -C /repo checkout -- . ; git -C /repo status --short
echo "$id prop=$prop demo clean=$c (want 0) bug=$b (want !=0) broken_tests=$t check=$k (want 1) $(grep -c '^VIOLATION' /tmp/seed_check.log)"
rm -rf "$D"; rm -rf "$W"
