#!/bin/bash
# new.sh ID [nocheck]: with patch.diff, demo.rs and meta.json in /verif/seeded/ID, confirms the bug, runs its property's check on it and undoes it.
set -u
id=$1; d=/verif/seeded/$id; here=$(cd "$(dirname "$0")" && pwd)
cp $here/demo.sh $here/prelude.rs $d/; cp /opt/vp/ws/Cargo.lock $d/ 2>/dev/null
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
cd /repo; bash $d/demo.sh > /tmp/seed-$id.base 2>&1; base=$?
git -C /repo apply $d/patch.diff || exit 1
(. /opt/vp/env.sh; bash /opt/vp/build.sh > /tmp/seed-$id.build 2>&1); b=$?
(. /opt/vp/env.sh; bash /opt/vp/test.sh /tmp/seed-$id.json 2>&1 | tail -1)
bash $d/demo.sh > /tmp/seed-$id.bug 2>&1; bug=$?
tail -2 /tmp/seed-$id.bug
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ "${2:-}" = nocheck ] || { cd /verif; python3 check.py $p quick > /tmp/seed-$id.check 2>&1; r=$?; echo "check $p exit $r"; grep VIOLATION /tmp/seed-$id.check
python3 - $id $p $r <<'Q'
import json,sys
f='/verif/tools/catches.json'
try: c=json.load(open(f))
except FileNotFoundError: c={}
c[sys.argv[1]]=[sys.argv[2]] if sys.argv[3]=='1' else []
json.dump(c,open(f,'w'),indent=1,sort_keys=True)
Q
}
git -C /repo checkout -- .
echo "$id build=$b base=$base bug=$bug"
