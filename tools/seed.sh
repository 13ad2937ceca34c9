#!/bin/bash
# tools/seed.sh ID PROPERTY: confirm a planted bug that is applied in the scratch tree /tmp/sb (a copy of /repo with its
# own build scripts in /tmp/sbvp) and store it; seeded/ID must hold demo.sh and meta.json already.
set -u
id=$1 prop=$2 dir=/verif/seeded/$1
cd /tmp/sb || exit 1
git diff > $dir/patch.diff
[ -s $dir/patch.diff ] || { echo "no change"; exit 1; }
(cd /repo && bash $dir/demo.sh >/tmp/sbvp/demo0.log 2>&1) || { echo "demo fails on the unchanged tree"; tail -5 /tmp/sbvp/demo0.log; exit 1; }
(cd /tmp/sb && bash $dir/demo.sh >/tmp/sbvp/demo1.log 2>&1) && { echo "demo passes with the change"; exit 1; }
tail -3 /tmp/sbvp/demo1.log
bash /tmp/sbvp/build.sh >/tmp/sbvp/build.log 2>&1 || { echo "build fails"; grep -m3 error /tmp/sbvp/build.log; exit 1; }
bash /tmp/sbvp/test.sh /tmp/sbvp/out.json >/tmp/sbvp/test.log 2>&1
python3 - <<'P' || exit 1
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/sbvp/out.json'))
st=b.get('passed') or b.get('stable') or b
ps=set(o['passed'])
miss=[x for x in st if x not in ps]
print('stable tests', len(st), 'missing', miss[:5])
raise SystemExit(1 if miss else 0)
P
echo "confirmed $id"
cd /verif && VF_REPO=/tmp/sb VERIF_SEED=${SEED:-1} python3 -m vf.run $prop quick 2>/dev/null | grep -E "VIOLATION|held|VIOLATED|^(run|compile)" 
