#!/bin/bash
# seed.sh <id> : confirm a planted bug in a scratch copy (applies, builds, tests pass, demo flips). Usage needs /verif/seeded/<id>.
set -u
S=/verif/seeded/$1; W=/tmp/seedrepo
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
B() { bash /opt/vp/build.sh >/tmp/seed.build.log 2>&1; }
cd /repo
B || { echo BUILDFAIL0; exit 2; }
bash $S/demo.sh >/tmp/seed.demo0.log 2>&1; d0=$?
git apply $S/patch.diff || { echo APPLYFAIL; exit 2; }
B; b=$?
bash /opt/vp/test.sh /tmp/seed.out.json >/dev/null 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/seed.out.json'));s=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(d['passed']);m=[x for x in s if x not in p]
print('stable missing',len(m),m[:5])
P
timeout 300 bash $S/demo.sh >/tmp/seed.demo1.log 2>&1; d1=$?
pid=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif; python3-vt check.py $pid 2>&1 | tail -5 | cut -c1-260; 
git -C /repo checkout -- .
cd /repo; B
echo "$1 build=$b demo0=$d0 demo1=$d1 property=$pid"
