#!/bin/bash
# usage: bugtest.sh ID [notests]   -- confirm a planted bug in a scratch copy (never in /repo)
ID=$1; S=/verif/seeded/$ID; W=$(mktemp -d /tmp/bt-$ID-XXXX)
cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
cat > "$W/go.sh" <<EOF
mount --bind $W/repo /repo || exit 9
cd /repo
timeout 300 bash $W/demo/demo.sh > $W/clean.log 2>&1; echo "demo clean rc=\$?"
git apply $S/patch.diff || { echo APPLY FAILED; exit 1; }
timeout 300 bash $W/demo/demo.sh > $W/bug.log 2>&1; echo "demo bug rc=\$?"; tail -3 $W/bug.log
bash /opt/vp/build.sh > $W/build.log 2>&1; echo "build rc=\$?"
if [ "$2" != notests ]; then
 bash /opt/vp/test.sh $W/out.json > $W/tests.log 2>&1
 python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
def names(d,k):
    v=d.get(k,[]); return set(v if isinstance(v,list) else v.keys())
stable=set(b.get('stable') or b.get('passed') or b.get('tests') or [])
miss=sorted(stable-set(o['passed']))
print('stable',len(stable),'missing',miss[:10],len(miss))
open('$W/miss','w').write('\n'.join('test/'+m.split('::')[0].split('.')[-1]+'.py::'+m.split('::',1)[1] for m in miss))
PY
 if [ -s $W/miss ]; then
  # (timeouts when the machine is busy)
  EQX_GETKEY_SEED=1 PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu xargs -d '\n' /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --tb=line < $W/miss 2>&1 | tail -3
 fi
fi
EOF
unshare -m bash "$W/go.sh" 2>&1 | sed "s/^/[$ID] /"
rm -rf "$W"
