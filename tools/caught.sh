#!/bin/bash
# usage: caught.sh BUG [PROPERTY]  -- run a check against a planted bug, in a private mount namespace
ID=$1; P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
W=$(mktemp -d /tmp/ct-$ID-XXXX); cp -a /repo "$W/repo"; cp -a /verif "$W/verif"
cat > "$W/go.sh" <<EOF
mount --bind $W/repo /repo && mount --bind $W/verif /verif || exit 9
cd /repo && git apply /verif/seeded/$ID/patch.diff || { echo APPLY FAILED; exit 1; }
cd /verif && python3 run.py $P --tier quick > $W/out.log 2>&1; rc=\$?; tail -4 $W/out.log | cut -c1-600; echo "rc=\$rc"
EOF
unshare -m bash "$W/go.sh" 2>&1 | sed "s/^/[$ID:$P] /"
rm -rf "$W"
