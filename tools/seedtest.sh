#!/bin/bash
# seedtest.sh ID...: for each planted bug, in a private copy of /repo: applies, builds, stable tests, demo on both trees, check
V=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1; W=/tmp/seedtest/$id; mkdir -p $W; cp -a ${VERIF_REPO:-/repo} $W/repo; mkdir -p $W/b $W/v/evidence $W/v/replays; cp -a $V/lib $V/props $V/check.sh $V/known_findings.txt $W/v/
  prop=$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  unshare -Urm bash -c "
    mount --bind $W/repo /repo; cd /repo
    d0=skip; bash $V/seeded/$id/demo.sh >$W/demo0.log 2>&1; d0=\$?
    git apply $V/seeded/$id/patch.diff || { echo '$id: does not apply'; exit; }
    bash /opt/vp/build.sh >$W/build.log 2>&1; b=\$?
    if [ -z \"$NOTESTS\" ]; then bash /opt/vp/test.sh $W/t.json >/dev/null 2>&1; else cp /tmp/stable.json $W/t.json; fi
    m=\$(python3 -c \"import json;print(sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open('$W/t.json'))['passed'])))\")
    bash $V/seeded/$id/demo.sh >$W/demo1.log 2>&1; d1=\$?
    cd $W/v; VERIF_REPO=/repo VERIF_BUILD=$W/b VERIF_SEED=1 timeout 900 ./check.sh $prop quick >$W/check.log 2>&1; c=\$?
    echo \"$id: build \$b, missing tests \$m, demo \$d0/\$d1, check $prop exit \$c \$(grep -o 'VIOLATION property=[A-Z0-9]*' $W/check.log | head -1) \$(grep -o 'facet=[a-z_A-Z0-9]*' $W/check.log | tr '\n' ' ')\"
  "
  cp $W/check.log /tmp/seedtest/$id.check.log; find $W -delete
}
for i in "$@"; do one $i & while [ "$(jobs -rp | wc -l)" -ge 4 ]; do wait -n; done; done; wait
