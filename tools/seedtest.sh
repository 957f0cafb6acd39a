#!/bin/bash
# seedtest.sh ID... : in a private mount of a copy of /repo: builds, runs tests, the demo with and without the patch and the property's check.
H=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  W=/tmp/seedtest/$id; rm -rf "/tmp/seedtest/$id"; mkdir -p "$W/ev"; cp -a /repo "$W/repo"
  P=$(python3 -c "import json;print(json.load(open('$H/seeded/$id/meta.json'))['property'])")
  W=$W P=$P H=$H id=$id unshare -Urm bash -c '
    mount --bind $W/repo /repo; cd /repo
    bash /opt/vp/build.sh >$W/b0 2>&1 || { echo "$id base build FAILED"; exit; }
    bash $H/seeded/$id/demo.sh >$W/d0 2>&1; d0=$?
    git apply $H/seeded/$id/patch.diff || { echo "$id apply FAILED"; exit; }
    bash /opt/vp/build.sh >$W/b1 2>&1 || { echo "$id patched build FAILED"; tail -5 $W/b1; exit; }
    ts=skip; if [ -z "$NOTEST" ]; then flock /tmp/seedtest/lock bash /opt/vp/test.sh $W/t.json >$W/t 2>&1
    ts=$(python3 -c "
import json;b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]);print(len(b-set(json.load(open(\"$W/t.json\"))[\"passed\"])))"); fi
    bash $H/seeded/$id/demo.sh >$W/d1 2>&1; d1=$?
    EVID=$W/ev SA_REPO=/repo python3 $H/check.py $P >$W/c 2>&1; c=$?
    echo "$id $P demo:$d0/$d1 tests-lost:$ts check:$c $(grep -m1 -A1 VIOLATION $W/c | cut -c1-200 | tr "\n" " ")"
    [ $d0 = 0 ] || tail -3 $W/d0'
  rm -rf "/tmp/seedtest/$id"
done
