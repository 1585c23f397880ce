#!/bin/bash
# tools/seedtest.sh ID [--nocheck]: confirms a planted bug in a scratch copy (/tmp/seedwt): builds, passes the stable tests, demo fails
# with the patch and passes without; then runs the quick check of its property against the copy.
set -u
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; D=$V/seeded/$ID; W=${SEEDWT:-/tmp/seedwt}
sync_copy() { mkdir -p $W; rsync -rlpc --delete --exclude _build --exclude _mc --exclude .git /repo/ $W/ 2>/dev/null || exit 9; }
sync_copy
[ -f $W/_build/build.ninja ] || CC=gcc CXX=g++ cmake -S $W/reference -B $W/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_STANDARD=14 -DBUILD_TESTS=ON -DBUILD_DOC=OFF -DENABLE_SOC_KEY_TESTS=1 -DCMAKE_GTEST_DISCOVER_TESTS_DISCOVERY_MODE=PRE_TEST -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest >$W.cm.log 2>&1
ninja -C $W/_build >$W.b.log 2>&1 || { echo "$ID: base build failed"; exit 9; }
for d in client taimpl util; do cp $W/reference/test/root_keystore.p12 $W/_build/src/$d/; done
T=$(mktemp -d /tmp/seeddemo.XXXX); cp -r $D/. $T/; rm -f $T/patch.diff $T/meta.json
(cd $W && timeout 300 bash $T/demo.sh >/tmp/seed_$ID.ok 2>&1); A=$?
for f in $(grep '^+++ b/' $D/patch.diff | cut -c7-); do mkdir -p $T/orig/$(dirname $f); cp -p $W/$f $T/orig/$f; done
(cd $W && patch -p1 -s --no-backup-if-mismatch < $D/patch.diff) || { echo "$ID: patch failed"; exit 9; }
R=0; ninja -C $W/_build >$W.b.log 2>&1 || { echo "$ID: BUILD FAILS"; R=9; }
if [ $R = 0 ]; then
  (cd $W && timeout 300 bash $T/demo.sh >/tmp/seed_$ID.bad 2>&1); B=$?
  rm -f $W.res.txt; python3 /opt/vp/run_gtests.py $W.res.txt $W/_build/src/client/saclienttest $W/_build/src/taimpl/taimpltest $W/_build/src/util/utiltest >$W.t.log 2>&1
  python3 /opt/vp/results.py $W.res.json lines:$W.res.txt >/dev/null; T2=$(python3 $V/tools/cmpbase.py $W.res.json | tail -1)
  echo "$ID: demo unpatched=$A patched=$B; tests: $T2"
  if [ "${2:-}" != --nocheck ]; then P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])"); VERIF_REPO=$W MC_VERIF=$V timeout 900 $V/check $P quick > /tmp/seed_$ID.chk 2>&1; echo "$ID: check $P exit $? $(grep -m1 VIOLATION /tmp/seed_$ID.chk)"; fi
fi
for f in $(cd $T/orig && find . -type f); do cp $T/orig/$f $W/$f; touch $W/$f; done; ninja -C $W/_build >/dev/null 2>&1
rm -rf "$T"
