#!/bin/bash
# meta/seedcheck.sh <seed id> [--nodemo]: verify a planted bug in a scratch copy of /repo and run its property's check on it
V=/verif; id=$1; S=$V/seeded/$id
W=/tmp/seedwork; mkdir -p $W; D=$W/$id.$$
cp -a /repo $D
cd $D
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ "$2" != --nodemo ]; then
  git apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; rm -rf $D; exit 1; }
  # build in place: the same cmake commands on a fresh build folder
  rm -rf $D/_build
  if ! (cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON >/tmp/seedwork/$id.log 2>&1 && ninja -C _build >>/tmp/seedwork/$id.log 2>&1); then echo "$id: BUILD FAILS"; fi
  fails=0
  for t in $(find _build -maxdepth 3 -type f -executable -name '*est*' | grep -v CMake); do (cd tests/data; ../../$t >/tmp/seedwork/$id.t.log 2>&1) || { fails=1; grep FAILED /tmp/seedwork/$id.t.log | head -3; }; done
  echo "$id: tests fail=$fails"
  bash $S/demo.sh >/tmp/seedwork/$id.demo 2>&1; r1=$?
  git checkout -q -- . ; git apply -R --check $S/patch.diff 2>/dev/null
  ninja -C _build >/dev/null 2>&1
  bash $S/demo.sh >/tmp/seedwork/$id.demo0 2>&1; r0=$?
  echo "$id: demo patched=$r1 unpatched=$r0"
  git apply $S/patch.diff
else
  git apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; rm -rf $D; exit 1; }
fi
cp -a $V/evidence /tmp/seedwork/ev.$$ 2>/dev/null
for p in $prop $EXTRA; do VP_REPO=$D python3 $V/engine/check.py $p > /tmp/seedwork/$id.$p.out 2>&1; echo "$id: check $p exit $?"; grep -m3 assert\\\|mem-\\\|analysis /tmp/seedwork/$id.$p.out; done
rm -rf $D /tmp/seedwork/ev.$$
