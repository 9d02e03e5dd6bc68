#!/bin/bash
# development aid: confirm planted bugs in a scratch copy (/tmp/sr) and run the property's check against them
# usage: seedtest.sh ID... ; options through env: NOTEST=1 (skip the test suite), NOCHECK=1, CHECKS="C01 C02"
S=${SR:-/tmp/sr}; P=${VP:-/tmp/vp}; L=${SR:-/tmp/sr}
if [ ! -d $S ]; then
  cp -a /repo $S; mkdir -p $P; cp -a /opt/vp/. $P/
  sed -i "s#/repo#$S#g; s#/opt/vp#$P#g" $P/build.sh $P/test.sh $P/env.sh
  rm -f $P/cache/minirust-rs.stamp
fi
V=/verif
git -C $S fetch -q /repo HEAD && git -C $S checkout -q -f FETCH_HEAD && git -C $S clean -qfd
for id in "$@"; do
  d=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  r="$id [$prop]:"
  git -C $S checkout -q -- .
  if [ -z "$NODEMO" ]; then
    bash $P/build.sh >$L.log 2>&1 || r="$r CLEANBUILD-FAILED"
    (cd $S && bash $d/demo.sh) >$L.demo0 2>&1 && r="$r demo-clean-ok" || r="$r DEMO-FAILS-CLEAN"
  fi
  git -C $S apply $d/patch.diff || { echo "$r PATCH-FAILS"; continue; }
  if [ -z "$NODEMO" ]; then
    bash $P/build.sh >$L.log 2>&1 || r="$r BUILD-FAILED"
    (cd $S && bash $d/demo.sh) >$L.demo1 2>&1 && r="$r DEMO-PASSES-PATCHED" || r="$r demo-patched-fails($(tail -1 $L.demo1 | cut -c1-100))"
  fi
  if [ -z "$NOTEST" ]; then
    bash $P/test.sh $L.json >$L.test 2>&1
    r="$r $(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); j=json.load(open('$L.json'))
p=set(j.get('passed') or j.get('pass') or [])
m=sorted(b-p); print('tests-ok' if not m else 'TESTS-BROKEN(%d: %s)'%(len(m),m[:3]))")"
  fi
  if [ -z "$NOCHECK" ]; then
    for c in ${CHECKS:-$prop}; do
      VERIF_REPO=$S python3 $V/check.py $c >$L.chk 2>&1; rc=$?
      r="$r | $c rc=$rc $(grep -c 'failing input' $L.chk) inputs $(grep -c 'rejected' $L.chk) rejected $(grep VIOLATION $L.chk | sed 's/.*replay=[^ ]*//')"
    done
  fi
  git -C $S checkout -q -- .
  echo "$r"
done
