#!/bin/bash
# seedtest.sh [-n] ID...: confirms planted bugs in a scratch copy of /repo (-n: skip the repository's tests)
# prints per bug: build, stable tests, demo without/with the patch, verdict of the property's check.
NOTEST=0; [ "$1" = -n ] && { NOTEST=1; shift; }
R=${SEED_SCRATCH:-/tmp/rs}; S=/verif/seeded
fresh() { mkdir -p $R; rsync -a --delete --exclude _build --exclude .git /repo/ $R/; }
bld() { sed "s#/repo#$R#g" /opt/vp/build.sh > $R.build.sh; bash $R.build.sh > $R.build.log 2>&1; }
fresh; bld || { echo "base build failed"; tail -5 $R.build.log; exit 1; }
for id in "$@"; do
  d=$S/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  fresh; bld
  (cd $R && timeout 300 bash $d/demo.sh > $R.demo0 2>&1); d0=$?
  (cd $R && git -C /repo apply --check $d/patch.diff && patch -s -p1 < $d/patch.diff) || { echo "$id: PATCH FAILS"; continue; }
  bld || { echo "$id: BUILD FAILS"; tail -20 $R.build.log; continue; }
  t=skipped
  if [ $NOTEST = 0 ]; then
    B=$R/_build
    pkill -KILL -f "^$B/test/"; rm -f $B/test-results.txt
    python3 /opt/vp/run_tests.py "$B/test" $B/test-results.txt $B/test-work > $R.test.log 2>&1
    python3 /opt/vp/results.py $R.t.json "lines:$B/test-results.txt" >/dev/null 2>&1
    t=$(python3 -c "
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('$R.t.json'))['passed'])
print('pass' if s<=p else 'FAIL '+','.join(sorted(s-p)))")
  fi
  (cd $R && timeout 300 bash $d/demo.sh > $R.demo1 2>&1); d1=$?
  VERIF_REPO=$R timeout 900 python3 /verif/check.py $prop > $R.check 2>&1; c=$?
  echo "$id [$prop]: tests=$t demo=$d0/$d1 check=$c $(grep -h 'VIOLATION' $R.check | head -1)"
  [ $c = 2 ] && tail -3 $R.check
done
