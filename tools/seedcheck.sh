#!/bin/bash
# seedcheck.sh <seed id>...: confirms in a scratch copy that a planted bug applies, builds,
# passes the stable tests, and that its demonstration tells it from the unchanged tree.
# With CHECK=1, also runs the property's quick check against the changed copy.
for id in "$@"; do
  D=/verif/seeded/$id
  W=$(mktemp -d /tmp/seedXXXXXX)
  cp -a /repo $W/repo
  mkdir $W/demo && cp -r $D/. $W/demo/ && rm -f $W/demo/*.diff $W/demo/meta.json
  # the demonstrations name /repo only through their working directory
  (cd $W/repo && timeout 300 bash $W/demo/demo.sh >$W/clean.out 2>&1); c=$?
  git -C $W/repo apply $D/patch.diff || { echo "$id: DOES NOT APPLY"; rm -rf $W; continue; }
  (cd $W/repo && timeout 300 bash $W/demo/demo.sh >$W/bug.out 2>&1); b=$?
  (cd $W/repo && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod go test -vet=off -count=1 ./delivery ./transports >$W/test.out 2>&1); t=$?
  prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  r=""
  if [ -n "$CHECK" ]; then
    (cd /verif && VERIF_REPO=$W/repo timeout 900 python3 check.py $prop quick > $W/check.out 2>&1); r="check=$?"
    grep -m1 -E "VIOLATION|ERROR" $W/check.out
  fi
  echo "$id ($prop): clean=$c bug=$b tests=$t $r"
  [ $c -ne 0 ] && tail -5 $W/clean.out
  [ $b -eq 0 ] && tail -5 $W/bug.out
  [ $t -ne 0 ] && grep -E "FAIL|panic" $W/test.out | head -5
  rm -rf $W
done
