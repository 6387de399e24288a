#!/bin/bash
# tools/bug.sh ID...   confirm a planted bug (seeded/ID) in a scratch copy and run its property's check against it.
# Needs nothing from the running checks; leaves /repo alone.
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0 HOME=/root
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  s=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  w=/tmp/bug_$id
  [ -d "$w" ] && rm -rf "/tmp/bug_$id"
  cp -a /repo "$w"
  r="$id [$prop]:"
  (cd "$w" && bash "$s/demo.sh" >"/tmp/demo_$id.clean" 2>&1); [ $? = 0 ] && r="$r clean-ok" || r="$r DEMO-FAILS-CLEAN"
  if git -C "$w" apply "$s/patch.diff"; then
    (cd "$w" && go build ./... && go build -tags debug ./...) || r="$r BUILD-FAILS"
    (cd "$w" && go test -vet=off -count=1 ./... >/tmp/test_$id.log 2>&1) && r="$r tests-pass" || r="$r TESTS-FAIL"
    (cd "$w" && timeout 280 bash "$s/demo.sh" >"/tmp/demo_$id.patched" 2>&1); [ $? != 0 ] && r="$r demo-fails" || r="$r DEMO-PASSES-PATCHED"
    for p in ${CHECKS:-$prop}; do
      o=$(cd "$V" && CPVERIF_REPO=$w VERIF_SEED=${VERIF_SEED:-1} timeout 850 python3 run.py $p --tier quick --noevidence 2>&1); rc=$?
      case $rc in 1) r="$r CAUGHT-by-$p";; 0) r="$r missed-by-$p";; *) r="$r ERROR-$p-$rc";; esac
      echo "$o" > /tmp/check_${id}_$p.log
    done
  else r="$r PATCH-FAILS"; fi
  rm -rf "/tmp/bug_$id"
  echo "$r"
done
