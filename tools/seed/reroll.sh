#!/bin/bash
# reroll.sh FILE.py ID...: rewrites planted bugs until the tests that depend on the bytes of their binary pass.
cd /verif
f=$1; shift
ok() { ( cd /repo; . /opt/vp/env.sh
  go test -v -vet=off -count=1 -run TestOriginIn ./subscribe | grep -q 'no_origin_set:_prefix_elem:{name:"a"}_target' &&
  go test -v -vet=off -count=1 -run TestNewAgent ./testing/fake/gnmi | grep -q 'Test_case_target:"arista"_port:-1' ); }
for id in "$@"; do
  for k in 0 1 2 3 4 5 6 7 8 9 10 11 12; do
    NOTEST=1 VARIANT=$k ONLY=$id python3 tools/seed/mkbug.py $f | grep -q '=> ok' || { echo "$id variant $k: not made"; continue; }
    git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; break; }
    ok; r=$?
    git -C /repo checkout -q -- .
    [ $r = 0 ] && { echo "$id variant $k counts"; break; }
  done
done
