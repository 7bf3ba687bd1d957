#!/bin/bash
# ./check.sh C02 [quick|thorough]   explore
# ./check.sh --replay FILE          replay one file
# ./check.sh --build                build every harness
# ./check.sh C02 quick --selftest 500   determinism self-test
set -u
cd "$(dirname "$0")"
ROOT=$PWD
export HOME=${HOME:-/root}
export GOENV=off GOWORK=off GO111MODULE=on GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${SIM_GOCACHE:-/root/.cache/go-build}
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod
unset GOROOT
mkdir -p .build
for t in simtool simdrive; do
  (cd tools/$t && go build -o "$ROOT/.build/$t" .) || { echo "check.sh: building $t failed" >&2; exit 2; }
done
case "${1:-}" in
  --build) exec .build/simdrive -root "$ROOT" -build ;;
  --replay) exec .build/simdrive -root "$ROOT" -replay "$2" ;;
esac
prop=$1; shift
tier=${1:-${VERIF_TIER:-quick}}; [ $# -gt 0 ] && shift
args=()
while [ $# -gt 0 ]; do args+=("-${1#--}" "$2"); shift 2; done
exec .build/simdrive -root "$ROOT" -property "$prop" -tier "$tier" "${args[@]}"
