#!/bin/bash
# check.sh ID [quick|thorough]   decide one property against /repo's working tree
# check.sh replay FILE           re-execute a recorded violation, showing its trace
# Exit 0: held on everything explored. Exit 1: violation. Anything else: error of the check.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export HOME=${HOME:-/root}
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
[ -n "$2" ] && [ "$1" != replay ] && export VERIF_TIER=$2
work=$(mktemp -d /tmp/goledgersim.XXXXXX) || exit 2
trap 'rm -rf -- "$work"' EXIT
(cd "$here/sim" && GOFLAGS= go build -o "$work/sim" .) || { echo "ERROR: building the simulator failed"; exit 2; }
if [ "$1" = replay ]; then
  "$work/sim" run "$work" "$here" "$2"
else
  "$work/sim" check "$1" "$work" "$here"
fi
