#!/bin/bash
# Builds the simulator and warms the build cache with the patched standard library.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export HOME=${HOME:-/root}
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
work=$(mktemp -d /tmp/goledgersim.XXXXXX) || exit 2
trap 'rm -rf -- "$work"' EXIT
(cd "$here/sim" && GOFLAGS= go build -o "$work/sim" .) && "$work/sim" build "$work"
