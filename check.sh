#!/bin/bash
# usage: check.sh PROPERTY            run one check against /repo's working tree
#        check.sh replay FILE         replay one recorded violation
# VERIF_SEED and VERIF_TIER select the case list.
cd "$(dirname "$0")" || exit 2
VERIF=$(pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=1 GOFLAGS=-mod=readonly GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
seed=${VERIF_SEED:-1}; tier=${VERIF_TIER:-quick}
bin=$(mktemp -d /tmp/vbin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
go build -o "$bin/vdrv" ./harness/cmd/vdrv || { echo "build failed"; exit 2; }
if [ "$1" = replay ]; then
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$2")
else
  prop=$1
fi
worker=$bin/vdrv
flags=$("$bin/vdrv" flags -prop "$prop") || { echo "unknown property $prop"; exit 2; }
if [ -n "$flags" ]; then
  go build $flags -o "$bin/vdrv-worker" ./harness/cmd/vdrv || { echo "build of the workers failed"; exit 2; }
  worker=$bin/vdrv-worker
fi
if [ "$1" = replay ]; then
  "$worker" replay -file "$2"; exit $?
fi
"$bin/vdrv" run -prop "$prop" -seed "$seed" -tier "$tier" -worker "$worker" -verif "$VERIF"
