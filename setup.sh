#!/bin/bash
# Builds the harness once, so that the checks find a warm build cache.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=1 GOFLAGS=-mod=readonly GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
go build -o /dev/null ./harness/cmd/vdrv && go build -race -o /dev/null ./harness/cmd/vdrv && go build -trimpath -o /dev/null ./harness/cmd/vdrv
