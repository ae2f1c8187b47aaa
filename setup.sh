#!/bin/bash
# setup.sh warms the build cache; run.sh builds again from the current tree.
cd "$(dirname "$0")" || exit 2
export PATH="/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOENV=off CGO_ENABLED=1 GOCACHE="${VERIF_GOCACHE:-$PWD/build/gocache}"
mkdir -p build replays evidence
cd harness && go build -o /dev/null ./cmd/vh && go build -race -o /dev/null ./cmd/vh
