#!/bin/bash
# run.sh ID: builds the harness together with /repo's current working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOENV=off CGO_ENABLED=1
export GOCACHE="${VERIF_GOCACHE:-$PWD/build/gocache}"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
mkdir -p build replays evidence
id="$1"
bin="$PWD/build/$id.$$"
trap 'rm -f "$bin.vh" "$bin.race" "$bin.gotgt"' EXIT
( cd harness && go build -o "$bin.vh" ./cmd/vh ) || { echo "harness build failed"; exit 2; }
case "$id" in
 C18) ( cd harness && go build -race -o "$bin.race" ./cmd/vh ) || { echo "race build failed"; exit 2; }; export VERIF_RACEBIN="$bin.race" ;;
esac
case "$id" in
 C21|C23|C24|C29) ( cd harness && go build -o "$bin.gotgt" github.com/gostor/gotgt ) || { echo "gotgt build failed"; exit 2; }; export VERIF_GOTGT="$bin.gotgt" ;;
esac
"$bin.vh" check "$id"
exit $?
