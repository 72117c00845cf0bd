#!/bin/bash
# usage: ./run.sh ID            check a property against /repo's working tree
#        ./run.sh replay FILE   re-execute a replay file, with its trace
#        ./run.sh run ID SEED RUN [-v]
# Environment: VERIF_SEED, VERIF_TIER (quick|thorough), VERIF_REPO.
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on CGO_ENABLED=0
export VERIF_DIR=$here
scratch=$(mktemp -d "${TMPDIR:-/tmp}/anansi-sim.XXXXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM HUP
export VERIF_SCRATCH=$scratch/run
mkdir -p "$scratch/src/zz" "$VERIF_SCRATCH" || exit 2
if ! go env GOCACHE >/dev/null 2>&1 || ! mkdir -p "$(go env GOCACHE)" 2>/dev/null; then
	export GOCACHE=$scratch/gocache
fi
fail() { echo "build of the simulation failed: $1" >&2; exit 2; }
(cd "$here/instrument" && go build -o "$scratch/instrument" .) || fail "instrumenter"
"$scratch/instrument" "$repo" "$scratch/src" >"$scratch/instrument.log" 2>&1 || { cat "$scratch/instrument.log" >&2; fail "instrumentation"; }
cp -r "$here/sim" "$here/shim" "$scratch/src/zz/" || fail "copy"
mkdir -p "$scratch/src/zz/harness" && cp "$here"/harness/*.go "$scratch/src/zz/harness/" || fail "copy"
(cd "$scratch/src" && go build -o "$scratch/harness" ./zz/harness) || fail "compilation"
case "$1" in
replay|run|list) "$scratch/harness" "$@" ;;
setup) echo "built"; exit 0 ;;
*) "$scratch/harness" check "$1" ;;
esac
