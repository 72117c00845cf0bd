#!/bin/bash
# development build: ./dev.sh [REPO]; leaves the harness in /tmp/dev/harness
set -e
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
REPO=${1:-/repo}; D=${2:-/tmp/dev}
mkdir -p $D/src/zz
[ -x $D/instr -a $D/instr -nt /verif/instrument/main.go ] || (cd /verif/instrument && go build -o $D/instr .)
rm -rf $D/src; mkdir -p $D/src/zz
$D/instr $REPO $D/src
cp -r /verif/sim /verif/shim $D/src/zz/
mkdir -p $D/src/zz/harness; cp /verif/harness/*.go $D/src/zz/harness/
cd $D/src && go vet ./zz/harness 2>&1 | grep -v "^#" | head -20 || true
go build -o $D/harness ./zz/harness
