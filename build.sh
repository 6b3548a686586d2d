#!/bin/bash
# build.sh DIR: instruments a copy of /repo's package and builds the simulator with it, into DIR.
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local
mkdir -p "$1"
D=$(cd "$1" && pwd)
REPO=${VERIF_REPO:-/repo}
(cd instr && GOFLAGS= go build -o "$D/instr" .)
rm -rf "$D/ov"
"$D/instr" -repo "$REPO" -rt "$PWD/rt/verifrt" -out "$D/ov" >/dev/null
(cd sim && go build -overlay "$D/ov/overlay.json" -o "$D/sim" .)
