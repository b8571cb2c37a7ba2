#!/bin/bash
# build.sh DIR: instruments /repo's current working tree and builds the simulator into DIR/vsim. Writes nothing else.
D=${1:?dir}
HERE=$(cd "$(dirname "$0")/.." && pwd)
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
cp -r "$HERE/sim" "$D/sim" || exit 1
cd "$D/sim" || exit 1
go build -o "$D/instrument" ./cmd/instrument || exit 1
"$D/instrument" -out "$D/inst" -sim . >"$D/info" || exit 1
go build -gcflags=all=-d=checkptr -overlay "$D/inst/overlay.json" -o "$D/vsim" ./cmd/vsim || exit 1
