#!/bin/bash
# run.sh REPO SCRATCH PROPERTY SEED SECS DICT OUT : build the replay harness against REPO and look for an input
# on which the real code breaks PROPERTY. Exit 0: none found; 1: found, written to OUT; else: error.
REPO=$1; S=$2; shift 2
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off
mkdir -p "$S/h" && cp "$(dirname "$0")"/h/*.go "$S/h/" || exit 3
cd "$S/h" || exit 3
cat > go.mod <<E
module replay
go 1.23.0
require github.com/spdx/tools-golang v0.0.0
replace github.com/spdx/tools-golang => $REPO
E
sed -n '/^require (/,/^)/p' "$REPO/go.mod" >> go.mod
cp "$REPO/go.sum" go.sum
go build -o "$S/replay" . || exit 3
exec "$S/replay" "$@"
