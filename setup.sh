#!/bin/bash
# Builds goverif from the committed, vendored sources (offline).
cd /verif/goverif || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
mkdir -p /verif/bin
GOFLAGS=-mod=vendor go build -o /verif/bin/goverif . || exit 1
