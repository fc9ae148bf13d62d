#!/bin/bash
# check.sh PROPERTY quick|thorough: verify the property on /repo's working tree.
cd /verif || exit 3
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
bash /verif/setup.sh || exit 3
exec /verif/bin/goverif check "$1" "${2:-quick}"
