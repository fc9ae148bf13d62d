#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks" : takes the diff of the scratch tree /tmp/seedwt (edited by hand) and
# /tmp/seeddemo/{demo.sh,...}; confirms build, tests, demo pass/fail; stores it as /verif/seeded/ID.
set -e
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/seedwt diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
if [ -d /tmp/seeddemo ]; then cp -r /tmp/seeddemo/. $D/; fi
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
cat $D/patch.diff | head -40
