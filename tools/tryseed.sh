#!/bin/bash
# tryseed.sh ID... : for each seeded bug: apply to /repo, run the stable tests and demo, run its property's check, undo.
. /opt/vp/env.sh
for ID in "$@"; do
D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo
bash $D/demo.sh >/tmp/d0.log 2>&1; d0=$?
git apply $D/patch.diff || { echo "$ID: patch does not apply"; continue; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
t=$(python3 - <<'E'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','passed','pass','stable','tests'):
            if k in x: return set(x[k] if not isinstance(x[k],dict) else x[k].keys())
    return set(x)
bb,tt=names(b),names(t)
print(len(bb-tt))
E
)
bash $D/demo.sh >/tmp/d1.log 2>&1; d1=$?
if [ -z "$NOCHECK" ]; then c=$(bash /verif/check.sh $P quick 2>&1 | tail -1); fi
git checkout -q -- .
echo "$ID [$P]: build=$b missing_tests=$t demo_clean=$d0 demo_bug=$d1 :: $c"
done
