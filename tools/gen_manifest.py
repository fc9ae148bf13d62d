#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: CLAIMED maps property -> (level_note, theorems)."""
import json,sys
sys.path.insert(0,'/verif/tools')
from claims import CLAIMED, NOT_APPLICABLE
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[]
for i in ids:
    if i in CLAIMED:
        note=CLAIMED[i]
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json",
          "technique":"contract-based deductive verification of the Go source (go/ssa verification conditions from overlay contracts, discharged by z3/cvc5)",
          "level":"proof","level_note":note})
na=[{"property":i,"reason":NOT_APPLICABLE.get(i,"no check built yet")} for i in ids if i not in CLAIMED]
m={"version":1,"setup_cmd":"bash setup.sh",
 "hooks":{"guard":"none","enable":"no hooks: contracts are added as overlay files (go list -overlay), /repo is not instrumented","source_commits":[]},
 "checks":checks,"not_applicable":na,
 "notes":"goverif (in /verif/goverif) generates and discharges the obligations; contracts are in /verif/contracts."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
