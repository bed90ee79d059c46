#!/usr/bin/env python3
# Generates MANIFEST.json from the lists below. CLAIMED: property -> level note.
import json
exec(open('/verif/tools/claims.py').read())
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[]; na=[]
for p in props:
    if p in CLAIMED:
        checks.append({"property":p,"quick_cmd":f"tools/check.sh {p} quick","thorough_cmd":f"tools/check.sh {p} thorough",
          "technique":"contract-based deductive verification of the real Go code (SSA to SMT weakest-precondition style, function by function)",
          "level":"proof","level_note":CLAIMED[p]})
    else:
        na.append({"property":p,"reason":NA.get(p,"no contract for this property has been discharged yet; not claimed")})
m={"version":1,"setup_cmd":"tools/setup.sh","checks":checks,"not_applicable":na,
   "notes":"gvc (in /verif/gvc) reads /repo's current source on every run, generates the obligations of the contracts in /verif/contracts and discharges them with z3/cvc5; the replay harness searches the real code for a concrete failing input."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
