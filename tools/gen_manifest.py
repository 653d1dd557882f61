#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here=os.path.join(os.path.dirname(__file__),"..")
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
have=[d for d,c in (("M","v1"),("R","ra"),("V","v2"),("S","common")) if os.path.isdir(os.path.join(here,"mc",c))]
T={
 "M":"bounded explicit-state model checking: exhaustive BFS over message/time/NFT sequences, contract code in lock-step with a reference model",
 "R":"bounded explicit-state model checking: exhaustive BFS over message/block/halt sequences, contract code in lock-step with a reference model",
 "V":"bounded explicit-state model checking: exhaustive BFS over message sequences, contract code in lock-step with a reference model",
 "S":"bounded explicit-state model checking: exhaustive BFS over sequences of helper calls and environment changes on the real code, checked against a reference model in every state",
}
N="Exhaustive within the stated alphabets and depths (evidence lists states, transitions, depth per scenario); every transition runs the contract's own entry points and is compared with the reference model. Trusted: the host (storage, bank, NFT collection, fair-burn and registry stand-ins, message dispatch with rollback) and the reference model; assumed: users with enough coins, conforming NFT collections."
checks=[]; na=[]
for p in props:
    k=p["id"][0]
    if k in have:
        checks.append(dict(property=p["id"],quick_cmd=f"./run_check.sh {p['id']} quick",thorough_cmd=f"./run_check.sh {p['id']} thorough",
            technique=T[k],level="model_checking",level_note=N))
    else:
        na.append(dict(property=p["id"],reason="check not built yet"))
m=dict(version=1,setup_cmd="./build.sh",hooks=dict(guard="none",enable="no hooks are needed: the checkers use the contracts' public entry points",source_commits=[]),
  checks=checks,not_applicable=na,notes="Genuine defects repaired or recorded: see known_findings.json and DESIGN.md.")
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
print(len(checks),len(na))
