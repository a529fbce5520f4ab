#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claimed checks from the table, everything else not_applicable."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
ids=[json.loads(l)["id"] for l in open(os.path.join(here,"..","properties.jsonl"))]
CLAIMED={}   # id -> (crate, technique, level_note)
NA={}        # id -> reason
exec(open(os.path.join(here,"manifest_table.py")).read())
checks=[]
for i in ids:
    if i not in CLAIMED: continue
    crate,tech,note=CLAIMED[i]
    checks.append(dict(property=i,quick_cmd=f"bash /verif/run.sh {crate} {i}",thorough_cmd=f"VERIF_TIER=thorough bash /verif/run.sh {crate} {i}",technique=tech,level="model_checking",level_note=" ".join(note.split())))
na=[dict(property=i,reason=NA.get(i,"no check registered yet (work in progress)")) for i in ids if i not in CLAIMED]
m=dict(version=1,setup_cmd="bash /verif/setup.sh",checks=checks,not_applicable=na,
 notes="All checks are exhaustive explorations of the real code of /repo (see DESIGN.md). No hooks in /repo are needed: private state is reached through public storage and the harness' own FRAME runtime.")
open(os.path.join(here,"..","MANIFEST.json"),"w").write(json.dumps(m,indent=1)+"\n")
print(len(checks),"claimed",len(na),"not")
