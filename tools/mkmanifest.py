#!/usr/bin/env python3
# writes /verif/MANIFEST.json from the tables below
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH="contract-based deductive verification of the Go source (gvc: go/ssa verification conditions, SMT)"
CLAIMED={}
def claim(i, note, level="proof", tech=TECH): CLAIMED[i]=(note,level,tech)
NA={}
exec(open(os.path.join(V,"tools","claims.py")).read())
props=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
checks=[];na=[]
for i in props:
    if i in CLAIMED:
        n,l,t=CLAIMED[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":t,"level":l,"level_note":n})
    else:
        na.append({"property":i,"reason":NA.get(i,"contracts for this property are not written yet")})
json.dump({"version":1,"setup_cmd":"./check.sh --build","checks":checks,"not_applicable":na},open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",len(na),"n/a")
