#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the list of claimed properties."""
import json
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
T={}
exec(open("/verif/tools/techniques.py").read())
checks=[];na=[]
for i in ids:
    if i in T:
        tech,level,note=T[i]
        checks.append(dict(property=i,quick_cmd="./check %s --tier quick"%i,thorough_cmd="./check %s --tier thorough"%i,evidence_file="evidence/%s.json"%i,technique=tech,level=level,level_note=note))
    else: na.append(dict(property=i,reason="no check built yet"))
m=dict(version=1,setup_cmd="./check --setup",checks=checks,not_applicable=na,notes="All checks are sub-commands of one harness (/verif/harness) that links /repo's library and also drives /repo's command-line program; ./check rebuilds both from /repo's working tree.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
print(len(checks),"claimed",len(na),"not")
