#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the file stays uniform)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=list(observe),hook_needed=hook)))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties_src.py")).read())
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
