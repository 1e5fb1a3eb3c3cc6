#!/usr/bin/env python3
import json,os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(R+"/properties.jsonl")]
NA={}
import sys; sys.path.insert(0,R+"/tools")
from checks import CHECKS as checks
m=dict(version=1,setup_cmd="bash setup.sh",checks=[],not_applicable=[],notes="See DESIGN.md.")
if os.path.exists(R+"/tools/hooks.json"): m["hooks"]=json.load(open(R+"/tools/hooks.json"))
for d in props:
    i=d["id"]
    if i in NA: m["not_applicable"].append(dict(property=i,reason=NA[i]))
    elif i in checks:
        c=checks[i]
        m["checks"].append(dict(property=i,quick_cmd=f"python3 check.py {i}",thorough_cmd=f"python3 check.py {i} --thorough",
          technique=c.get("technique","symbolic execution of LLVM IR with z3 (bounded), native replay of counterexamples"),
          level="model_checking",level_note=c["note"]))
    else: m["not_applicable"].append(dict(property=i,reason="check not built yet"))
json.dump(m,open(R+"/MANIFEST.json","w"),indent=1)
