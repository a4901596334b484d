#!/usr/bin/env python3
import json,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V)
from plan import PLAN, NOT_APPLICABLE
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
m={"version":1,"setup_cmd":"./build.sh","checks":[],"not_applicable":[],
"notes":"Symbolic execution of the library's LLVM bitcode with Z3 (engine/), harnesses in harness/, native replay in replay/; see DESIGN.md. Known findings: known-findings.jsonl."}
for i in ids:
    if i in PLAN:
        p=PLAN[i]
        m["checks"].append({"property":i,"quick_cmd":"./check.py "+i+" --tier quick","thorough_cmd":"./check.py "+i+" --tier thorough",
         "technique":p.get("technique","symbolic execution of the compiled library (LLVM bitcode) with Z3; counterexamples replayed natively"),
         "level":"model_checking",
         "level_note":"Bounded: "+"; ".join(sorted({r["bounds"].replace("p0",str((r["quick"]+[""]*4)[0])).replace("p1",str((r["quick"]+[""]*4)[1])).replace("p2",str((r["quick"]+[""]*4)[2])).replace("p3",str((r["quick"]+[""]*4)[3])) for r in p["runs"] if "quick" in r.get("tiers",("quick",))},key=str))+(". Outside: "+p["outside"] if p.get("outside") else "")+". Trusts the executor, Z3, rustc's bitcode and the file-system model (sampled paths are replayed natively and compared)."})
    else:
        m["not_applicable"].append({"property":i,"reason":NOT_APPLICABLE.get(i,"no check built yet")})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(m["checks"]),"checks",len(m["not_applicable"]),"n/a")
