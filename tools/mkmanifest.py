import json, os
from jsonschema import validate
H="/verif"
T=json.load(open(H+"/targets.json"))
props=[json.loads(l)["id"] for l in open(H+"/properties.jsonl")]
claimed={p for t in T for p in t["properties"]}
SEQ="stateless exhaustive exploration of all operation sequences up to a depth, run on the real code against a reference model"
CONC="stateless model checking of the real code: all interleavings and stale reads up to a deviation bound under a controlled scheduler"
CONF="exhaustive enumeration of configurations and histories run on the real code against a reference model"
TECH={}
for p in props: TECH[p]=SEQ
for p in ["C11","C13","C14","C15","C16","C22"]: TECH[p]=CONC
TECH["C09"]=SEQ+"; "+CONC
TECH["C12"]=CONF+"; "+CONC
TECH["C05"]=CONF
TECH["C21"]=CONF
for p in ["C04","C08"]: TECH[p]=SEQ+", with every placement of injected constructor failures within a bound"
NOTE=json.load(open(H+"/tools/level_notes.json"))
m={"version":1,"setup_cmd":"true","hooks":{"guard":"CO_ECS_VERIF","enable":"No hooks were needed: the harnesses include /repo/include unmodified and intercept at the compiler and library interface.","source_commits":[]},
"checks":[],"not_applicable":[]}
for p in props:
    if p in claimed:
        m["checks"].append({"property":p,"quick_cmd":f"python3 check.py {p} --tier quick","thorough_cmd":f"python3 check.py {p} --tier thorough","evidence_file":f"evidence/{p}.json","technique":TECH[p],"level":"model_checking","level_note":NOTE.get(p,NOTE["seq"] if TECH[p].startswith("stateless exhaustive") or TECH[p]==CONF else NOTE["conc"])})
    else:
        m["not_applicable"].append({"property":p,"reason":"no check yet"})
m["notes"]="Every check compiles its harness from /repo's working tree. See DESIGN.md."
json.dump(m,open(H+"/MANIFEST.json","w"),indent=1)
validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]),"checks")
