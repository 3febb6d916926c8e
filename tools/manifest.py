import json,sys,re
sys.path.insert(0,"/verif/lib")
sys.dont_write_bytecode=True
import checks
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
T=getattr(checks,"TECH",{}); N=getattr(checks,"NOTE",{})
DT="property-based testing (rapidcheck) against a reference model / mathematical oracle, over generated cases of many template instantiations"
DN="No violation in the generated cases, each reproducible from VERIF_SEED; assumes the long double oracle and the stated tolerances, and the instantiations listed in the harness. Never establishes absence."
cs=[]; na=[]
for p in props:
    i=p["id"]
    if i in checks.CHECKS:
        cs.append({"property":i,"quick_cmd":"python3 vrun.py %s"%i,"thorough_cmd":"VERIF_TIER=thorough python3 vrun.py %s"%i,
          "evidence_file":"evidence/%s.json"%i,"technique":T.get(i,DT),"level":"exploration","level_note":N.get(i,DN)})
    else:
        na.append({"property":i,"reason":"Check not built yet."})
m={"version":1,"setup_cmd":"python3 -B -c \"import sys; sys.path.insert(0, 'lib'); import core, checks\"","checks":cs,"not_applicable":na,
 "notes":"Every check compiles its harness from /repo's working tree at run time, in a scratch folder that it removes. No hooks in /repo. Replay: python3 vrun.py --replay FILE."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(cs),len(na))
