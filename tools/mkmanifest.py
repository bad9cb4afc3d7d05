import json,sys,subprocess
sys.path.insert(0,'/verif')
import checks
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
C=[]
for p in props:
    if p in checks.CHECKS:
        c=checks.CHECKS[p]
        C.append({"property":p,"quick_cmd":f"python3 /verif/check.py {p} quick","thorough_cmd":f"python3 /verif/check.py {p} thorough",
          "technique":c.get("technique","TLA+ specification checked with TLC; model-generated scenarios replayed in the code, recorded behaviours decided by the byte-level TLA+ trace specification"),
          "level":"model_checking","level_note":c.get("note","exhaustive on the bounded design model; conformance of the code on every replayed behaviour, inputs drawn from VERIF_SEED and boundary classes")})
na=[{"property":p,"reason":checks.NA.get(p,"check not built yet")} for p in props if p not in checks.CHECKS]
json.dump({"version":1,"setup_cmd":"python3 /verif/check.py --setup","hooks":{"guard":"none","enable":"none: harnesses are added with go build -overlay","source_commits":[]},"checks":C,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
print(len(C),len(na))
