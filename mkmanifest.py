#!/usr/bin/env python3
# Writes MANIFEST.json from checks.json and properties.jsonl.
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
c=json.load(open('/verif/checks.json'))
m={"version":1,"setup_cmd":"bash run.sh build","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in c:
        m["checks"].append({"property":i,"quick_cmd":f"bash run.sh {i} quick","thorough_cmd":f"bash run.sh {i} thorough",
          "technique":c[i]["technique"],"level":"other","level_note":c[i]["note"]})
    else:
        m["not_applicable"].append({"property":i,"reason":c.get("na",{}).get(i,"no check built yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write("\n")
