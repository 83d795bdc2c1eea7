#!/usr/bin/env python3
# writes MANIFEST.json from tools/claims.json (claimed checks) and properties.jsonl
import json,os
v=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims=json.load(open(v+'/tools/claims.json'))
props=[json.loads(l) for l in open(v+'/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claims:
        c=claims[i]
        checks.append({"property":i,"quick_cmd":"bash run.sh %s quick"%i,"thorough_cmd":"bash run.sh %s thorough"%i,
          "evidence_file":"evidence/%s.json"%i,"technique":c["technique"],"level":c["level"],"level_note":c["note"]})
    else:
        na.append({"property":i,"reason":claims.get("_na",{}).get(i,"check not built yet")})
m={"version":1,"setup_cmd":"bash setup.sh","hooks":{"guard":"verif","enable":"no hooks are committed to /repo: harness packages and source-instrumented copies are injected with go build -overlay at build time","source_commits":[]},
 "checks":checks,"not_applicable":na,
 "notes":"Each check enumerates a bounded space exhaustively and drives the real code compiled from /repo's working tree; see DESIGN.md."}
json.dump(m,open(v+'/MANIFEST.json','w'),indent=1); open(v+'/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',len(na),'not')
