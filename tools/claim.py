#!/usr/bin/env python3
# claim.py P03 level "technique" "note": adds or replaces a claim and regenerates MANIFEST.json
import json,sys,os,subprocess
f=os.path.dirname(os.path.abspath(__file__))+'/claims.json'
c=json.load(open(f)); p,l,t,n=sys.argv[1:5]
c[p]={"technique":t,"level":l,"note":n}
c=dict(sorted(c.items()))
open(f,'w').write('{\n'+',\n'.join(json.dumps(k)+':'+json.dumps(v,ensure_ascii=False) for k,v in c.items())+'\n}\n')
subprocess.run(['python3',os.path.dirname(f)+'/genmanifest.py'])
