#!/usr/bin/env python3
# Writes MANIFEST.json: one check per property the checker knows, the reason
# for every property it does not.
import json,subprocess,os
here=os.path.dirname(os.path.abspath(__file__))
ids=subprocess.run([here+'/bin/checker','-list'],capture_output=True,text=True,check=True).stdout.split()
info=json.load(open(here+'/checks.json'))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in ids and i in info['checks']:
        c=info['checks'][i]
        checks.append({'property':i,'quick_cmd':'bash check.sh '+i,'thorough_cmd':'bash check.sh '+i,
          'technique':c['technique'],'level':'other','level_note':c['note']})
    else:
        na.append({'property':i,'reason':info['not_applicable'].get(i,'not yet decided: no check has been built so far')})
m={'version':1,'setup_cmd':'bash setup.sh','checks':checks,'not_applicable':na,
   'notes':info['notes']}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(na),'not applicable')
