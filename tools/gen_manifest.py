#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and tools/claims.json."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl') if l.strip()]
claims=json.load(open(V+'/tools/claims.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claims['claimed']:
        c=claims['claimed'][i]
        checks.append(dict(property=i,quick_cmd='./check.sh '+i,thorough_cmd='./check.sh %s thorough'%i,
            evidence_file='evidence/%s.json'%i,
            technique=c.get('technique',claims['technique']),level=c.get('level','proof'),level_note=c.get('note',claims['note'])))
    else:
        na.append(dict(property=i,reason=claims['not_applicable'].get(i,'no contract for it is discharged yet in this revision of the machinery')))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na)
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
