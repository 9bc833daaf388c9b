#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl: registered checks are those listed in tools/registered
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg={}
for l in open(V+'/tools/registered'):
    l=l.rstrip('\n')
    if l.strip():
        i,lvl,note=l.split('|',2); reg[i]=(lvl,note)
na={}
for l in open(V+'/tools/not_applicable'):
    if l.strip():
        i,r=l.rstrip('\n').split('|',1); na[i]=r
checks=[];nal=[]
for l in open(V+'/properties.jsonl'):
    p=json.loads(l)['id']
    if p in reg:
        checks.append({"property":p,"quick_cmd":f"./check {p} quick","thorough_cmd":f"./check {p} thorough","evidence_file":f"evidence/{p}.json",
          "technique":"contract-based deductive verification: Verus discharges the contracts of the functions extracted from /repo/src on every run; bounded replay harness on the real crate",
          "level":reg[p][0],"level_note":reg[p][1]})
    else:
        nal.append({"property":p,"reason":na.get(p,"check not built yet")})
json.dump({"version":1,"setup_cmd":"true","checks":checks,"not_applicable":nal},open(V+'/MANIFEST.json','w'),indent=1)
