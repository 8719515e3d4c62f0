import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for k,v in e['coverage']['jobs'].items(): print(k,v if isinstance(v,str) else ({a:b for a,b in v['paths'].items() if b},v['complete'],v['wall_s']))
print(e['coverage']['reachability_witnesses'],e['coverage']['queries'],e['coverage']['assertions'])
