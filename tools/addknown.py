import json,sys
prop=sys.argv[1]
rules=[a.split('=>',1) for a in sys.argv[2:]]
V=json.load(open('/verif/evidence/%s.violations.json'%prop))['violations']
out=open('/verif/known_findings.jsonl','a')
for v in V:
    for sub,what in rules:
        if sub in v['key']:
            out.write(json.dumps(dict(property=prop,status="known",key=v['key'],what=what+" (%s)"%v['key'].split(': ',1)[1][:160]))+'\n'); break
    else: print('unlisted',v['key'])
