import json,sys
def add(id,title,stmt,over,text,why,files,mech,obs):
    L=[json.loads(l) for l in open('/verif/properties.jsonl') if l.strip()]
    L=[x for x in L if x['id']!=id]
    L.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
    L.sort(key=lambda x:x['id'])
    open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
