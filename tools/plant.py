import sys,subprocess,os,json
def plant(bid, prop, edits, demo, deps, needs, breaks):
    for f,a,b in edits:
        p='/repo/'+f; s=open(p).read(); assert s.count(a)==1,(bid,f,s.count(a),a); open(p,'w').write(s.replace(a,b))
    d='/verif/seeded/'+bid
    if os.path.exists(d+'/meta.json'): os.remove(d+'/meta.json')
    subprocess.run(['python3','/verif/tools/bug.py','new',bid,prop],check=True)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.rs','w').write(demo)
    open(d+'/deps','w').write('\n'.join(deps)+'\n')
W=lambda c: f'{c} = {{ path = "/opt/vp/ws/{c}" }}'
