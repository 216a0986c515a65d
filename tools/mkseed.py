#!/usr/bin/env python3
"""mkseed.py ID SPEC.py : writes seeded/ID/{patch.diff,meta.json}; SPEC has
edits=[(file,old,new)...], prop, needs, breaks. demo.sh and other files are written by hand."""
import sys, subprocess, json, os, shutil, tempfile
def mk(id, prop, edits, needs, breaks):
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='seed')
    subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',w+'/r','HEAD'])
    try:
        for f,a,b in edits:
            p=w+'/r/'+f; s=open(p).read()
            assert s.count(a)==1,(id,f,s.count(a),a)
            open(p,'w').write(s.replace(a,b))
        subprocess.check_call(['gofmt','-l','-e']+[w+'/r/'+f for f,_,_ in edits],stdout=subprocess.DEVNULL)
        o=subprocess.check_output(['git','-C',w+'/r','diff'])
        open(d+'/patch.diff','wb').write(o)
    finally:
        subprocess.check_call(['git','-C','/repo','worktree','remove','--force',w+'/r']); os.rmdir(w)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
