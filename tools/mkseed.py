#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<< JSON {old,new,needs,breaks} ; demo body read from demo.rs argument"""
import sys,json,os,subprocess,shutil
def mk(id,prop,edits,needs,breaks,demo):
    V="/verif"; d=f"{V}/seeded/{id}"; os.makedirs(d,exist_ok=True)
    w=f"/tmp/mk-{id}"; shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm b",shell=True)
    for f,old,new in edits:
        p=f"{w}/{f}"; s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        open(p,"w").write(s.replace(old,new))
    open(d+"/patch.diff","w").write(subprocess.check_output(["git","-C",w,"diff"],text=True))
    open(d+"/demo.rs","w").write(demo)
    shutil.copy(V+"/tools/demo.sh",d+"/demo.sh")
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    shutil.rmtree(w)
    r=subprocess.run([V+"/tools/seedtest.sh",id])
    if r.returncode: print("NOT KEPT",id); 
    return r.returncode==0
