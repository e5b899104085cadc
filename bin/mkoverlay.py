#!/usr/bin/env python3
"""mkoverlay.py ROOT REPO ID OUT: writes OUT/overlay.json placing /verif/h/* at REPO/internal/zzverif/*."""
import json,os,shutil,sys
root,repo,cid,out=sys.argv[1:5]
rep={}
h=os.path.join(root,"h")
for d,_,fs in os.walk(h):
    for f in fs:
        if f.endswith(".go"):
            rel=os.path.relpath(os.path.join(d,f),h)
            rep[os.path.join(repo,"internal","zzverif",rel)]=os.path.join(d,f)
inj=os.path.join(root,"inject")
for d,_,fs in os.walk(inj):
    for f in fs:
        if f.endswith(".go"):
            rel=os.path.relpath(os.path.join(d,f),inj)
            rep[os.path.join(repo,rel)]=os.path.join(d,f)
json.dump({"Replace":rep},open(os.path.join(out,"overlay.json"),"w"))
for f in("go.mod","go.sum"): shutil.copy(os.path.join(repo,f),os.path.join(out,f))
# libraries whose file operations are watched: in copies of them, package os becomes zzverifos
lib=os.path.join(root,"h",cid.lower(),"libos.json")
if os.path.exists(lib):
    import re,subprocess
    for mod,subs in json.load(open(lib)).items():
        src=subprocess.check_output(["go","list","-m","-f","{{.Dir}}",mod],cwd=repo,text=True).strip()
        dst=os.path.join(out,"lib",mod)
        shutil.copytree(src,dst,ignore=shutil.ignore_patterns("*_test.go","docs","testutil"))
        subprocess.check_call(["chmod","-R","u+w",dst])
        for sub in subs:
            d=os.path.join(dst,sub)
            for f in sorted(os.listdir(d)):
                if not f.endswith(".go"): continue
                p=os.path.join(d,f); t=open(p).read()
                n=re.sub(r'(?m)^(\s*(?:import )?)"os"(\r?)$',r'\1os "github.com/john-nguyen09/phpintel/zzverifos"\2',t)
                open(p,"w").write(n)
        with open(os.path.join(out,"go.mod"),"a") as g: g.write("\nreplace %s => %s\n"%(mod,dst))
