"""mkbug(id, prop, edits=[(file, old, new)…], needs, what, demo)"""
import subprocess, os, json, shutil
def mkbug(id, prop, edits, needs, what, demo):
    d=f"/verif/seeded/{id}"; os.makedirs(d,exist_ok=True)
    out=""
    for f in sorted({e[0] for e in edits}):
        t=open(f"/repo/{f}").read(); n=t
        for (g,a,b) in edits:
            if g!=f: continue
            assert n.count(a)==1,(f,a,n.count(a)); n=n.replace(a,b)
        open("/tmp/bt/a","w").write(t); open("/tmp/bt/b","w").write(n)
        p=subprocess.run(["diff","-u","--label","a/"+f,"--label","b/"+f,"/tmp/bt/a","/tmp/bt/b"],capture_output=True,text=True).stdout
        out+=f"diff --git a/{f} b/{f}\n"+p
    open(d+"/patch.diff","w").write(out)
    open(d+"/demo.rs","w").write(demo)
    shutil.copy("/verif/tools/demo/demo.sh",d+"/demo.sh")
    json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(d+"/meta.json","w"),indent=1)
    r=subprocess.run(["git","-C","/repo","apply","--check",d+"/patch.diff"]); assert r.returncode==0
