#!/usr/bin/env python3
"""Development aid for planted bugs. A spec file (python) calls bug(id, prop, needs, breaks, [(file, old, new)...], demo, files={}).
   bug.py make SPEC [ids]   writes seeded/<id>/{patch.diff,demo.sh,meta.json}, confirms: applies, builds, stable tests pass, demo 0 before / nonzero after
   bug.py try  ID [PROPS]   applies seeded/<id>/patch.diff to /repo, runs the checks of the property (or PROPS), undoes it
"""
import json, os, subprocess, sys
V=os.environ.get("BUG_VERIF","/verif"); R=os.environ.get("BUG_REPO","/repo"); B=os.environ.get("BUG_TOOLS","/opt/vp")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
BASE=json.load(open(B+"/BASELINE.json"))
def stable():
    for k in ("stable","tests","passing","stable_tests"):
        if k in BASE: return set(BASE[k])
    raise SystemExit(list(BASE))
def clean(): sh("git -C %s checkout -- . && bash %s/build.sh"%(R,B))
def demo(d): r=sh("bash %s/demo.sh"%d, cwd=R, timeout=300); return r.returncode, r.stdout.decode(errors="replace")[-400:]
specs=[]
def bug(id, prop, needs, breaks, edits, demo, files={}): specs.append((id,prop,needs,breaks,edits,demo,files))
def make(spec, only):
    exec(open(spec).read(), {"bug":bug,"SPECFILE":spec})
    for id,prop,needs,breaks,edits,dm,files in specs:
        if only and id not in only: continue
        d="%s/seeded/%s"%(V,id); os.makedirs(d,exist_ok=True)
        ok=True
        for f,o,n in edits:
            p=R+"/"+f; s=open(p).read()
            if s.count(o)!=1: print(id,"edit matches",s.count(o),"times:",o[:60]); ok=False; break
            open(p,"w").write(s.replace(o,n))
        if not ok: clean(); continue
        open(d+"/patch.diff","wb").write(sh("git -C %s diff"%R).stdout)
        open(d+"/demo.sh","w").write(dm); 
        for k,v in files.items(): open(d+"/"+k,"w").write(v)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
        b=sh("bash "+B+"/build.sh")
        if b.returncode: print(id,"DOES NOT BUILD",b.stdout.decode()[-500:]); clean(); continue
        sh("bash "+B+"/test.sh /tmp/bug.json"); t=json.load(open("/tmp/bug.json"))
        passed=set(t.get("passed",[])) if isinstance(t,dict) else set()
        miss=sorted(stable()-passed)
        a=demo(d); new=fresh(d); clean(); z=demo(d)
        if new: print(id,"CHANGES LINES OF FIX COMMITS:",new)
        print(id,"tests missing",miss[:5],"demo with",a[0],"without",z[0],"" if a[0] and not z[0] and not miss else "  <<<<< NOT VALID "+repr(a)+repr(z))
def fresh(d):
    """lines that the patch removes which are not the original repository's"""
    import re
    out=[]; f=None
    for l in open(d+"/patch.diff",errors="replace"):
        if l.startswith("--- a/"): f=l[6:].strip()
        m=re.match(r"@@ -(\d+)",l)
        if m: n=int(m.group(1)); continue
        if l.startswith(("---","+++","diff","index")): continue
        if l.startswith("+"): continue
        if l.startswith("-"):
            b=sh("git -C %s blame -s -L%d,%d HEAD -- %s"%(R,n,n,f)).stdout.decode()
            if not b.startswith(("^","2ad85b1")): out.append(l.strip())
        n+=1
    return out
def trial(id, props):
    d="%s/seeded/%s"%(V,id); m=json.load(open(d+"/meta.json")); props=props or [m["property"]]
    if sh("git -C %s status --porcelain -uno"%R).stdout.strip(): raise SystemExit("/repo is not clean")
    r=sh("git -C %s apply %s/patch.diff"%(R,d))
    if r.returncode: print(id,"does not apply"); return
    try:
        for p in props:
            r=sh("VERIF_REPO=%s python3 %s/tools/check.py %s"%(R,V,p)); o=r.stdout.decode(errors="replace")
            v=[l for l in o.split("\n") if l.startswith(("VIOLATION","   case","   failure"))][:3]
            print(id,p,"rc",r.returncode,"CAUGHT" if r.returncode==1 else "MISSED"); print("\n".join(x[:200] for x in v))
    finally: sh("git -C %s checkout -- ."%R)
if sys.argv[1]=="make": make(sys.argv[2],sys.argv[3:])
elif sys.argv[1]=="try": trial(sys.argv[2],sys.argv[3:])
elif sys.argv[1]=="all":
    for i in sorted(os.listdir(V+"/seeded")): trial(i,[])
