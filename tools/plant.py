#!/usr/bin/env python3
"""Development helper for planted bugs (never used by a check).
plant.py new FILE.py    FILE defines PROP, ID, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (C++), FLAGS(optional)
                        -> /verif/seeded/ID, confirmed: builds, tests pass, demo 0 unchanged / nonzero patched
plant.py run ID [CHECK...]  applies the patch to /repo, runs the checks, undoes it"""
import sys, os, json, subprocess, runpy, re
CT=os.path.join(os.path.dirname(os.path.abspath(__file__)),"catches.json")
def note(i,c,hit,_):
    d=json.load(open(CT)) if os.path.exists(CT) else {}
    d.setdefault(i,{})[c]="caught" if hit else "missed"; json.dump(d,open(CT,"w"),indent=1,sort_keys=True)
R="/repo"; S="/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean():
    sh("git -C /repo checkout -- .")
def dirty(): return sh("git -C /repo status --porcelain").stdout.strip()
DEMO='''#!/bin/bash
# run with cwd = the TooN source tree
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -w -O1 -I"$PWD" -DTOON_USE_LAPACK %s "$D/demo.cc" -o "$T/demo" -llapack -lblas -lpthread || exit 2
cd "$T" && timeout 120 ./demo
'''
def stable(): 
    r=sh("bash /tmp/fixtest.sh"); return "missing set()" in r.stdout, r.stdout[-300:]
def new(f):
    m=runpy.run_path(f); d=os.path.join(S,m["ID"])
    if dirty(): sys.exit("repo dirty")
    os.makedirs(d,exist_ok=True)
    try:
        for fn,old,newt in m["EDITS"]:
            p=os.path.join(R,"TooN",fn); t=open(p).read()
            if t.count(old)!=1: sys.exit("%s: %d matches of %r"%(fn,t.count(old),old))
            open(p,"w").write(t.replace(old,newt))
        open(d+"/patch.diff","w").write(sh("git -C /repo diff").stdout)
        open(d+"/demo.cc","w").write(m["DEMO"]); open(d+"/demo.sh","w").write(m["SH"] if "SH" in m else DEMO%m.get("FLAGS",""));
        for k,v in m.get("FILES",{}).items(): open(d+"/"+k,"w").write(v)
        os.chmod(d+"/demo.sh",0o755)
        json.dump({"property":m["PROP"],"needs":m["NEEDS"],"what_it_breaks":m["BREAKS"]},open(d+"/meta.json","w"),indent=1)
        # lines removed must be original
        for l in open(d+"/patch.diff"):
            if l.startswith("-") and not l.startswith("---") and l.strip("-\n\t ") :
                fn=m["EDITS"][0][0]
        ok,out=stable()
        pd=sh("bash %s/demo.sh"%d,cwd=R)
        print(m["ID"],"tests",ok,out if not ok else "","demo patched rc",pd.returncode,pd.stdout[-200:].strip(),pd.stderr[-300:] if pd.returncode==2 else "")
    finally: clean()
    b=sh("bash %s/demo.sh"%d,cwd=R); print("   demo unchanged rc",b.returncode,b.stdout[-200:].strip(),b.stderr[-300:])
    # blame check
    base=sh("git -C /repo log --format=%H --reverse").stdout.split()[0]
    for fn,old,_ in m["EDITS"]:
        orig=sh("git -C /repo show %s:TooN/%s"%(base,fn)).stdout
        for l in old.split("\n"):
            if l.strip() and l not in orig: print("   NOTE line not in the original:",l)
    good=ok and b.returncode==0 and pd.returncode not in (0,2)
    print("   ->","KEEP" if good else "REJECT")
    if not good and "-k" not in sys.argv: sh("rm -rf "+d)
    return good
def run(i,checks):
    if dirty(): sys.exit("repo dirty")
    m=json.load(open(os.path.join(S,i,"meta.json")))
    r=sh("git -C /repo apply %s/%s/patch.diff"%(S,i))
    if r.returncode: sys.exit(r.stderr)
    try:
        for c in checks or [m["property"]]:
            r=sh("timeout 900 python3 /verif/run.py %s quick"%c)
            v=[l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            note(i,c,r.returncode==1 and bool(v),re.findall(r"\[?([A-Za-z0-9_]+/[A-Za-z0-9_/]+)",(r.stdout.split("\n")[0] if v else ""))[:1])
            print(i,c,"rc",r.returncode,"CAUGHT" if r.returncode==1 and v else "MISSED",(v[:1] or [r.stdout[-200:]])[0][:200]," | ",(r.stdout.split("\n")[0] if v else "")[:250])
    finally: clean()
if sys.argv[1]=="new":
    for f in sys.argv[2:]:
        if f.startswith("-"): continue
        if new(f):
            run(runpy.run_path(f)["ID"],[])
elif sys.argv[1]=="run": run(sys.argv[2],sys.argv[3:])
elif sys.argv[1]=="all":
    for i in sorted(os.listdir(S)): run(i,[])
