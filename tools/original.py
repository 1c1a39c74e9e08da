"""Which planted bugs change no line of the original repository (base commit)?"""
import subprocess, re, os, sys
BASE="10b4aa6"
def blame(f):
    out=subprocess.run(["git","-C","/repo","blame","-s","--abbrev=7",f"{BASE}..HEAD","--",f],capture_output=True,text=True).stdout
    return [l.startswith("^") for l in out.splitlines()]
for d in sorted(os.listdir("/verif/seeded")):
    p=f"/verif/seeded/{d}/patch.diff"
    f=None;n=0;orig=0;own=0;added=0
    for l in open(p):
        if l.startswith("--- a/"): f=l[6:].strip(); b=blame(f)
        elif l.startswith("@@"): n=int(re.match(r"@@ -(\d+)",l)[1])
        elif l.startswith("+++") or l.startswith("diff") or l.startswith("index"): pass
        elif l.startswith("-"):
            if b[n-1]: orig+=1
            else: own+=1
            n+=1
        elif l.startswith("+"): added+=1
        elif l.startswith(" ") or l=="\n": n+=1
    if not orig: print(d,"orig",orig,"own",own,"added",added)
