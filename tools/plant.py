#!/usr/bin/env python3
"""plant.py mk NAME PROP FILE [--n K] : reads OLD ===> NEW from stdin (count occurrences must be K or 1), writes seeded/NAME/patch.diff
   plant.py try NAME... : apply in /repo, build, stable tests, demo, check; undo.
"""
import sys, os, subprocess as sp, json, re
V="/verif"; R=os.environ.get("PLANT_REPO","/repo")
def sh(c, **k): return sp.run(c, shell=True, capture_output=True, text=True, **k)
def undo():
    sh(f"git -C {R} checkout -- .")
def mk(name, prop, file, needs, breaks, edits):
    d=f"{V}/seeded/{name}"; os.makedirs(d, exist_ok=True)
    for f,old,new,n in edits:
        p=f"{R}/{f}"; t=open(p, encoding="latin-1").read()
        if t.count(old)!=n: undo(); raise SystemExit(f"{name}: {t.count(old)} occurrences, wanted {n}: {old!r}")
        open(p,"w",encoding="latin-1").write(t.replace(old,new))
    o=sh(f"git -C {R} diff --no-color"); open(f"{d}/patch.diff","w",encoding="latin-1").write(sp.run(f"git -C {R} diff --no-color",shell=True,capture_output=True).stdout.decode("latin-1"))
    undo()
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f"{d}/meta.json","w"),indent=1)
def stable():
    b=json.load(open("/opt/vp/BASELINE.json")); sh("bash /opt/vp/test.sh /tmp/plant_out.json")
    o=json.load(open("/tmp/plant_out.json"))
    return b,o
def demo(name):
    sh("rm -rf /tmp/plant_demo; mkdir /tmp/plant_demo"); sh(f"cp -r {V}/seeded/{name}/. /tmp/plant_demo; rm -f /tmp/plant_demo/patch.diff /tmp/plant_demo/meta.json")
    r=sh("timeout 300 bash /tmp/plant_demo/demo.sh",cwd=R); return r.returncode,(r.stdout+r.stderr)[-600:]
def tryit(name, check=True):
    d=f"{V}/seeded/{name}"; prop=json.load(open(f"{d}/meta.json"))["property"]
    if sh("git -C /repo status --porcelain").stdout.strip(): raise SystemExit("repo dirty")
    rc,o=demo(name); msg=[f"clean demo rc={rc}" + ("" if rc==0 else " BAD "+o)]
    a=sh(f"git -C /repo apply {d}/patch.diff")
    try:
        if a.returncode: msg.append("APPLY FAILS "+a.stderr); return
        b=sh("bash /opt/vp/build.sh"); msg.append(f"build rc={b.returncode}"+("" if b.returncode==0 else (b.stdout+b.stderr)[-800:]))
        base,out=stable()
        msg.append("tests "+("ok" if all_ok(base,out) else "FAIL"))
        rc,o=demo(name); msg.append(f"patched demo rc={rc}"+("" if rc else " BAD not failing")+" "+o.strip().splitlines()[-1][:120] if o.strip() else f"patched demo rc={rc}")
        if check:
            m=[c for c in json.load(open(f"{V}/MANIFEST.json"))["checks"] if c["property"]==prop]
            if m:
                c=sh(f"timeout 880 {m[0]['quick_cmd']}",cwd=V,env=dict(os.environ,VERIF_SEED="1",VERIF_TIER="quick"))
                v=[l for l in c.stdout.splitlines() if "VIOLATION" in l]
                msg.append(f"check rc={c.returncode} {v[:3]}")
            else: msg.append("no check")
    finally:
        undo(); sh("bash /opt/vp/build.sh")
        print(name,"|"," | ".join(msg),flush=True)
def all_ok(base,out):
    want=base.get("stable") or base.get("passed") or base
    s=json.dumps(out)
    passed=set(out.get("passed",out if isinstance(out,list) else []))
    if isinstance(out.get("passed"),list): return set(want)<=passed
    return s
if __name__=="__main__" and sys.argv[1]=="try":
    for n in sys.argv[2:]: tryit(n)
