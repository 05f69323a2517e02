#!/usr/bin/env python3
"""plant.py DIR: confirms a planted bug described by DIR/edit.py (list `EDITS` of
(file, old, new), `META` dict, `DEMO` rust source) in a scratch copy and stores it under
/verif/seeded/<id>. plant.py --check ID: applies it to /repo, runs the property's check, undoes it."""
import sys, os, subprocess, json, shutil, re
V="/verif"; C="/tmp/plantcopy"
def run(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
def tests(d):
    e=dict(os.environ,CARGO_TARGET_DIR="/tmp/plant_target",CARGO_NET_OFFLINE="true",PROPTEST_RNG_SEED="1",PROPTEST_DISABLE_FAILURE_PERSISTENCE="true",INSTA_UPDATE="no")
    r=run("touch src/lib.rs; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8",cwd=d,env=e)
    out=r.stdout+r.stderr
    m=re.findall(r"test result: (\w+)\. (\d+) passed; (\d+) failed",out)
    return r.returncode,m,out
def copy():
    shutil.rmtree(C,ignore_errors=True); os.makedirs(C)
    run(f"cd /repo && git archive HEAD | tar x -C {C} && cd {C} && git init -q && git add -A -f && git -c user.name=x -c user.email=x commit -qm b")
def check(i,prop=None,tier="quick"):
    m=json.load(open(f"{V}/seeded/{i}/meta.json")); p=prop or m["property"]
    r=run(f"git -C /repo apply {V}/seeded/{i}/patch.diff")
    if r.returncode: print(i,"patch does not apply",r.stderr); return
    try:
        r=run(f"python3 {V}/check.py --prop {p} --tier {tier}",cwd=V)
    finally:
        run("git -C /repo checkout -- .")
    l=[x for x in r.stdout.splitlines()]
    print(i,p,"rc",r.returncode, l[-1][:200] if l else r.stderr[-300:])
    for x in l[:-1]: print("     ",x[:180])
    sys.stdout.flush()
if sys.argv[1]=="--check":
    ids=sys.argv[2:] or sorted(os.listdir(V+"/seeded"))
    for i in ids: check(i)
    sys.exit()
if sys.argv[1]=="--recheck":  # confirm again every stored bug against the current HEAD
    for i in sys.argv[2:] or sorted(os.listdir(V+"/seeded")):
        copy(); r=run(f"git apply {V}/seeded/{i}/patch.diff",cwd=C)
        print(i,"applies" if r.returncode==0 else r.stderr)
    sys.exit()
for d in sys.argv[1:]:
    ns={}; exec(open(os.path.join(d,"edit.py") if os.path.isdir(d) else d).read(),ns)
    i=ns["META"]["id"]; copy()
    for f,o,n in ns["EDITS"]:
        s=open(f"{C}/{f}").read(); assert s.count(o)==1,(f,o,s.count(o)); open(f"{C}/{f}","w").write(s.replace(o,n))
    rc,m,out=tests(C)
    if rc: print(i,"TESTS FAIL",m,[x for x in out.splitlines() if 'FAILED' in x or x.startswith('error')][:6], out[-800:] if not m else ""); continue
    S=f"{V}/seeded/{i}"; os.makedirs(S,exist_ok=True)
    open(S+"/patch.diff","w").write(run("git diff",cwd=C).stdout)
    shutil.copy(V+"/tools/demo.sh",S+"/demo.sh"); os.chmod(S+"/demo.sh",0o755)
    open(S+"/main.rs","w").write(ns["DEMO"])
    json.dump({k:ns["META"][k] for k in("property","needs","what_it_breaks")},open(S+"/meta.json","w"),indent=1)
    a=run(f"bash {S}/demo.sh",cwd="/repo"); b=run(f"bash {S}/demo.sh",cwd=C)
    ok=a.returncode==0 and b.returncode not in(0,4)
    print(i,"OK" if ok else "BAD","tests",m,"demo",a.returncode,b.returncode, (a.stderr[-400:] if a.returncode else ""), b.stderr[-200:])
    if not ok: shutil.rmtree(S)
