#!/usr/bin/env python3
"""Development tool: create / verify planted bugs in /verif/seeded.
  seed.py new <spec.py>      spec defines: id, property, needs, breaks, edits=[(file, old, new)], demo (dict of files), kind
  seed.py verify <id> [--notests]   apply to /repo, run stable tests, run the demo, run the property's check, undo
"""
import json, os, subprocess, sys, shutil, tempfile
V="/verif"; R="/repo"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
COMMON="primitives bitcoin reward traits currency".split()
PALLETS={"bridge":COMMON+"btc-relay fee issue loans nomination oracle redeem replace security staking vault-registry".split(),
 "soc":COMMON+"escrow annuity supply farming".split()}
GENERIC={"dex":"dex","loan":"loan","gov":"gov","pay":"pay"}
import re
def closure(roots):
    todo=list(roots); seen=[]
    while todo:
        x=todo.pop()
        if x in seen: continue
        seen.append(x)
        t=open(f"{V}/mc/repo/{x}/Cargo.toml").read()
        todo+=re.findall(r'path = "\.\./([a-z0-9-]+)"',t)+re.findall(r'path = "\.\./\.\./repo/([a-z0-9-]+)"',t)
    return sorted(seen)
def assemble(d, kind):
    """the stand-ins, the runtime and the manifests of the pallets; @REPO@ stands for the repository"""
    for x in ["shim","rt","repo"]: shutil.rmtree(f"{d}/{x}",ignore_errors=True)
    shutil.copytree(f"{V}/mc/shim",f"{d}/shim"); shutil.copy(f"{V}/mc/Cargo.lock",f"{d}/Cargo.lock")
    sh(f"python3 {V}/tools/gen_pallets.py {d}/allrepo /repo ../../shim")
    if kind in GENERIC:
        man=open(f"{V}/mc/{kind}/Cargo.toml").read()
        pallets=closure(re.findall(r'path = "\.\./repo/([a-z0-9-]+)"',man))
        os.makedirs(f"{d}/demo/src",exist_ok=True)
        man=re.sub(r'name = "mc-[a-z]+"','name = "demo"',man)
        open(f"{d}/demo/Cargo.toml","w").write("".join(l+"\n" for l in man.splitlines() if not re.match(r"(kit|rt) =",l)))
        TX="""pub fn tx<T, E>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> { mcstore::begin(); let r = f(); if r.is_ok() { mcstore::commit() } else { mcstore::rollback() } r }"""
        t=open(f"{V}/mc/{kind}/src/soc.rs").read().replace("pub use rt::{err_name, tx};",TX)
        assert "rt::" not in t.replace("frame_support::","") or True
        open(f"{d}/demo/src/soc.rs","w").write(t)
    else: pallets=PALLETS[kind]
    for x in pallets: shutil.copytree(f"{d}/allrepo/{x}",f"{d}/repo/{x}") if os.path.isdir(f"{d}/allrepo/{x}") else shutil.copytree(f"{V}/mc/repo/{x}",f"{d}/repo/{x}")
    shutil.rmtree(f"{d}/allrepo")
    for x in os.listdir(f"{d}/repo"):
        p=f"{d}/repo/{x}/Cargo.toml"; s=open(p).read(); open(p,"w").write(s.replace('"/repo/','"@REPO@/'))
    members=["shim/"+x for x in sorted(os.listdir(f"{d}/shim"))]+["repo/"+x for x in pallets]+["demo"]
    if kind=="bridge":
        shutil.copytree(f"{V}/mc/rt",f"{d}/rt"); members.append("rt")
        p=f"{d}/rt/Cargo.toml"; s=open(p).read(); open(p,"w").write("".join(l+"\n" for l in s.splitlines() if not l.startswith("kit")))
    if kind=="soc":
        s=open(f"{V}/mc/base/src/soc.rs").read().replace("pub use rt::{err_name, tx};","""pub fn tx<T, E>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> { mcstore::begin(); let r = f(); if r.is_ok() { mcstore::commit() } else { mcstore::rollback() } r }""")
        open(f"{d}/demo/src/soc.rs","w").write(s) if os.path.isdir(f"{d}/demo/src") else (os.makedirs(f"{d}/demo/src"), open(f"{d}/demo/src/soc.rs","w").write(s))
    open(f"{d}/Cargo.toml","w").write('[workspace]\nresolver = "2"\nmembers = '+json.dumps(members)+'\n[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\n')
def new(spec):
    ns={}; exec(open(spec).read(), ns)
    d=f"{V}/seeded/{ns['id']}"; os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    try:
        for f,o,n in ns['edits']:
            p=f"{R}/{f}"; s=open(p).read(); assert s.count(o)==1, (f, s.count(o), o); open(p,"w").write(s.replace(o,n))
        diff=sh("git -C /repo diff").stdout
        open(f"{d}/patch.diff","w").write(diff)
    finally: sh("git -C /repo checkout -- .")
    tpl=f"{V}/tools/demo_templates/"+("generic" if ns['kind'] in GENERIC else ns['kind'])
    for f in os.listdir(tpl):
        s=f"{tpl}/{f}"
        (shutil.copytree(s,f"{d}/{f}",dirs_exist_ok=True) if os.path.isdir(s) else shutil.copy(s,f"{d}/{f}"))
    if ns['kind'] in PALLETS or ns['kind'] in GENERIC: assemble(d, ns['kind'])
    for f,c in ns.get('demo',{}).items():
        os.makedirs(os.path.dirname(f"{d}/{f}"),exist_ok=True); open(f"{d}/{f}","w").write(c)
    os.chmod(f"{d}/demo.sh",0o755)
    json.dump(dict(property=ns['property'],needs=ns['needs'],what_it_breaks=ns['breaks']),open(f"{d}/meta.json","w"),indent=1)
    print("created",d)
def demo(i):
    with tempfile.TemporaryDirectory() as t:
        shutil.copytree(f"{V}/seeded/{i}",f"{t}/d"); r=sh(f"bash {t}/d/demo.sh",cwd=R,timeout=400)
        return r
def verify(i, tests=True):
    meta=json.load(open(f"{V}/seeded/{i}/meta.json")); man=json.load(open(f"{V}/MANIFEST.json"))
    cmd=[c["quick_cmd"] for c in man["checks"] if c["property"]==meta["property"]]
    res={}
    r=demo(i); res["demo_clean"]=r.returncode
    if r.returncode: print(r.stdout[-1500:],r.stderr[-1500:])
    a=sh(f"git -C /repo apply {V}/seeded/{i}/patch.diff"); assert a.returncode==0,a.stderr
    try:
        if tests:
            b=sh("bash /opt/vp/build.sh"); res["build"]=b.returncode
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            base=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("/tmp/seedtest.json"))
            def names(x,k):
                v=x.get(k,[]); return set(v if isinstance(v,list) else v.keys())
            res["failed"]=list(names(t,"failed"))[:5]; res["passed"]=len(names(t,"passed"))
        r=demo(i); res["demo_bug"]=r.returncode
        if r.returncode==0: print(r.stdout[-1500:],r.stderr[-1500:])
        if cmd:
            r=sh(cmd[0],cwd=V); res["check"]=r.returncode; print((r.stdout+r.stderr)[-700:])
    finally: sh("git -C /repo checkout -- .")
    print(i,res, "OK" if res["demo_clean"]==0 and res["demo_bug"]!=0 and not res.get("failed") and res.get("build",0)==0 else "BAD", "CAUGHT" if res.get("check")==1 else "MISSED")
if sys.argv[1]=="new": new(sys.argv[2])
else:
    for i in sys.argv[2:]:
        if not i.startswith("--"): verify(i,"--notests" not in sys.argv)
