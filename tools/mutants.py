#!/usr/bin/env python3
"""Development tool: mutate statements of /repo (in a copy) and see which checks notice.
mutants.py <workdir> <plan.json> [n per file] [seed]; plan: [{"file": .., "crate": .., "checks": [..]}]
Results are appended to <workdir>/log.jsonl."""
import json, os, random, re, subprocess, sys, shutil, time
W, plan = sys.argv[1], json.load(open(sys.argv[2])); N=int(sys.argv[3]) if len(sys.argv)>3 else 15; rnd=random.Random(int(sys.argv[4]) if len(sys.argv)>4 else 1)
def sh(c, t=900):
    try:
        r=subprocess.run(c,shell=True,text=True,capture_output=True,timeout=t); return r.returncode, r.stdout+r.stderr
    except subprocess.TimeoutExpired: return 124, 'timeout'
os.makedirs(W,exist_ok=True)
if not os.path.exists(f"{W}/repo"):
    sh(f"git clone -q /repo {W}/repo"); shutil.copytree("/verif/mc",f"{W}/mc"); os.makedirs(f"{W}/out"); shutil.copy("/verif/known_findings.json",f"{W}/out/"); os.makedirs(f"{W}/out/evidence",exist_ok=True)
    sh(f"grep -rl '\"/repo/' {W}/mc --include=Cargo.toml | xargs sed -i 's#\"/repo/#\"{W}/repo/#'")
SWAP=[(" <= "," < "),(" < "," <= "),(" >= "," > "),(" > "," >= "),(" == "," != "),(" != "," == "),("checked_add","checked_sub"),("checked_sub","checked_add"),("saturating_sub","saturating_add"),(".min(",".max("),(".max(",".min("),(" && "," || "),(" || "," && "),("Rounding::Up","Rounding::Down"),("Rounding::Down","Rounding::Up"),("increase_","decrease_"),("decrease_","increase_"),("lock_on","unlock_on"),("unlock_on","lock_on"),("true","false"),("false","true"),("checked_mul","checked_div"),("checked_div","checked_mul"),(" + "," - "),(" - "," + ")]
def code_lines(path):
    L=open(path).read().split("\n"); out=[]; skip=False; depth=0; i=0
    while i<len(L):
        l=L[i]; s=l.strip()
        if s.startswith("#[cfg(test)]") or s.startswith("#[cfg(feature = \"runtime-benchmarks\")]") or s.startswith('#[cfg(any(feature = "runtime-benchmarks"') or s.startswith("#[cfg(feature = \"integration-tests\")]"):
            i+=1; d=0; st=False
            while i<len(L):
                d+=L[i].count("{")-L[i].count("}"); st|="{" in L[i]
                if (st and d<=0) or (not st and L[i].strip().endswith(";")): break
                i+=1
        elif s and not s.startswith(("//","#","use ","pub use","mod ","pub mod","type ","impl","pub trait","trait")): out.append(i)
        i+=1
    return L,out
def mutants(path):
    L,ok=code_lines(path); res=[]; infn=set()
    d=0; fn=False
    for i in ok:
        l=L[i]
        for a,b in SWAP:
            for m in re.finditer(re.escape(a),l):
                if a in (" < "," > "," <= "," >= ") and ("fn " in l or "impl" in l): continue
                if "where" in l or ("fn " in l and a in(" + "," - ")) or re.match(r"\s*(T|\w+): ",l): continue
                if a.endswith("lock_on") and a=="lock_on" and l[max(0,m.start()-2):m.start()]=="un": continue
                res.append((i,i,l[:m.start()]+b+l[m.end():],f"{a.strip()} -> {b.strip()}"))
        s=l.strip()
        if re.match(r"(ensure!\(|Self::|ext::|[A-Za-z_<>:.]+\()",s) and not s.startswith(("Self::deposit_event","Some(","Ok(","Err(","deposit_event","pub","fn","let","return","if","match","T::WeightInfo")):
            j=i; d=0
            while j<len(L):
                d+=sum(L[j].count(c) for c in "({[")-sum(L[j].count(c) for c in ")}]")
                if d<=0: break
                j+=1
            e=L[j].rstrip() if j<len(L) else ""
            if e.endswith(";") and j-i<12: res.append((i,j,"","drop statement"))
        m=re.match(r"(\s*)if (!?)(.*) \{$",l)
        if m and " let " not in l: res.append((i,i,f"{m.group(1)}if {'!' if not m.group(2) else ''}({m.group(3)}) {{","negate if"))
    return L,res
todo=[]
for p in plan:
    L,ms=mutants(f"{W}/repo/{p['file']}"); rnd.shuffle(ms); n=p.get("n",N)
    todo+=[(p,m) for m in ms[:n]]
done=set()
if os.path.exists(f"{W}/log.jsonl"): done={(r["file"],r["line"],r["what"],r["new"]) for r in map(json.loads,open(f"{W}/log.jsonl"))}
rnd.shuffle(todo)
print(len(todo),"mutants")
for p,(i,j,new,what) in todo:
    path=f"{W}/repo/{p['file']}"; src=open(path).read(); L=src.split("\n")
    if (p["file"],i+1,what,new.strip()) in done: continue
    old=L[i:j+1]; M=L[:i]+([new] if new else [])+L[j+1:]
    open(path,"w").write("\n".join(M)); t=time.time(); res="MISSED"
    env=f". /verif/mc/env.sh; export CARGO_TARGET_DIR={W}/target VERIF_DIR={W}/out CARGO_BUILD_JOBS=4 MOCKTOPUS=1; cd {W}/mc; "
    try:
        groups={}
        for c in p["checks"]: groups.setdefault(c[0],[]).append(c[1])
        for crate,ids in groups.items():
            rc,o=sh(env+f"taskset -c 0-3 nice cargo build --offline --release -p {crate}",1500)
            if rc: res="NOCOMPILE"; break
            for x in ids:
                rc,o=sh(env+f"ulimit -v 12000000; cd {W}/out; taskset -c 0-3 nice timeout 400 {W}/target/release/{crate} {x}",500)
                if rc==1 and "VIOLATION" in o: res="CAUGHT "+x; break
                if rc!=0: res=f"ODD {x} rc={rc} {o[-300:]}"; break
            if res!="MISSED": break
    finally: open(path,"w").write(src)
    r=dict(file=p["file"],line=i+1,what=what,old="\n".join(old)[:400],new=new.strip(),res=res,secs=round(time.time()-t))
    open(f"{W}/log.jsonl","a").write(json.dumps(r)+"\n"); print(res[:40],r["file"],r["line"],what,r["secs"],flush=True)
