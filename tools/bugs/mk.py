import json, os, subprocess, sys, shutil
R="/repo"; OUT="/verif/seeded"
CC="libs/libpcache/src/engine/backends/custom/custom_cache.cpp"; CA="libs/libpcache/src/cache.cpp"; LZ="lazyfs/src/lazyfs.cpp"; MN="lazyfs/src/main.cpp"
IT="libs/libpcache/src/item/item.cpp"; DA="libs/libpcache/src/item/data.cpp"; BI="libs/libpcache/src/item/block_info.cpp"; PG="libs/libpcache/src/engine/page/page.cpp"; BO="libs/libpcache/src/engine/page/block_offsets.cpp"; FA="libs/libpcache/src/faults.cpp"; CF="libs/libpcache/src/config/config.cpp"
B={}
def bug(id,prop,needs,breaks,edits,demo): B[id]=(prop,needs,breaks,edits,demo)
exec(open("/tmp/sb/bugs.py").read())
only=sys.argv[1:]
for id,(prop,needs,breaks,edits,demo) in B.items():
    if only and id not in only: continue
    d=f"{OUT}/{id}"; os.makedirs(d,exist_ok=True)
    saved={}
    try:
        for f,old,new in edits:
            p=f"{R}/{f}"; s=open(p).read(); saved.setdefault(p,s)
            assert s.count(old)==1,(id,f,s.count(old),old)
            open(p,"w").write(s.replace(old,new))
        diff=subprocess.run(["git","-C",R,"diff"],capture_output=True,text=True).stdout
    finally:
        for p,s in saved.items(): open(p,"w").write(s)
    open(f"{d}/patch.diff","w").write(diff)
    shutil.copy("/tmp/sb/lfsdemo.py",f"{d}/lfsdemo.py")
    open(f"{d}/demo.py","w").write("from lfsdemo import *\n\n\n"+demo.strip("\n")+"\n")
    open(f"{d}/demo.sh","w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 python3 "$(dirname "$0")/demo.py"\n'); os.chmod(f"{d}/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f"{d}/meta.json","w"),indent=1)
    print(id,len(diff.splitlines()))
assert not subprocess.run(["git","-C",R,"status","--short","-uno"],capture_output=True,text=True).stdout
