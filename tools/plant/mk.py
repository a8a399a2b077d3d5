#!/usr/bin/env python3
"""mk.py ID file 'old' 'new' [file old new ...] -- builds patch.diff in /verif/seeded/ID"""
import sys, subprocess, os
def mk(id, edits, prop, needs, breaks, main, check=None, helper=True, extra=()):
    R="/tmp/rw"; S="/verif/seeded/"+id
    os.makedirs(S, exist_ok=True)
    subprocess.check_call(["git","-C",R,"checkout","-q","--","."])
    for f,o,n in edits:
        p=os.path.join(R,f); t=open(p).read()
        assert t.count(o)==1,(f,o,t.count(o))
        open(p,"w").write(t.replace(o,n))
    d=subprocess.check_output(["git","-C",R,"diff"]).decode()
    open(S+"/patch.diff","w").write(d)
    subprocess.check_call(["git","-C",R,"checkout","-q","--","."])
    import json,shutil
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(S+"/meta.json","w"),indent=1)
    shutil.copy("/tmp/seed/demo.sh",S+"/demo.sh")
    if "enc.rs" in main: shutil.copy("/tmp/seed/enc.rs",S+"/enc.rs")
    open(S+"/main.rs","w").write(main)
    if check:
        shutil.copy("/tmp/seed/av1.py",S+"/av1.py")
        open(S+"/check.py","w").write("import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport av1\nu = av1.stream(av1.packets(sys.argv[1]))\n"+check)
