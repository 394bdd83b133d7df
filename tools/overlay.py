#!/usr/bin/env python3
"""overlay.py OUT.json : map every file under /verif/h into the virtual directory internal/zzverif of /repo
(and /verif/h/_inpkg/<path>/x.go onto /repo/<path>/x.go)."""
import json,os,sys
root=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"h")
repo=os.environ.get("REPO","/repo")
rep={}
for d,_,fs in os.walk(root):
    for f in fs:
        if not f.endswith(".go"):continue
        full=os.path.join(d,f);rel=os.path.relpath(full,root)
        if rel.startswith("_inpkg/"):rep[os.path.join(repo,rel[len("_inpkg/"):])]=full
        elif rel.startswith("driver/"):rep[os.path.join(repo,"ginkgo/zzdriver",rel[len("driver/"):])]=full # may import ginkgo/internal too
        else:rep[os.path.join(repo,"internal/zzverif",rel)]=full
json.dump({"Replace":rep},open(sys.argv[1],"w"),indent=1)
