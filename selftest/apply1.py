#!/usr/bin/env python3
"""apply1.py NAME DIR: a copy of /repo with one edit applied."""
import sys, os, shutil, glob, importlib.util
H=os.path.dirname(os.path.abspath(__file__))
for f in glob.glob(H+"/edits_*.py"):
    s=importlib.util.spec_from_file_location("e",f); m=importlib.util.module_from_spec(s); s.loader.exec_module(m)
    for e in m.EDITS:
        if e["name"]==sys.argv[1]:
            d=sys.argv[2]
            if os.path.exists(d): shutil.rmtree(d)
            shutil.copytree("/repo",d,ignore=shutil.ignore_patterns(".git"))
            for p,o,n in e["edits"]:
                p=os.path.join(d,p); t=open(p).read(); assert o in t,o
                open(p,"w").write(t.replace(o,n) if e.get("all") else t.replace(o,n,1))
