#!/usr/bin/env python3
"""Prints, for each planted bug, the checks that report it.  SA: the analyzer's binary."""
import os, sys, json, glob, subprocess, tempfile, shutil, concurrent.futures as cf
SA = os.environ.get("SA", "/tmp/w/sa")
def one(d):
    t = tempfile.mkdtemp(prefix="st_", dir="/tmp")
    try:
        r = t + "/repo"
        if d:
            shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
            subprocess.run(["git", "apply", d + "/patch.diff"], cwd=r, check=True)
        else:
            r = "/repo"
        o = subprocess.run([SA, "check", "all"], env=dict(os.environ, SA_REPO=r, SA_VERIF=t), capture_output=True, text=True)
        res, cur = {}, None
        for l in o.stdout.splitlines():
            if l[:1] == "C":
                cur = l.split()[0] if "VIOLATIONS" in l else None
                if cur: res[cur] = []
            elif cur:
                res[cur].append(l.split("[")[-1])
        return d, res
    finally:
        shutil.rmtree(t)
base = one("")[1]
with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for d, res in ex.map(one, sorted(glob.glob("/verif/seeded/*"))):
        m = json.load(open(d + "/meta.json"))
        by = [k for k, v in res.items() if set(v) - set(base.get(k, []))]
        by.sort(key=lambda k: (k != m["property"], k))
        print("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"], " ".join(by)), flush=True)
