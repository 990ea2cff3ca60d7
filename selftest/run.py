#!/usr/bin/env python3
"""Applies small edits to scratch copies of /repo and reports which checks speak up.

Each edits_*.py defines EDITS: a list of dicts
  name, kind ("bug": expected to be reported by `props`, or "same": expected to be quiet),
  props: list of property ids, edits: [(file, old, new), ...]
usage: run.py [-t] [-k substring]     -t also builds and runs the baseline tests of bugs
"""
import sys, os, shutil, subprocess, glob, importlib.util, json, concurrent.futures as cf, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SA = os.environ.get("SA", "/tmp/w/sa")
ENV = dict(os.environ, PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")

def load():
    out = []
    for f in sorted(glob.glob(HERE + "/edits_*.py")):
        spec = importlib.util.spec_from_file_location("e", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.EDITS
    return out

def one(e, tests):
    d = tempfile.mkdtemp(prefix="st_", dir="/tmp/w")
    try:
        r = d + "/repo"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        for f, old, new in e["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) < 1:
                return e, "EDIT DOES NOT APPLY: " + f + ": " + old[:60], {}
            s = s.replace(old, new) if e.get("all") else s.replace(old, new, 1)
            open(p, "w").write(s)
        b = subprocess.run(["go", "build", "./..."], cwd=r, env=ENV, capture_output=True, text=True)
        if b.returncode:
            return e, "DOES NOT BUILD: " + b.stderr[:400], {}
        if tests:
            b = subprocess.run("go test -vet=off -count=1 -parallel 1 $(go list ./... | grep -v internal/query)", shell=True, cwd=r, env=ENV, capture_output=True, text=True)
            if b.returncode:
                return e, "TESTS FAIL: " + b.stdout[-300:], {}
        o = subprocess.run([SA, "check", "all"], env=dict(ENV, SA_REPO=r, SA_VERIF=d), capture_output=True, text=True)
        res, cur = {}, None
        for l in o.stdout.splitlines():
            if l[:1] == "C" and "VIOLATIONS" in l:
                cur = l.split()[0]; res[cur] = []
            elif l[:1] == "C":
                cur = None
            elif cur:
                res[cur].append(l.strip())
        if "C42" not in o.stdout or o.returncode:
            return e, "NO OUTPUT: " + o.stdout + o.stderr[:400], {}
        return e, None, res
    finally:
        shutil.rmtree(d)

def main():
    tests = "-t" in sys.argv
    k = sys.argv[sys.argv.index("-k") + 1] if "-k" in sys.argv else ""
    verbose = "-v" in sys.argv
    es = [e for e in load() if k in e["name"]]
    # findings on the unchanged tree are set aside
    base = one({"name": "base", "kind": "same", "edits": []}, False)[2]
    bad = 0
    with cf.ThreadPoolExecutor(6) as ex:
        for e, err, res in ex.map(lambda e: one(e, tests and e["kind"] == "bug"), es):
            key = lambda l: l.split(': ', 1)[-1]
            res = {p: [l for l in v if key(l) not in map(key, base.get(p, []))] for p, v in res.items()}
            res = {p: v for p, v in res.items() if v}
            if err:
                print("ERR ", e["name"], err); bad += 1; continue
            if e["kind"] == "same":
                if res:
                    bad += 1
                    print("LOUD", e["name"], {p: v[:3] for p, v in res.items()})
                elif verbose:
                    print("ok  ", e["name"])
            else:
                miss = [p for p in e["props"] if p not in res]
                if miss:
                    bad += 1
                    print("MISS", e["name"], "not reported by", miss, "; reported by", sorted(res))
                elif verbose:
                    print("ok  ", e["name"], "reported by", sorted(res), res[e["props"][0]][0] if e["props"] else "")
    print(len(es), "edits,", bad, "problems")

main()
