#!/usr/bin/env python3
"""Applies the variants that main.go lists to scratch copies of /repo.

usage: run.py same|bug LIST.jsonl OUT.jsonl [-k substr] [-n count] [-j jobs]
  same: reports the checks that speak up although nothing changed (one line of OUT per alarm)
  bug:  reports the faults that pass the repository's tests and no check reports
Variants that do not compile are dropped.  SA: the analyzer's binary.
"""
import sys, os, shutil, subprocess, json, concurrent.futures as cf, tempfile, random, threading

SA = os.environ.get("SA", "/tmp/w/sa")
ENV = dict(os.environ, PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
TMP = os.environ.get("MUT_TMP", "/tmp/w")

def apply(src, reps):
    b = src
    for r in sorted(reps, key=lambda r: (-r["from"], -r["to"])):
        b = b[:r["from"]] + r["text"].encode() + b[r["to"]:]
    return b

class Copy:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="mut_", dir=TMP)
        self.r = self.d + "/repo"
        shutil.copytree("/repo", self.r, ignore=shutil.ignore_patterns(".git"))
    def with_(self, vs):
        self.files = {v["file"] for v in vs}
        for f in self.files:
            src = open("/repo/" + f, "rb").read()
            reps = [r for v in vs if v["file"] == f for r in v["reps"]]
            open(os.path.join(self.r, f), "wb").write(apply(src, reps))
    def undo(self):
        for f in self.files:
            shutil.copyfile("/repo/" + f, os.path.join(self.r, f))
    def build(self):
        return subprocess.run(["go", "list", "-export", "./..."], cwd=self.r, env=ENV, capture_output=True, text=True).returncode == 0
    def tests(self):
        try:
            return subprocess.run("go test -vet=off -count=1 -timeout 60s -parallel 1 $(go list ./... | grep -v internal/query)", shell=True, cwd=self.r, env=ENV, capture_output=True, text=True, timeout=120).returncode == 0
        except subprocess.TimeoutExpired:
            return False
    def check(self):
        try:
            o = subprocess.run([SA, "check", "all"], env=dict(ENV, SA_REPO=self.r, SA_VERIF=self.d), capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return {"?": ["no answer in 900 s"]}
        res, cur = {}, None
        for l in o.stdout.splitlines():
            if l[:1] == "C" and "VIOLATIONS" in l:
                cur = l.split()[0]; res[cur] = []
            elif l[:1] == "C":
                cur = None
            elif cur:
                res[cur].append(l.strip())
        if "C43" not in o.stdout or o.returncode:
            res["?"] = [(o.stdout + o.stderr)[-400:]]
        return res

local = threading.local()
copies = []
def copy():
    if not hasattr(local, "c"):
        local.c = Copy(); copies.append(local.c)
    return local.c

def fresh(base, res):
    out = {}
    for k, ls in res.items():
        b = base.get(k)
        if k == "C13" and b and len(ls) <= len(b):
            continue
        out[k] = ls
    return out

def main():
    mode, lst, outf = sys.argv[1:4]
    opt = lambda f, d: sys.argv[sys.argv.index(f) + 1] if f in sys.argv else d
    k, n, j = opt("-k", ""), int(opt("-n", "0")), int(opt("-j", "8"))
    vs = [json.loads(l) for l in open(lst)]
    for i, v in enumerate(vs):
        for r in v["reps"]: r["text"] = r["text"].replace("helper0(", "helper%d(" % i)
    vs = [v for v in vs if k in v["id"] + " " + v["file"]]
    random.seed(1)
    random.shuffle(vs)
    if n: vs = vs[:n]
    out = open(outf, "w")
    lock = threading.Lock()
    def put(o):
        with lock:
            out.write(json.dumps(o) + "\n"); out.flush()
    base = Copy(); base.files = set(); copies.append(base)
    bres = base.check()
    stat = {"all": len(vs), "built": 0, "passed tests": 0, "reported": 0, "left": 0}
    def one(v):
        c = copy(); c.with_([v])
        try:
            if not c.build(): return None
            stat["built"] += 1
            if mode == "same":
                return v
            if not c.tests(): return None
            stat["passed tests"] += 1
            res = fresh(bres, c.check())
            if res:
                stat["reported"] += 1
            else:
                stat["left"] += 1
            put(dict(v, res={a: b[:3] for a, b in res.items()}))
            return v
        finally:
            c.undo()
    with cf.ThreadPoolExecutor(j) as ex:
        ok = [v for v in ex.map(one, vs) if v]
        if mode == "same":
            # batches of variants in different functions
            batches = []
            for v in ok:
                key = (v["file"], v["func"])
                for b in batches:
                    if len(b) < 20 and key not in b:
                        b[key] = v; break
                else:
                    batches.append({key: v})
            def batch(vs):
                c = copy(); c.with_(vs)
                try:
                    if not c.build():
                        return "build"
                    return fresh(bres, c.check())
                finally:
                    c.undo()
            def run(vs):
                res = batch(vs)
                if not res: return
                if len(vs) == 1:
                    stat["reported"] += 1
                    put(dict(vs[0], res=res)); return
                if res == "build" or len(vs) <= 4:
                    for v in vs: run([v])
                else:
                    run(vs[:len(vs)//2]); run(vs[len(vs)//2:])
            print(len(ok), "variants in", len(batches), "batches", flush=True)
            list(ex.map(lambda b: run(list(b.values())), batches))
    for c in copies: shutil.rmtree(c.d)
    print(stat)

main()
