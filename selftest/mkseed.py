#!/usr/bin/env python3
"""Makes and verifies planted bugs.

usage: mkseed.py FILE.py [ID...]
FILE.py defines SEEDS = [dict(id, prop, pkg, needs, breaks, edits=[(file, old, new)...], test=GO SOURCE, race=bool)].
Each is written to /verif/seeded/<id>/, then checked in a scratch copy of /repo:
it must build, pass the stable tests, its demo must pass without and fail with
the change.  Prints which checks of the analyzer report it.
"""
import sys, os, json, subprocess, shutil, tempfile, runpy
SEEDED = '/verif/seeded'
SA = os.environ.get('SA', '/tmp/w/sa')
ENV = dict(os.environ, PATH='/opt/veriftools/go1.24.13/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable_pass') or []) if os.path.exists('/opt/vp/BASELINE.json') else set()

DEMO = '''#!/bin/sh
# Runs %(test)s inside package %(pkg)s of the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
printf '{"Replace": {"%%s": "%%s"}}' "$repo/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
%(env)sgo test -overlay "$tmp/overlay.json" %(flags)s-vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s
'''

def sh(cmd, cwd, env=ENV, timeout=400):
    r = subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors='replace')

def tests(repo):
    rc, out = sh("go test -json -vet=off -count=1 -parallel 1 $(go list ./... | grep -vx github.com/iand/starbow/internal/query)", repo)
    failed = set()
    for l in out.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get('Action') == 'fail' : failed.add((d.get('Package'), d.get('Test')))
    return rc, failed

def make(s):
    d = os.path.join(SEEDED, s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(dir='/tmp/w')
    repo = os.path.join(tmp, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', repo])
        for f, old, new in s['edits']:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT MATCHES', t.count(old), 'times:', old[:60]); return
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=repo)
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo_test.go'), 'w').write(s['test'].lstrip())
        env = 'export GOARCH=%s; ' % s['goarch'] if s.get('goarch') else ''
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % dict(test='demo_test.go', pkg=s['pkg'], env=env, flags='-race ' if s.get('race') else ''))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        bad = []
        rc, out = sh('gofmt -l . ', repo)
        rc, out = sh('go build ./...', repo)
        if rc: bad.append('BUILD ' + out[-300:])
        else:
            rc, failed = tests(repo)
            if failed: bad.append('TESTS %s' % sorted(map(str, failed))[:4])
            rc, out = sh('sh %s/demo.sh' % d, repo)
            if rc == 0: bad.append('DEMO PASSES WITH PATCH')
            elif 'build failed' in out: bad.append('DEMO BUILD ' + out[-400:])
        rc, out = sh('sh %s/demo.sh' % d, '/repo')
        if rc: bad.append('DEMO FAILS CLEAN ' + out[-600:])
        rc, out = sh('%s check all' % SA, '/tmp/w', env=dict(os.environ, SA_REPO=repo, SA_VERIF=tmp))
        hits = sorted({l.split()[0] for l in out.splitlines() if l[:1] == 'C' and 'VIOLATIONS' in l})
        print(s['id'], s['prop'], 'caught by', hits, '' if s['prop'] in hits else '*** MISSED', ' '.join(bad))
    finally:
        shutil.rmtree(tmp)

if __name__ == '__main__':
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    for s in seeds:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
        make(s)
