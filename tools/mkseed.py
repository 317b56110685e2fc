#!/usr/bin/env python3
"""Development helper: (re)creates planted bugs from tools/seeds.py and reports
whether each builds, passes the repository's tests, is shown by its demo and is
caught by its check.  usage: mkseed.py [--fast] [--check-only] [id ...]"""
import json, os, subprocess, sys, shutil, importlib.util
V = '/verif'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', CGO_ENABLED='1', GODEBUG='randautoseed=0')
def sh(c, cwd=None, env=ENV, timeout=900):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
DEMO = '''#!/bin/bash
# Runs demo_test.go inside package ./%(pkg)s of the repository in the current directory.
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
printf '{"Replace":{"%%s/%(pkg)s/zz_planted_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
export DEMO_DIR="$t"
go test -vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run '^TestPlantedDemo$' ./%(pkg)s
'''
def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    fast = '--fast' in sys.argv; chk = '--check-only' in sys.argv
    spec = importlib.util.spec_from_file_location('seeds', V + '/tools/seeds.py'); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    W = '/tmp/seedwork'
    sh('mkdir -p /tmp/vd; cp /verif/known_findings.txt /tmp/vd/')
    base = json.load(open('/opt/vp/BASELINE.json')) if os.path.exists('/opt/vp/BASELINE.json') else {}
    for s in m.SEEDS:
        if a and s['id'] not in a and s['prop'] not in a: continue
        sh('rsync -a --delete /repo/ %s/ 2>/dev/null || (mkdir -p %s && cp -a /repo/. %s/)' % (W, W, W))
        sh('git checkout -q -- . && git clean -qfd', cwd=W)
        d = '%s/seeded/%s' % (V, s['id'])
        os.makedirs(d, exist_ok=True)
        for f, o, n in s['edits']:
            t = open(W + '/' + f).read()
            if t.count(o) != 1: print(s['id'], 'EDIT DOES NOT MATCH', f, t.count(o)); break
            open(W + '/' + f, 'w').write(t.replace(o, n))
        else:
            diff = sh('git diff', cwd=W).stdout
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=s['pkg'])); os.chmod(d + '/demo.sh', 0o755)
            open(d + '/demo_test.go', 'w').write(s['demo'].lstrip('\n'))
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
            r = []
            if not chk:
                b = sh('go build ./...', cwd=W); r.append('build ' + ('ok' if b.returncode == 0 else 'FAIL ' + b.stdout[-300:]))
                if not fast:
                    t = sh('go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files"', cwd=W)
                    bad = [l for l in t.stdout.splitlines() if l.startswith('--- FAIL') or l.startswith('FAIL')]
                    r.append('tests ' + ('ok' if not bad else 'FAIL ' + ' '.join(bad[:4])))
                x = sh('bash %s/demo.sh' % d, cwd=W); r.append('demo+patch ' + ('fails(ok)' if x.returncode else 'PASSES(bad)'))
                if 'build failed' in x.stdout: r.append('DEMO DOES NOT BUILD ' + x.stdout[:400])
                y = sh('bash %s/demo.sh' % d, cwd='/repo'); r.append('demo clean ' + ('ok' if y.returncode == 0 else 'FAIL ' + y.stdout[-400:]))
            c = sh('/verif/bin/gopfcheck check %s quick' % s['prop'], env=dict(ENV, GOPF_REPO=W, VERIF_DIR='/tmp/vd', VERIF_SEED='1'), cwd='/tmp/vd')
            r.append('check ' + ('CAUGHT' if c.returncode == 1 and 'VIOLATION property=' + s['prop'] in c.stdout else 'missed rc=%d' % c.returncode))
            print(s['id'], '|', ' | '.join(r), flush=True)
            if '--v' in sys.argv: print(c.stdout[-1500:])
    sh('chmod -R u+w /tmp/seedwork')
main()
