#!/usr/bin/env python3
"""Make /verif/seeded/<id>/ from the descriptions in tools/plants/*.py.

  plant.py ID...      (re)make these, or all that are missing with --all

Every bug is confirmed in a scratch copy of /repo: it changes lines of the
original commit only, builds, passes the stable tests, and its demonstration
passes without and fails with it.  No check reads any of this."""
import json, os, re, shutil, subprocess, sys, tempfile, glob, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'c08149a'
ENV = dict(os.environ)
for l in subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env'], capture_output=True, text=True).stdout.splitlines():
    k, _, v = l.partition('='); ENV[k] = v
ENV['GOCACHE'] = os.environ.get('GOCACHE', '/tmp/gocache')

BUGS = {}
def bug(id, prop, needs, breaks, edits, demo, imports=(), race=False, timeout=120):
    assert id not in BUGS, id
    BUGS[id] = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, imports=imports, race=race, timeout=timeout)

DEMO = r'''#!/bin/bash
# usage: demo.sh (cwd: the repository)
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
. /opt/vp/env.sh 2>/dev/null
cd "$r" || exit 1
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cat >"$t/o.json" <<J
{"Replace": {"$PWD/zz_demo_test.go": "$d/zz_demo_test.go", "$PWD/zz_lib_test.go": "$d/zz_lib_test.go"}}
J
go test%(race)s -vet=off -overlay "$t/o.json" -run '^TestZZDemo$' -count=1 -timeout %(timeout)ds . >"$t/out" 2>&1
rc=$?
tail -c 3000 "$t/out"
exit $rc
'''

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), capture_output=True, text=True, **k)

def goimp(imports):
    return ''.join('\t%s\n' % (i if '"' in i else '"%s"' % i) for i in imports)

def make(b):
    wt = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    out = os.path.join(V, 'seeded', b['id'])
    try:
        subprocess.run(['cp', '-a', '/repo/.', wt], check=True)
        sh('git checkout -q -- . && git clean -fdq', wt)
        for f, old, new in b['edits']:
            p = os.path.join(wt, f); s = open(p).read()
            n = s.count(old)
            if n != 1: return 'edit of %s matches %d times: %r' % (f, n, old[:60])
            open(p, 'w').write(s.replace(old, new))
        files = sorted({f for f, _, _ in b['edits']})
        r = sh('gofmt -l ' + ' '.join(files), wt)
        sh('gofmt -w ' + ' '.join(files), wt)
        diff = sh('git diff', wt).stdout
        removed = 0
        for f in files:
            lines = [(int(m.group(1)), int(m.group(2) or 1)) for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh(['git', 'diff', '-U0', '--', f], wt).stdout, re.M)]
            for a, n in lines:
                if not n: continue
                removed += n
                bl = sh(['git', 'blame', '-s', '-L', '%d,+%d' % (a, n), 'HEAD', '--', f], wt).stdout
                for l in bl.splitlines():
                    if not l.startswith('^' + BASE): return 'changes a line of my own: ' + l
        if not removed: return 'only adds lines'
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        shutil.copy(V + '/tools/plants/zz_lib_test.go', out + '/zz_lib_test.go')
        std = ['context', 'testing', 'time']
        body = b['demo']
        imps = ['context', 'testing', 'time'] + list(b['imports'])
        src = 'package vfilter\n\nimport (\n' + goimp(imps) + '\n\t"github.com/Velocidex/ordereddict"\n\t"www.velocidex.com/golang/vfilter/types"\n)\n\nvar _ context.Context\nvar _ = time.Second\nvar _ = ordereddict.NewDict\nvar _ types.Scope\n\n' + body.strip('\n') + '\n'
        open(out + '/zz_demo_test.go', 'w').write(src)
        sh(['gofmt', '-w', out + '/zz_demo_test.go'], wt)
        open(out + '/demo.sh', 'w').write(DEMO % dict(race=' -race' if b['race'] else '', timeout=b['timeout']))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
        open(out + '/meta.json', 'a').write('\n')
        r = sh('go build ./...', wt)
        if r.returncode: return 'build: ' + r.stderr[-1500:]
        for i in range(2):
            r = sh('go test -vet=off -count=1 -cpu 1 -timeout 10m ./...', wt)
            if r.returncode: return 'tests fail: ' + r.stdout[-1500:]
        r = sh(['bash', out + '/demo.sh'], wt)
        bad = r
        sh('git checkout -q -- .', wt)
        for i in range(3):
            r = sh(['bash', out + '/demo.sh'], wt)
            if r.returncode: return 'demo fails on the clean tree: ' + r.stdout[-2500:]
        if bad.returncode == 0: return 'demo passes with the bug'
        if 'zz_demo_test.go' not in bad.stdout and 'DATA RACE' not in bad.stdout and 'zz_lib_test' not in bad.stdout: return 'odd failure: ' + bad.stdout[-1500:]
        print(b['id'], 'ok:', ' / '.join(l.strip() for l in bad.stdout.splitlines()[:5])[:200], flush=True)
        return None
    finally:
        shutil.rmtree(wt, ignore_errors=True)

def main():
    for f in sorted(glob.glob(V + '/tools/plants/*.py')):
        runpy.run_path(f, init_globals=dict(bug=bug))
    ids = sys.argv[1:]
    if ids == ['--all']:
        ids = [i for i in BUGS if not os.path.exists(V + '/seeded/' + i + '/meta.json')]
    from concurrent.futures import ThreadPoolExecutor
    rc = 0
    with ThreadPoolExecutor(4) as ex:
        for i, e in zip(ids, ex.map(lambda i: make(BUGS[i]), ids)):
            if e:
                rc = 1
                print(i, 'FAILED', e)
                shutil.rmtree(V + '/seeded/' + i, ignore_errors=True)
    sys.exit(rc)
if __name__ == '__main__': main()
