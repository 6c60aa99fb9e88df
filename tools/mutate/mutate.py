#!/usr/bin/env python3
"""mutate.py STAGE MUTS.jsonl OUT.jsonl [JOBS]

Stage 1: which of the changes compile and pass the stable tests.
Stage 2: which of those some property's search notices (a short one).
Works in scratch copies under /tmp/mu; not part of any check."""
import json, os, subprocess, sys, threading, queue, shutil, time, random
stage, src, out, jobs = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 7
GO = '/opt/veriftools/go1.25.14'
ENV = dict(os.environ, PATH=GO + '/bin:' + os.environ['PATH'], GOCACHE='/tmp/gocache', GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', CGO_ENABLED='0', GOROOT=GO)
stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json')).get('passed') or [])
PROPS = os.environ.get('PROPS', 'C27 C17 C18 C24 C23 C10 C09 C04 C06 C25 C21 C11 C12 C14 C15 C16 C22 C28 C26 C05 C07 C08 C02 C03 C13 C19 C01').split()
COUNT = os.environ.get('COUNT', '250')
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d['file'], d['off'], d['end'], d['new']))
q = queue.Queue()
ms = [json.loads(l) for l in open(src)]
random.Random(1).shuffle(ms)
for m in ms:
    if (m['file'], m['off'], m['end'], m['new']) not in done and (stage == '1' or m['res'] == 'pass'):
        q.put(m)
lock = threading.Lock()
fo = open(out, 'a')

def sh(cmd, cwd, t, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return -9, ''

def work(i):
    d = '/tmp/mu/s%s_w%d' % (stage, i)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', os.environ.get('MUBASE', '/repo'), d], check=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(d, m['file']); orig = open(p, 'rb').read()
        open(p, 'wb').write(orig[:m['off']] + m['new'].encode() + orig[m['end']:])
        try:
            res = stage1(d, m) if stage == '1' else stage2(d, m, i)
        finally:
            open(p, 'wb').write(orig)
        with lock:
            fo.write(json.dumps(dict(m, **res)) + '\n'); fo.flush()
    shutil.rmtree(d, ignore_errors=True)

def stage1(d, m):
    rc, o = sh(['go', 'build', './...'], d, 120)
    if rc: return {'res': 'nobuild'}
    rc, o = sh(['go', 'test', '-vet=off', '-json', '-timeout', '40s', './...'], d, 90)
    if rc == -9: return {'res': 'fail'}
    bad = set(); ok = set()
    for l in o.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get('Test') and e['Action'] in ('pass', 'fail'):
            (ok if e['Action'] == 'pass' else bad).add(e['Package'] + '::' + e['Test'])
    if BASE is None: return {'res': 'pass' if not bad else 'fail', 'ok': sorted(ok)}
    return {'res': 'pass' if BASE <= ok else 'fail'}

def stage2(d, m, i):
    ov = '/tmp/mu/ov%d' % i; b = '/tmp/mu/bin%d' % i
    rc, o = sh(['bash', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'build.sh'), ov, d, b], '/verif/sim', 300)
    if rc: return {'res': 'nosim', 'out': o[-500:]}
    rd = '/tmp/mu/run%d' % i
    for prop in PROPS:
        shutil.rmtree(rd, ignore_errors=True); os.makedirs(rd)
        rc, o = sh([b, 'worker', '-prop', prop, '-seed', '1', '-worker', '0', '-of', '1', '-count', COUNT, '-wall', '25s', '-out', rd], '/tmp', 150)
        if rc != 0:
            msg = ''
            try: msg = json.load(open(rd + '/w0.first.json'))['message'][0][:200]
            except Exception: msg = 'rc=%s %s' % (rc, o[-200:])
            return {'res': 'caught', 'by': prop, 'msg': msg}
    return {'res': 'survived'}

BASE = None
os.makedirs('/tmp/mu', exist_ok=True)
if stage == '1':
    r = stage1('/repo', None)
    BASE = set(r['ok']); print('baseline', len(BASE), r['res'])
ts = [threading.Thread(target=work, args=(i,)) for i in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
