#!/usr/bin/env python3
"""Development tool: tries the edits of mutants.py: mutate.py [ID or property ...]."""
import os, sys, subprocess, shutil, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
M = importlib.import_module(os.environ.get("WAVE", "mutants")).M
DIR = os.environ.get('MUT', '/tmp/mut2')
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'], CKV_REPO=DIR)
want = sys.argv[1:]
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
for mid, prop, edits in M:
    if want and mid not in want and prop not in want: continue
    shutil.rmtree(DIR, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', DIR])
    bad = ''
    for f, old, new in edits:
        p = os.path.join(DIR, f); s = open(p).read()
        if s.count(old) != 1: bad = 'EDIT %s matches %d' % (f, s.count(old)); break
        open(p, 'w').write(s.replace(old, new))
    if bad: print(mid, bad, flush=True); continue
    r = subprocess.run('go build ./...', shell=True, cwd=DIR, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(mid, 'NOBUILD', r.stdout[-400:], flush=True); continue
    r = subprocess.run('go test -json -vet=off -count=1 $(go list ./... | grep -v pkg/client/fake)', shell=True, cwd=DIR, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    passed = set()
    for l in r.stdout.split('\n'):
        try: e = json.loads(l)
        except Exception: continue
        if e.get('Action') == 'pass' and e.get('Test'): passed.add(e['Package'] + '/' + e['Test'])
    missing = [w for w in base if w not in passed and 'client/fake' not in w]
    t = time.time()
    try:
        c = subprocess.run(['./check.sh', prop], cwd=os.environ.get('VM','/verif'), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        print(mid, prop, {0: 'MISSED', 1: 'CAUGHT'}.get(c.returncode, 'RC%d' % c.returncode), 'tests-fail:%d' % len(missing) if missing else '', '%.0fs' % (time.time() - t), [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')][:1] or c.stdout[-300:], flush=True)
    except subprocess.TimeoutExpired: print(mid, prop, 'TIMEOUT', flush=True)
