#!/usr/bin/env python3
"""Development tool: all small edits of a file (gomut), each tried against the checks of that file until one catches it.
gomut.py OUT.jsonl FILE:C01,C02 ...   (VM=copy of /verif, MUT=scratch copy of /repo, SCALE=0.3)"""
import os, sys, subprocess, shutil, json, time
HERE = os.path.dirname(os.path.abspath(__file__))
DIR = os.environ.get('MUT', '/tmp/mut4')
SCALE = os.environ.get('SCALE', '0.3')
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'], CKV_REPO=DIR)
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
out = sys.argv[1]
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d['File'], d['From'], d['To'], d['New']))
def run(c, **k): return subprocess.run(c, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
subprocess.check_call(['go', 'build', '-o', '/tmp/gomut', 'main.go'], cwd=HERE + '/gomut', env=ENV)
shutil.rmtree(DIR, ignore_errors=True)
subprocess.run(['cp', '-a', '/repo', DIR])
for arg in sys.argv[2:]:
    f, checks = arg.split(':')
    src = open(os.path.join(DIR, f), 'rb').read()
    for l in subprocess.check_output(['/tmp/gomut', f], cwd=DIR, text=True).split('\n'):
        if not l: continue
        e = json.loads(l)
        if (e['File'], e['From'], e['To'], e['New']) in done: continue
        open(os.path.join(DIR, f), 'wb').write(src[:e['From']] + e['New'].encode() + src[e['To']:])
        t = time.time(); res = ''
        r = run('go build ./... ', shell=True, cwd=DIR)
        if r.returncode: res = 'nobuild'
        else:
            r = run('timeout 120 go test -json -vet=off -count=1 $(go list ./... | grep -v pkg/client/fake)', shell=True, cwd=DIR)
            passed = set()
            for q in r.stdout.split('\n'):
                try: j = json.loads(q)
                except Exception: continue
                if j.get('Action') == 'pass' and j.get('Test'): passed.add(j['Package'] + '/' + j['Test'])
            if [w for w in base if w not in passed and 'client/fake' not in w]: res = 'tests'
        if not res:
            res = 'SURVIVED'
            for c in checks.split(','):
                try: q = run(['./check.sh', c, '-scale', SCALE], cwd=os.environ.get('VM', '/verif'), timeout=900)
                except subprocess.TimeoutExpired: res = 'timeout ' + c; break
                if q.returncode == 1: res = c; break
                if q.returncode != 0: res = 'rc%d %s %s' % (q.returncode, c, q.stdout[-300:]); break
        e['Result'] = res; e['Time'] = round(time.time() - t)
        open(out, 'a').write(json.dumps(e) + '\n')
    open(os.path.join(DIR, f), 'wb').write(src)
