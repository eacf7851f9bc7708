#!/usr/bin/env python3
"""Development tool: writes the planted bugs of plants.py to /verif/seeded and tries them in a scratch copy.

plant.py write [ID...]   patch.diff, demo.sh, demo_test.go and meta.json of each
plant.py try [ID...]     applies, builds, runs the stable tests, the demo on both trees and the property's check
"""
import json, os, re, subprocess, sys, shutil
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from plants import PLANTS
SEEDED = '/verif/seeded'
REPO = '/repo'
MUT = '/tmp/mut'
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'])

def run(cmd, cwd=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout

def fresh():
    shutil.rmtree(MUT, ignore_errors=True)
    run(['cp', '-a', REPO, MUT])

DEMO = '''#!/bin/bash
# Run in the root of the repository; exits 0 when the property holds in this demonstration.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$tmp/overlay.json"
go test %(flags)s-overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 240s -run '^TestDemo$' ./%(pkg)s
'''

def write(pid, p):
    d = os.path.join(SEEDED, pid)
    os.makedirs(d, exist_ok=True)
    fresh()
    base_line = False
    for f, old, new in p['edits']:
        path = os.path.join(MUT, f)
        s = open(path).read()
        assert s.count(old) == 1, (pid, f, s.count(old), old)
        open(path, 'w').write(s.replace(old, new))
    run(['gofmt', '-l', '.'], cwd=MUT)
    rc, out = run(['gofmt', '-l'] + [f for f, _, _ in p['edits']], cwd=MUT)
    if out.strip(): print(pid, 'gofmt:', out.strip())
    diff = subprocess.run(['git', 'diff'], cwd=MUT, stdout=subprocess.PIPE, text=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    for l in diff.split('\n'):
        if l.startswith('+++ b/'):
            cur = l[6:]
            rc, base = run(['git', 'show', '049ed06:' + cur], cwd=REPO)
            lines = set(base.split('\n'))
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] in lines:
            base_line = True
    if not base_line: print(pid, 'WARNING: removes no line of the original')
    open(os.path.join(d, 'demo.sh'), 'w').write(p.get('demo_sh') or DEMO % {'pkg': p['pkg'], 'flags': p.get('flags', '')})
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    if 'demo' in p: open(os.path.join(d, 'demo_test.go'), 'w').write(p['demo'].lstrip('\n'))
    json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)

def attempt(pid, p, check=True):
    d = os.path.join(SEEDED, pid)
    fresh()
    res = {}
    rc, out = run([os.path.join(d, 'demo.sh')], cwd=MUT, timeout=300)
    res['demo_unpatched'] = rc
    if rc: print(out[-3000:])
    rc, out = run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=MUT)
    assert rc == 0, out
    rc, out = run('go build ./... && go vet ./... >/dev/null 2>&1; go build ./...', cwd=MUT)
    res['build'] = rc
    if rc: print(out[-3000:])
    rc, out = run('go test -json -vet=off -count=1 $(go list ./... | grep -v pkg/client/fake)', cwd=MUT)
    passed = set()
    for l in out.split('\n'):
        try: e = json.loads(l)
        except Exception: continue
        if e.get('Action') == 'pass' and e.get('Test'): passed.add(e['Package'] + '/' + e['Test'])
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = base['stable']
    res['tests_missing'] = [w for w in want if w not in passed]
    rc, out = run([os.path.join(d, 'demo.sh')], cwd=MUT, timeout=300)
    res['demo_patched'] = rc
    if rc == 0: print('DEMO DOES NOT FAIL', out[-2000:])
    else: res['demo_says'] = '; '.join([l.strip() for l in out.split('\n') if 'demo' in l][:2])[:200]
    if check:
        env = dict(ENV, CKV_REPO=MUT)
        c = subprocess.run(['./check.sh', p['property']], cwd='/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res['check'] = c.returncode
        res['line'] = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
        res['detail'] = c.stdout[-500:] if c.returncode not in (0, 1) else ''
    ok = res['demo_unpatched'] == 0 and res['build'] == 0 and not res['tests_missing'] and res['demo_patched'] != 0
    print(pid, 'VALID' if ok else 'INVALID', 'CAUGHT' if res.get('check') == 1 else 'MISSED', json.dumps(res), flush=True)

if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:] or list(PLANTS)
    for i in ids:
        if cmd in ('write', 'all'): write(i, PLANTS[i])
        if cmd in ('try', 'all'): attempt(i, PLANTS[i])
