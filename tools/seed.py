#!/usr/bin/env python3
"""seed.py make ID <spec.py>   -> writes seeded/ID/patch.diff from edits
   seed.py test ID...          -> confirm the planted bug, run its check"""
import sys, os, json, subprocess, time
V = '/verif'; REPO = '/repo'
DEMO = '''#!/bin/bash
# run in /repo after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
g++ -std=c++11 -O1 -march=x86-64 -mtune=generic -w -I include -I /usr/include/eigen3 "$D/demo.cpp" _build/lib/libopengv.a -o "$T/demo" || exit 2
timeout 200 "$T/demo" > "$T/out" 2>&1; rc=$?; tail -5 "$T/out"; exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): return sh('git -C %s status --porcelain -uno' % REPO).stdout.strip() == ''
def make(i, prop, edits, needs, breaks, demo):
    assert clean(), 'dirty /repo'
    d = os.path.join(V, 'seeded', i); os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = os.path.join(REPO, f); s = open(p).read()
        if s.count(old) != 1:
            sh('git -C %s checkout -- .' % REPO); raise SystemExit((f, s.count(old), old))
        open(p, 'w').write(s.replace(old, new))
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % REPO).stdout)
    sh('git -C %s checkout -- .' % REPO)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.cpp'), 'w').write(demo)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
def stable(): return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def test(i, checks=True, full=True):
    assert clean(), 'dirty /repo'
    d = os.path.join(V, 'seeded', i); m = json.load(open(os.path.join(d, 'meta.json')))
    out = {'id': i, 'property': m['property']}
    a = sh('git -C %s apply %s/patch.diff' % (REPO, d))
    if a.returncode: print(i, 'patch does not apply', a.stdout); return
    try:
        t = time.time()
        if full:
            r = sh('bash /opt/vp/test.sh /tmp/seed-t.json')
            res = json.load(open('/tmp/seed-t.json')); out['tests_ok'] = stable() <= set(res['passed'])
        else: out['build'] = sh('bash /opt/vp/build.sh').returncode
        r = sh('bash %s/demo.sh' % d, cwd=REPO); out['demo_with_bug'] = r.returncode; out['demo_out'] = r.stdout[-200:]
        if checks:
            r = sh('python3-vt check.py %s' % m['property'], cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')); out['check'] = r.returncode
            out['says'] = [l[:300] for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'failing', 'failed'))][:4] + r.stdout.splitlines()[-1:]
            out['t'] = round(time.time() - t)
    finally: sh('git -C %s checkout -- .' % REPO)
    sh('bash /opt/vp/build.sh')
    out['demo_without'] = sh('bash %s/demo.sh' % d, cwd=REPO).returncode
    out['GOOD'] = out['demo_with_bug'] not in (0, 2) and out['demo_without'] == 0 and out.get('tests_ok', True)
    out['CAUGHT'] = out.get('check') == 1
    print(json.dumps(out, indent=1)); return out
if __name__ == '__main__':
    if sys.argv[1] == 'make':
        g = {}; exec(open(sys.argv[2]).read(), g)
        for x in g['BUGS']: make(*x); print('made', x[0])
    else:
        for i in sys.argv[2:]: test(i)
