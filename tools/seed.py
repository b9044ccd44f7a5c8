#!/usr/bin/env python3
"""Confirm planted changes: tools/seed.py [--no-check] [--props P1,P2] ID...   (applies each to /repo, and undoes it)
For each seeded/<id>: demo passes without the patch; with it: builds, stable tests pass, demo fails; then runs the property's check."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def clean():
    sh('git -C /repo checkout -- .')
def build(): return sh('bash /opt/vp/build.sh')
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def tests():
    sh('bash /opt/vp/test.sh /tmp/seedtest.json')
    return stable - set(json.load(open('/tmp/seedtest.json'))['passed'])
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
check = '--no-check' not in sys.argv; only = '--check-only' in sys.argv
assert not sh('git -C /repo status --short').stdout.strip(), 'dirty /repo'
if not only: build()
for i in ids:
    d = V + '/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    line = i + ' [' + meta['property'] + '] '
    try:
        if not only:
            r = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
            if r.returncode: print(line + 'BAD: demo fails unpatched rc=%d %s' % (r.returncode, r.stdout[-500:])); continue
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode: print(line + 'BAD: patch ' + r.stdout); continue
        if not only:
            r = build()
            if r.returncode: print(line + 'BAD: build ' + r.stdout[-1500:]); continue
            t = tests()
            if t: print(line + 'BAD: tests fail: %s' % sorted(t)[:6]); continue
            r = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
            if r.returncode == 0: print(line + 'BAD: demo passes with the patch ' + r.stdout[-300:]); continue
            line += 'ok (demo: %s) ' % r.stdout.strip().replace('\n', ' | ')[-100:]
        if check:
            for p in [meta['property']] + meta.get('also', []):
                r = sh('timeout 900 python3 %s/check.py --property %s' % (V, p))
                v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
                k = [x.strip() for x in r.stdout.splitlines() if ' in h_' in x]
                line += '%s rc=%d %s' % (p, r.returncode, 'CAUGHT ' + (k[0][:140] if k else '') if v and r.returncode == 1 else 'MISSED ' + r.stdout[-300:])
        print(line, flush=True)
    finally:
        clean()
        if not only: build()
if not only: build()
