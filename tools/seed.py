#!/usr/bin/env python3
"""Confirms planted bugs: seed.py ID...   (builds /repo with each patch, runs the tests, the demo and the property's check, and undoes it)"""
import json, os, subprocess, sys
S = '/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def demo(i): return sh('timeout 300 bash %s/%s/demo.sh' % (S, i), cwd='/repo')
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ids = sys.argv[1:] or sorted(os.listdir(S))
assert not sh('git -C /repo status --porcelain').stdout.strip()
o = sh('bash /opt/vp/build.sh'); assert o.returncode == 0, o.stdout[-2000:]
clean = {}
for i in ids:
    d = demo(i); clean[i] = d.returncode
    if d.returncode: print(i, 'DEMO FAILS ON CLEAN TREE', d.stdout[-800:])
mf = {c['property']: c['quick_cmd'] for c in json.load(open('/verif/MANIFEST.json'))['checks']}
for i in ids:
    try:
        a = sh('git -C /repo apply --whitespace=nowarn %s/%s/patch.diff' % (S, i))
        if a.returncode: print(i, 'PATCH DOES NOT APPLY', a.stdout); continue
        t = sh('bash /opt/vp/test.sh /tmp/seed-out.json')
        r = json.load(open('/tmp/seed-out.json'))
        missing = stable - set(r['passed'])
        d = demo(i)
        meta = json.load(open('%s/%s/meta.json' % (S, i)))
        c = sh(mf[meta['property']], cwd='/verif') if meta['property'] in mf else None
        caught = c is not None and c.returncode == 1 and ('VIOLATION property=%s' % meta['property']) in c.stdout
        print(i, meta['property'], 'tests', 'ok' if not missing else 'FAIL %s' % sorted(missing)[:5], '| demo', clean[i], '->', d.returncode, '| check', 'caught' if caught else 'MISSED (%s)' % (c.returncode if c else '-'))
        if not caught and c: print(c.stdout[-600:])
        if d.returncode == 0: print(d.stdout[-500:])
        if t.returncode and not r['passed']: print(t.stdout[-1500:])
    finally:
        sh('git -C /repo checkout -- .')
    sys.stdout.flush()
sh('bash /opt/vp/build.sh')
