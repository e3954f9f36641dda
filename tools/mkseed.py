"""mkseed(id, prop, edits, demo_py, needs, breaks): writes seeded/<id> from edits [(file, old, new[, nth])]"""
import os, subprocess, json, shutil
def mkseed(id, prop, edits, demo, needs, breaks, sh=None):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    t = '/tmp/mkseed'
    shutil.rmtree(t, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '--shared', '/repo', t])
    for e in edits:
        f, old, new = e[:3]; nth = e[3] if len(e) > 3 else None
        p = t + '/' + f
        s = open(p, encoding='utf-8', newline='').read()
        n = s.count(old)
        assert n >= 1 and (nth is not None or n == 1), (id, f, n, old)
        parts = s.split(old); k = nth or 0
        s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, 'w', encoding='utf-8', newline='').write(s)
    diff = subprocess.check_output(['git', '-C', t, 'diff'])
    open(d + '/patch.diff', 'wb').write(diff)
    if sh is None:
        open(d + '/demo.py', 'w').write(demo)
        sh = 'cd "$PWD"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 200 /opt/vp/venv/bin/python "$(dirname "$0")/demo.py"\n'
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n' + sh)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t, ignore_errors=True)
    print(id, len(diff))
