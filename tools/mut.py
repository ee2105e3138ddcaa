#!/usr/bin/env python3
"""Quick mutation runs: mut.py FILE, where FILE defines M = [(property, file, old, new), ...]. Each change is
made in a scratch copy of /repo and the property's check run on it; prints what survives."""
import sys, os, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
shutil.copy('/verif/bin/ichk', '/tmp/ichk-mut')
def one(a):
    i, (prop, f, old, new) = a
    d = tempfile.mkdtemp(prefix='mut')
    try:
        r = d + '/r'
        shutil.copytree('/repo', r, symlinks=True)
        p = r + '/' + f
        s = open(p, newline='').read()
        for old, new in (old if isinstance(old, list) else [(old, new)]):
            if s.count(old) < 1:
                return i, prop, 'NOT-FOUND', old
            s = s.replace(old, new, 1)
        open(p, 'w', newline='').write(s)
        env = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=d + '/ev')
        os.mkdir(d + '/ev')
        o = subprocess.run(['/tmp/ichk-mut', prop], capture_output=True, text=True, env=env)
        first = (o.stdout + o.stderr).strip().split('\n')
        return i, prop, {0: 'SURVIVED', 1: 'killed'}.get(o.returncode, 'ERR%d' % o.returncode), ' '.join(first[:2])[:int(os.environ.get('W', 170))]
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(4) as ex:
    for i, p, r, m in ex.map(one, enumerate(ns['M'])):
        print(r, i, p, m)
