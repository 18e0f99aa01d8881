#!/usr/bin/env python3
"""mut.py <cases.py> [ids]: apply each case to a scratch copy of /repo and run the named check on it.
case: (name, property, expected exit, [(file, old, new), ...]).  Development aid, not a check."""
import os, shutil, subprocess, sys, tempfile
cases = {}
exec(open(sys.argv[1]).read(), cases)
ids = sys.argv[2:]
from concurrent.futures import ThreadPoolExecutor
def one(c):
    name, prop, exp, edits = c
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        for f, a, b in edits:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(a) < 1:
                return '%s: EDIT NOT FOUND %s' % (name, a[:60])
            open(p, 'w').write(t.replace(a, b, 1))
        v = os.path.join(d, 'verif'); os.makedirs(v)
        for x in ('engine', 'rules', 'astx', 'build', 'check.py', 'KNOWN_FINDINGS.txt'):
            os.symlink('/verif/' + x, os.path.join(v, x)) if x != 'check.py' else shutil.copy('/verif/check.py', v)
        r = subprocess.run(['python3', 'check.py', prop], cwd=v, env=dict(os.environ, SPS_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode(errors='replace').splitlines()
        k = [l for l in o if l.startswith('  src') or 'ERROR' in l or ('rror:' in l and 'rule ' not in l)]
        return '%s %s exit=%d (want %s) %s\n%s' % ('ok  ' if r.returncode == exp else 'MISS', name, r.returncode, exp, prop, '\n'.join('      ' + l[:230] for l in k[:3]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
sel = [c for c in cases['CASES'] if not ids or c[0] in ids or c[1] in ids]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, sel):
        print(r, flush=True)
