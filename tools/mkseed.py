#!/usr/bin/env python3
"""mkseed.py <seeds.py> [ids]: (re)create /verif/seeded/<id> from a description; see tools/seedcheck.sh"""
import json, os, subprocess, sys, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
HERE = os.path.dirname(os.path.abspath(__file__))
DEMO = '''#!/bin/bash
# exit 0: the property held in this scenario; nonzero: it did not
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build_demo.sh"
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
build_demo "$here/demo.cpp" "$tmp/demo" > "$tmp/log" 2>&1 || { cat "$tmp/log"; exit 99; }
cd "$tmp" && timeout 60 ./demo > out 2>&1
rc=$?
tail -5 out
exit $rc
'''
for s in ns['SEEDS']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
        continue
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    subprocess.run(['git', '-C', '/repo', 'diff', '--quiet'], check=True)
    try:
        for f, a, b in s['edits']:
            p = '/repo/' + f
            t = open(p).read()
            assert t.count(a) == 1, (s['id'], f, t.count(a), a)
            open(p, 'w').write(t.replace(a, b, 1))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.cpp', 'w').write(s['demo'].lstrip())
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    shutil.copy(HERE + '/build_demo.sh', d + '/build_demo.sh')
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
    print('wrote', d)
