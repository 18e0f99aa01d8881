#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, the properties, the last evidence, the known findings and the seeds."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(R, 'tools/design')
def rd(p): return open(os.path.join(R, p)).read()
out = [rd('tools/design/head.md')]
na = {x['property']: x['reason'] for x in json.loads(rd('MANIFEST.json')).get('not_applicable', [])}
known = rd('KNOWN_FINDINGS.txt').splitlines()
seeds = {}
for m in sorted(glob.glob(R + '/seeded/*/meta.json')):
    j = json.load(open(m)); seeds.setdefault(j['property'], []).append((os.path.basename(os.path.dirname(m)), j))
caught = {}
p = os.path.join(D, 'caught.json')
if os.path.exists(p): caught = json.load(open(p))
for l in rd('properties.jsonl').splitlines():
    q = json.loads(l); i = q['id']
    if i in na: continue
    out.append('### %s %s\n\n%s\n' % (i, q['title'], q['statement']))
    f = os.path.join(D, i + '.md')
    if os.path.exists(f): out.append(open(f).read())
    e = os.path.join(R, 'evidence', i + '.json')
    if os.path.exists(e):
        c = json.load(open(e))['coverage']
        out.append('Rules:')
        seen = set()
        for r in c.get('rules', []):
            if r not in seen:
                seen.add(r); out.append('* ' + r)
        out.append('')
        n = c.get('obligations_by_rule')
        if n: out.append('Obligations discharged on this tree: ' + ', '.join('%s %s' % (k, v if not isinstance(v, dict) else v.get('obligations', v)) for k, v in sorted(n.items())) + '.\n')
    k = [x for x in known if 'property=%s ' % i in x and not x.startswith('#')]
    if k:
        out.append('Defects found:')
        for x in k: out.append('* ' + x)
        out.append('')
    s = seeds.get(i)
    if s:
        out.append('Planted bugs:')
        for n, j in s:
            out.append('* `%s` - %s (needs: %s)%s' % (n, j['what_it_breaks'], j['needs'], (' - reported by ' + caught[n]) if n in caught else ''))
        out.append('')
if na:
    out.append('## Not decided by static analysis\n')
    for i, r in sorted(na.items()): out.append('* %s: %s' % (i, r))
    out.append('')
out.append(rd('tools/design/tail.md'))
open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(out))
