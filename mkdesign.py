"""Rewrites the generated parts of DESIGN.md: the property table (from registry.py and
properties.jsonl) and the table of planted bugs (from seeded/*/meta.json and seed_results.txt)."""
import io
import json
import os
import re
import registry

o = io.StringIO()
pr = lambda s='': o.write(s + '\n')
for x in open('properties.jsonl'):
    p = json.loads(x)
    s = registry.PROPS[p['id']]
    pr('### %s %s\n' % (p['id'], p['title']))
    pr(p['statement'] + '\n')
    for j in s['jobs']:
        n = len(list(j['cases']))
        m = len(list(j.get('more', ())))
        pr('* `%s` (%d case%s%s, %s): %s' % (j['h'], n, 's' * (n != 1), ', thorough %d more' % m if m else '', {'fp': 'exact', 'real': 'linear reals'}[j.get('mode', 'fp')], j['bounds']))
    if s.get('outside'):
        pr('* outside: ' + s['outside'])
    pr()
props = o.getvalue()

res = {}
for l in open('seed_results.txt'):
    w = l.split()
    if w:
        res[w[0]] = ' '.join(w[1:])
seeds = '| id | what it breaks | needs | result |\n|---|---|---|---|\n'
for d in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % d))
    seeds += '| %s | %s | %s | %s |\n' % (d, m['what_it_breaks'], m['needs'], res.get(d, 'not run'))

t = open('DESIGN.md').read()
for name, body in (('props', props), ('seeds', seeds)):
    t = re.sub(r'(<!-- %s -->\n).*?(<!-- end %s -->)' % (name, name), lambda m: m.group(1) + '\n' + body + '\n' + m.group(2), t, flags=re.S)
open('DESIGN.md', 'w').write(t)
