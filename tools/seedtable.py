"""Rewrites section 6 of DESIGN.md from the folders in seeded/."""
import collections
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = collections.defaultdict(list)
for n in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', n, 'meta.json')))
    g[m['property']].append((n.split('-', 1)[1], m['needs'], m['what_it_breaks']))
t = ['## 6. Planted bugs and what catches them', '',
     'Each folder of `seeded/` holds one change, tried in a scratch copy: the demonstration passes without and fails with it, the stable tests',
     'pass with both. Every one of the %d is caught by the quick check of its own property (`VERIF_SEED=1`); those that were missed' % sum(map(len, g.values())),
     'when first planted led to the workload axes named in section 2.', '', '| property | change: what it needs in order to show |', '|---|---|']
for p in sorted(g):
    t.append('| %s | %s |' % (p, '; '.join('**%s**: %s' % (a, b) for a, b, c in g[p])))
f = os.path.join(V, 'DESIGN.md')
s = open(f).read()
i = s.find('\n## 6. ')
s = (s if i < 0 else s[:i + 1]).rstrip('\n') + '\n\n'
open(f, 'w').write(s + '\n'.join(t) + '\n')
