"""Rewrites the planted-bug table of DESIGN.md (between the two markers)."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- table -->', '| bug | property | what it breaks | check |', '|---|---|---|---|']
res = json.load(open(os.path.join(V, 'tools', 'seed_results.json')))
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json')),
                key=lambda f: (json.load(open(f))['property'], f)):
    m = json.load(open(f))
    sid = f.split(os.sep)[-2]
    what = ' '.join(m['what_it_breaks'].split())
    rows.append('| %s | %s | %s | %s |' % (sid, m['property'], what.replace('|', '/'),
                                           res.get(sid, '?')))
rows.append('<!-- /table -->')
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = s.replace('SEEDTABLE', '<!-- table -->\n<!-- /table -->')
s = re.sub(r'<!-- table -->.*?<!-- /table -->', lambda m: '\n'.join(rows), s, flags=re.S)
open(p, 'w').write(s)
print(len(rows) - 4, 'bugs;', sum(r.endswith('missed |') for r in rows), 'missed')
