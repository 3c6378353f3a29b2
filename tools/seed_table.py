#!/usr/bin/env python3
"""Rewrites the table of seeded bugs at the end of DESIGN.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for m in glob.glob(V + '/seeded/*/meta.json'):
    d = json.load(open(m))
    rows.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d['needs']))
t = ['| caught by | bug (needs) |', '|---|---|']
for p in sorted(rows):
    t.append('| %s | %s |' % (p, '; '.join('`%s` (%s)' % (i, n.rstrip('.')) for i, n in sorted(rows[p]))))
f = V + '/DESIGN.md'
s = open(f).read()
mark = '<!-- seeds -->\n'
i = s.index(mark) + len(mark)
open(f, 'w').write(s[:i] + '\n'.join(t) + '\n')
