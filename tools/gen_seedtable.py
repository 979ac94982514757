#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = dict(line.split(' ', 1) for line in open(V + '/tools/seed_notes.txt').read().splitlines() if line.strip())
rows = ['| bug | needs | caught by |', '|---|---|---|']
for i, d in sorted((i, d) for d in ('seeded', 'seeds_more') if os.path.isdir(V + '/' + d) for i in os.listdir(V + '/' + d)):
    m = json.load(open('%s/%s/%s/meta.json' % (V, d, i)))
    rows.append('| %s: %s | %s | %s |' % (i, m['what_it_breaks'], m['needs'], FIRST_MISSED.get(i, m['property'])))
d = open(V + '/DESIGN.md').read()
a, b = d.index('<!--table-->') + 12, d.index('<!--end-->')
open(V + '/DESIGN.md', 'w').write(d[:a] + '\n' + '\n'.join(rows) + '\n' + d[b:])
