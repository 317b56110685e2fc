#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for n in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, n)))
    rows.append('| %s | %s | %s |' % (n, m['property'], m['what_it_breaks']))
s = open(V + '/DESIGN.md').read()
a = s.index('| planted bug | property | breaks |')
b = s.index('\n\n', a)
s = s[:a] + '| planted bug | property | breaks |\n|---|---|---|\n' + '\n'.join(rows) + s[b:]
open(V + '/DESIGN.md', 'w').write(s)
