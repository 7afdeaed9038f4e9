#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (run by hand; no check uses it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/' + i + '/meta.json'))
    rows.append((m['property'], i, m['needs']))
t = '| property and check that catches it | planted bug | needs |\n|---|---|---|\n' + '\n'.join('| %s | %s | %s |' % r for r in sorted(rows))
d = open(V + '/DESIGN.md').read()
a, b = '<!-- seeds -->', '<!-- /seeds -->'
d = d[:d.index(a)] + a + '\n' + t + '\n' + d[d.index(b):]
open(V + '/DESIGN.md', 'w').write(d)
print(len(rows))
