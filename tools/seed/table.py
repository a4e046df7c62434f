#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
s = open(V + '/DESIGN.md').read().split('<!-- planted -->')[0]
s += '<!-- planted -->\n| change | caught by | needs |\n|---|---|---|\n'
rows = [(json.load(open('%s/seeded/%s/meta.json' % (V, i))), i) for i in os.listdir(V + '/seeded')]
for m, i in sorted(rows, key=lambda r: (r[0]['property'], r[1])):
    s += '| `%s` | %s | %s |\n' % (i, m['property'], m['needs'].replace('|', '\\|'))
open(V + '/DESIGN.md', 'w').write(s)
