#!/usr/bin/env python3
"""table.py   the table of planted changes for DESIGN.md"""
import json, os
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
rows = []
for i in os.listdir(S):
    m = json.load(open(os.path.join(S, i, 'meta.json')))
    rows.append((m['property'], i, m['needs'].replace('\n', ' ').replace('|', '/')))
print('| property and check | change | needs |\n|---|---|---|')
for r in sorted(rows):
    print('| %s | `%s` | %s |' % r)
