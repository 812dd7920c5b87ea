#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import json, os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
rows = []
for d in os.listdir(D):
    m = json.load(open(os.path.join(D, d, 'meta.json')))
    rows.append((m['property'], d, m['what_it_breaks']))
print('| bug | caught by | what it breaks |\n|---|---|---|')
for p, d, w in sorted(rows):
    print('| %s | %s | %s |' % (d, p, w))
