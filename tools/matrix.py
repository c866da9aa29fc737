#!/usr/bin/env python3
"""Rewrites the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + '/DESIGN.md').read()
head = d[:d.index('(seed 1):') + len('(seed 1):')]
rows = ['', '', '| bug | caught by | needs |', '|---|---|---|']
for b in sorted(os.listdir(V + '/seeded'), key=lambda x: int(x[1:])):
    m = json.load(open(f'{V}/seeded/{b}/meta.json'))
    rows.append('| %s | %s | %s |' % (b, m['property'], re.sub(r'\s+', ' ', m['needs']).replace('|', '/')))
open(V + '/DESIGN.md', 'w').write(head + '\n'.join(rows) + '\n')
