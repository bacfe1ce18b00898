#!/usr/bin/env python3
"""writes the table of planted bugs into DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeds -->', '| Seed | Caught by | What it breaks |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} |")
rows.append('<!-- /seeds -->')
p = V + '/DESIGN.md'
s = open(p).read()
t = '\n'.join(rows)
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
