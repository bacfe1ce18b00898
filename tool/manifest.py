#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks and the not-applicable reasons."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
exec(open(os.path.join(V, 'tool', 'claims.py')).read())
checks = []
for p in props:
    i = p['id']
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 checks/run.py {i}', thorough_cmd=f'python3 checks/run.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=tech, level='other', level_note=note))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'no check has been built for it yet')) for p in props if p['id'] not in CLAIMS]
m = dict(version=1, setup_cmd='bash tool/setup.sh', checks=checks, not_applicable=na)
if HOOKS:
    m['hooks'] = HOOKS
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
