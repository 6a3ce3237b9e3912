#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks (mc/c*.py)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read(), T)
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, 'mc', i.lower() + '.py')):
        t, note = T['TECH'][i]
        checks.append(dict(property=i, quick_cmd='bash check.sh %s quick' % i,
                           thorough_cmd='bash check.sh %s thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=t, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason=T['NA'].get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys; print(sys.version)"',
         checks=checks, not_applicable=na)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
