#!/usr/bin/env python3
"""Write MANIFEST.json from the checks that exist and the reasons recorded here."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(V, 'tools/manifest_notes.py')).read(), NOTES)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
have = {f[:-3].upper() for f in os.listdir(os.path.join(V, 'owcstatic/checks')) if f[0] == 'c' and f.endswith('.py')}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have and i not in NOTES['HOLD']:
        tech, note = NOTES['CLAIM'][i]
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': tech, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NOTES['NA'].get(i, 'no check has been built for it yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; sys.exit(sys.version_info < (3, 9))"', 'checks': checks,
           'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
