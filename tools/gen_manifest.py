#!/usr/bin/env python3
"""writes MANIFEST.json; a property without an entry in TECH goes under not_applicable"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
TECH = {}
exec(open(os.path.join(here, 'tech.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in TECH:
        t, note = TECH[i]
        checks.append({
            'property': i,
            'quick_cmd': f'./check.sh {i} quick',
            'thorough_cmd': f'./check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': t,
            'level': 'exploration',
            'level_note': note,
        })
    else:
        na.append({'property': i, 'reason': 'the check is not built yet'})
hooks = {'guard': 'cfg(miri)', 'enable': 'cargo +nightly miri run (in /verif/miri) sets cfg(miri); the other builds use no hook', 'source_commits': HOOKS}
m = {'version': 1, 'setup_cmd': './build.sh ' + SETUP, 'hooks': hooks, 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
