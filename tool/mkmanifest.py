#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from engine/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 engine/check.py %s quick' % i, 'thorough_cmd': 'python3 engine/check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    else:
        na.append({'property': i, 'reason': props.NA.get(i, 'the analysis for this property is not built yet')})
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
