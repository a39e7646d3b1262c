#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + p['id'],
                 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                 'technique': p['tech'], 'level': 'other', 'level_note': p['note']} for p in props.PROPS if 'na' not in p],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in props.PROPS if 'na' in p],
     'notes': props.NOTES}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
