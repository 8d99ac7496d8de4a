"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NA, NOTES

with open(HERE + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['all']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
TECH = ('contract-based deductive verification: pre/postconditions on the real functions, '
        'obligations generated from the current source by pvc and discharged by z3')
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': NA, 'notes': NOTES}
for p in PROPS:
    if p['id'] in {x['property'] for x in NA}:
        continue
    m['checks'].append({
        'property': p['id'], 'quick_cmd': f"python3-vt check.py {p['id']}",
        'thorough_cmd': f"python3-vt check.py {p['id']} --tier thorough",
        'evidence_file': f"evidence/{p['id']}.json", 'technique': p.get('technique', TECH),
        'level': p.get('level', 'proof'), 'level_note': p['note']})
with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
