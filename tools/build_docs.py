"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NOT_APPLICABLE:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -c "import ast"', 'checks': [], 'not_applicable': [], 'notes': NOTES}
for p in PROPS:
    man['checks'].append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s' % p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']})
for p in NOT_APPLICABLE:
    man['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
