#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (vf/catalog.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf.catalog import CATALOG, NOT_CLAIMED, NOTES

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in CATALOG + [n['prop'] for n in NOT_CLAIMED if 'prop' in n]:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p.get('over', ['inputs', 'configurations']), 'text': p['forall']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'hook_needed': None}}) + '\n')
    checks = []
    for p in CATALOG:
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
            'technique': p.get('technique', 'TLA+ specification model-checked with TLC; its behaviours replayed into the real code and recorded calls judged by a TLC trace specification'),
            'level': 'model_checking',
            'level_note': p['note'],
        })
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
         'not_applicable': [{'property': n['id'], 'reason': n['reason']} for n in NOT_CLAIMED], 'notes': NOTES}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')

main()
