#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
ns = {}
exec(open(here + '/props.py').read(), ns)
with open(root + '/properties.jsonl', 'w') as f:
    for p in ns['PROPS']:
        q = p['quantifier']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': q[0], 'text': q[1]},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                        'observe_at': p['observe']},
        }) + '\n')
checks, na = [], []
for p in ns['PROPS']:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({'property': p['id'],
                   'quick_cmd': './check.sh %s quick' % p['id'],
                   'thorough_cmd': './check.sh %s thorough' % p['id'],
                   'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': './check.sh build', 'checks': checks, 'not_applicable': na},
          open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
