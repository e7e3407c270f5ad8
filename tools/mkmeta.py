"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['quant']},
                            'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'],
                                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                                        'observe_at': p.get('observe', [])}}) + '\n')
checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')) and not p.get('na'):
        checks.append({'property': p['id'],
                       'quick_cmd': './check.sh %s' % p['id'],
                       'thorough_cmd': 'VERIF_TIER=thorough ./check.sh %s' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': p['technique'], 'level': p.get('level', 'model_checking'),
                       'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': p.get('na', 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Specifications in TLA+ (spec/), checked with TLC; conformance drivers in checks/ and lib/. '
              'No hooks are compiled into the repository: the drivers use its public objects.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
assert all(len(p['title']) <= 80 for p in PROPS), [p['title'] for p in PROPS if len(p['title']) > 80]
print(len(checks), 'claimed', len(na), 'not')
