#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quantifier']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': p['mechanism'], 'where': ', '.join(p['files'])}]}}
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(d) + '\n')
na = {e['property'] for e in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p['id'] in na:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': './check %s quick' % p['id'],
        'thorough_cmd': './check %s thorough' % p['id'],
        'technique': 'path-complete symbolic execution of the current Python source with z3 deciding every branch and assertion',
        'level': 'model_checking',
        'level_note': p['note'] + ' Bounded: holds for every value within the bounds recorded in the evidence file, nothing is '
        'claimed outside. Trusts the Python-level symbolic execution engine in /verif/sx (each path is also run concretely on '
        'the unmodified code and compared) and z3.',
    })
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && chmod +x check', 'checks': checks,
               'not_applicable': NOT_APPLICABLE,
               'notes': 'No hooks in /repo: the engine instruments a private in-memory copy of the current source.'}, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties', len(checks), 'checks')
import design  # noqa: F401  (writes DESIGN.md)
