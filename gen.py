#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from pbt/spec.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pbt import spec

NOTE = ('Searches generated inputs against an independent oracle; no proof. A quiet run means no counterexample among the cases counted '
        'in the evidence file. Trusts CPython, Hypothesis and the reference models in /verif/pbt.')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in spec.S.values():
        f.write(json.dumps({k: v for k, v in p.items() if k != 'note'}) + '\n')
man = {'version': 1, 'setup_cmd': 'python3-vt -c "import hypothesis"',
       'checks': [{'property': p['id'], 'quick_cmd': f'python3-vt check.py {p["id"]}',
                   'thorough_cmd': f'python3-vt check.py {p["id"]} --tier thorough',
                   'technique': 'property-based testing (Hypothesis) against a reference model, with shrinking', 'level': 'exploration',
                   'level_note': (NOTE + ' ' + p['note']).strip()} for p in spec.S.values()],
       'not_applicable': []}
for p in spec.S.values():
    assert len(p['title']) <= 80, p['id']
    assert os.path.exists(os.path.join(HERE, 'pbt/props', p['id'].lower() + '.py')), p['id']
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
