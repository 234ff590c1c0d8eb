"""Writes /verif/MANIFEST.json from properties.jsonl and harness/plan.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
from plan import PLAN  # noqa: E402

checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    pl = PLAN.get(p['id'])
    if pl is None:
        na.append({'property': p['id'], 'reason': 'the specification does not cover it yet'})
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check %s' % p['id'], 'thorough_cmd': './check --thorough %s' % p['id'],
                   'technique': pl.get('technique', 'explicit TLA+ specification: TLC checks its laws, its behaviours are replayed in the code, and traces recorded from the code are validated against it'),
                   'level': 'model_checking',
                   'level_note': pl.get('note', 'TLC checks the laws of the specification exhaustively within the bounds of its models and replays those behaviours in the code; beyond them, every '
                                        'recorded run of the code is checked step by step against the specification. Those runs are generated (seeded random plus fixed corner cases), so what was not generated was not seen. Trusts TLC, '
                                        'the projection of Python values (harness/proj.py) and that the specification reads Ion 1.0 correctly.')})
m = {'version': 1, 'setup_cmd': 'tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Python is PyPy 3.9 in /opt/venv (the interpreter the test suite uses).'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
