"""Writes /verif/MANIFEST.json from the plan."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import plan

props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
TECH = 'TLA+ specification (%s): TLC model checking, plus conformance of the real code: %s'
NOTE = ('The specification is checked exhaustively within small bounds; the code is bound to it by the executions '
        'explored (seeded random, stress-profiled, and/or generated from the specification), each judged in full by '
        'TLC.  Trusts TLC, the recorder in harness/ and the loader that builds the working tree.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in plan.DONE:
        mods, how = plan.DONE[i]
        checks.append({'property': i, 'quick_cmd': './check %s' % i,
                       'thorough_cmd': './check %s --tier thorough' % i,
                       'technique': TECH % (mods, how), 'level': 'model_checking', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 harness/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the machinery observes the public interface only.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
