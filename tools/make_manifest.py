"""Writes MANIFEST.json from properties.jsonl."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ('Randomly driven histories of the real library, every reply and the contents of every family checked by TLC '
        'against the TLA+ specification: exact on what was driven, sampled over inputs. Trusts the driver\'s '
        'translation of objects and the definitions in spec/.')
TECH = ('TLA+ specification of the library\'s state machine (spec/Graphillion.tla); TLC validates histories recorded from '
        'the real library against it (Trace.tla) and, for families too large to list, explores the product of dumped '
        'decision diagrams with specification automata (Diagram.tla, Frontier.tla)')
m = {'version': 1, 'setup_cmd': 'python3 harness/build.py', 'checks': [], 'not_applicable': [],
     'notes': 'Decided with TLA+ (TLC); see DESIGN.md. No hooks in /repo are needed: the abstract state is '
              'observable through the public API.'}
for p in props:
    m['checks'].append({
        'property': p['id'], 'quick_cmd': 'python3 harness/run_check.py ' + p['id'],
        'thorough_cmd': 'python3 harness/run_check.py ' + p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': TECH,
        'level': 'model_checking', 'level_note': NOTE})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
