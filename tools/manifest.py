#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS and all(os.path.isdir(os.path.join(HERE, 'h', b['harness'])) for b in CHECKS[i]['builds']):
        c = CHECKS[i]
        race = any(b.get('race') for b in c['builds'])
        tech = c.get('technique') or (
            'runtime monitoring: ' + ('online/offline trace monitors under the Go race detector with schedule perturbation' if race
                                      else 'reference-model oracle over generated and hostile inputs run on the real code'))
        checks.append(dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 run.py ' + i,
                           technique=tech, level='exploration',
                           level_note=c.get('note') or ('Held on the executions observed (counted in the evidence file), for the seed given. '
                                    + ('Schedules are sampled, not enumerated; the race detector only sees interleavings close to those that ran.' if race else
                                       'Inputs are generated from the seed plus exhaustive small scopes; trusts the reference model in the harness.'))))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check yet')))
m = dict(version=1, setup_cmd='bash setup.sh',
         hooks=dict(guard='none', enable='No hooks in /repo: harnesses, stand-ins and schedule perturbation are injected with go build -overlay.', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Every check builds its harness from h/ into the module under /repo through an overlay, so it always runs the current working tree. See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
