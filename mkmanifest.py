#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, sys
CLAIMED = sys.argv[1].split(',')
ALL = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {
 'C20': 'Pure value arithmetic on SGR attributes: no concurrency, time, I/O, fault or history for a simulator to control.',
 'C21': 'Pure functions of a byte string: no concurrency, time, I/O, fault or history for a simulator to control (what fragmentation does to decoding is C01 and C07).',
 'C22': 'Pure functions on in-memory grids, bitmaps and points: no concurrency, time, I/O, fault or history for a simulator to control.',
}
note = ('Seeded random search over schedules, input timing and faults in a deterministic simulator that runs the real code (rewritten with schedule points); '
        'no violation in the explored runs is evidence, not proof. Trusts the simulated kernel/terminal/runtime and the reference models described in DESIGN.md.')
checks, na = [], []
for p in ALL:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif i in CLAIMED:
        checks.append({'property': i, 'quick_cmd': f'./run.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./run.sh {i}',
            'evidence_file': f'evidence/{i}.json', 'technique': 'deterministic simulation with fault injection, seeded schedule search',
            'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'Not claimed yet: its simulation is still being built.'})
m = {'version': 1, 'setup_cmd': './run.sh setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks rewrite a scratch copy of its sources so that every source of nondeterminism goes through the simulator. Replay a violation with ./run.sh replay FILE.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json','a').write('\n')
