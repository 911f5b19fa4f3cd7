#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/props.py and properties.jsonl."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'bin'))
from props import PROPS
NA = {
    'P30': 'Parsing one schema line is a pure function of its text: no schedule, clock, I/O, crash or history is involved, so a simulated execution has nothing to decide; it would be plain input fuzzing.',
    'P31': 'String alignment is a pure function of its two arguments; there is no nondeterminism or fault for a simulator to control.',
    'P32': 'Schema translation is a pure function of the schema; there is no nondeterminism or fault for a simulator to control.',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({
            'property': i,
            'quick_cmd': 'bin/check %s quick' % i,
            'thorough_cmd': 'bin/check %s thorough' % i,
            'evidence_file': '/verif/evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection: ' + p['technique'],
            'level': 'exploration',
            'level_note': p['note'],
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'The simulated world that decides it is still being built.')})
sha = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
json.dump({'version': 1, 'setup_cmd': 'bash bin/setup.sh',
           'hooks': {'guard': 'HIRM_SIM', 'enable': 'No hook in /repo was needed: every seam (clock, file descriptors, allocation, exit) is interposed when the simulator is linked, so nothing in /repo is guarded by HIRM_SIM.', 'source_commits': []},
           'checks': checks, 'not_applicable': na}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
