#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from the tables below and engine/plan.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine'); sys.path.insert(0, V + '/tools')
from plan import PLAN
from props import PROPS, NA, LEVEL
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS: f.write(json.dumps(p) + '\n')
checks = []; na = []
for p in PROPS:
    i = p['id']
    if i in PLAN and i not in NA:
        n = len([e for e in PLAN[i]['entries'] if e.get('kind', 'proof') == 'proof']); b = len([e for e in PLAN[i]['entries'] if e.get('kind') == 'bounded'])
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
            'technique': 'contract-based deductive verification of the LLVM IR of the real functions (SMT)' + (' plus labelled bounded stand-ins' if b else ''),
            'level': 'proof' if n else 'other', 'level_note': LEVEL.get(i, 'every obligation from the contracts on the functions in reach is discharged for all inputs; entries labelled bounded in the evidence are randomised stand-ins, not proof; assumptions are in the evidence and DESIGN.md')})
    else: na.append({'property': i, 'reason': NA.get(i, 'machinery not finished yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 engine/selftest.py', 'checks': checks, 'not_applicable': na, 'notes': 'see DESIGN.md'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
