#!/usr/bin/env python3
"""Regenerate MANIFEST.json from checks/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checks'))
from props import PROPS
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
NA = {}
checks = []
for i in ids:
    if i not in PROPS:
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py --property %s --tier quick' % i,
        'thorough_cmd': 'python3 check.py --property %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'symbolic execution of the LLVM IR of the library, assertions decided by Z3, counterexamples replayed natively',
        'level': 'model_checking',
        'level_note': PROPS[i].get('note', 'Bounded: every path of the real library code over all inputs within the entry bounds recorded in the evidence file; '
                      'nothing is claimed beyond them. Trusts clang 18, the executor in engine/ (spot-checked by native replay of sampled paths), its C/C++ runtime model, and Z3.'),
    })
na = [{'property': i, 'reason': NA.get(i, 'no check built yet')} for i in ids if i not in PROPS]
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo: checks compile the sources of the current working tree as they are.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
