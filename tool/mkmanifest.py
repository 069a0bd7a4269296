#!/usr/bin/env python3
"""Writes MANIFEST.json from cppv/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from cppv.props import PROPS
try:
    from cppv.props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in ids:
    if p not in PROPS:
        continue
    s = PROPS[p]
    checks.append({
        'property': p,
        'quick_cmd': './check.sh %s quick' % p,
        'thorough_cmd': './check.sh %s thorough' % p,
        'technique': 'contract-based deductive verification of the real code (clang AST of /repo/src, symbolic execution against contracts, z3/cvc5)',
        'level': 'proof',
        'level_note': s.get('note', 'Every obligation generated from the current source is discharged for all inputs; trusts clang\'s AST, the verifier cppv, z3/cvc5 and the assumed library contracts listed in the evidence.'
                            + (' Assumes: ' + '; '.join(s['assumptions']) + '.' if s.get('assumptions') else '')),
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'contracts for this part are not finished yet; not claimed')} for p in ids if p not in PROPS],
     'notes': 'No hooks: the code under verification is read as it is. See DESIGN.md.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
