#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from the registered scenarios."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import registry
import check
check.load()
NA = {
    'C39': 'BoundSphere is a stub in this codebase: every bound operation of it is unimplemented!(), so there is no code to encode',
}
NOTE = ('Holds for every real input inside the boxes of the scenarios (evidence lists them), for every branch of the optimised LLVM IR of the real functions; '
        'float operations are read as real arithmetic, so rounding, overflow and NaN propagation are outside unless a bit-precise scenario says otherwise. '
        'Each counterexample is replayed on the natively compiled crate (opt and debug) before it is reported.')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    ts = registry.TASKS.get(i)
    if not ts:
        na.append({'property': i, 'reason': NA.get(i, 'not claimed: no check built')})
        continue
    kinds = {t.kind for t in ts}
    tech = {('real',): 'symbolic execution of the LLVM IR over the reals, nonlinear real arithmetic SMT (z3)',
            ('fp',): 'symbolic execution of the LLVM IR, floating-point SMT (z3 QF_FP)',
            ('fp', 'real'): 'symbolic execution of the LLVM IR, real-arithmetic and floating-point SMT (z3)'}[tuple(sorted(kinds))]
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': 'model_checking', 'level_note': NOTE})
m = {'version': 1, 'setup_cmd': 'python3-vt check.py --setup', 'checks': checks, 'not_applicable': na}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
