#!/usr/bin/env python3
"""Decide one property on the code in /repo (or $VERIF_REPO).

  check.py C01 [--tier quick|thorough]

The deductive verifier discharges the obligations generated from the current source; a bounded runtime check of the
same contracts on the real code runs beside it, to replay violations and to stand in where an obligation is undecided.
Exit 0: nothing violated.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import os
import sys
import json
import time
import subprocess
import argparse
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
JAXPY = '/opt/venv/bin/python'
VTPY = shutil.which('python3-vt') or sys.executable

TRUSTED = [
    'CPython executing the loaded flowMC modules (the source text of /repo/src is executed verbatim; nothing is dropped from it)',
    'engine/fakes.py, engine/arr.py: the semantics given to jax/numpy/equinox/optax/diffrax/tqdm operations (array operations over exact reals; random draws, gradients and library internals as uninterpreted functions)',
    'engine/ir.py, engine/norm.py, engine/prove.py: rewriting to normal form, induction schemes and the translation to SMT',
    'z3 4.x (python3-vt) and cvc5 where an obligation is sent to an SMT solver',
    'reals for floats: machine arithmetic is treated as mathematical except in C05 and in the ieee units of C09, C15 and C21 (IEEE binary32 and binary64 in z3)',
    'Lean 4 and Mathlib for the lemmas of /verif/lean (no flowMC code in them)',
]


def env(seed):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', VERIF_REPO=REPO, PYTHONPATH=HERE,
             XLA_FLAGS=e.get('XLA_FLAGS', ''), TQDM_DISABLE='1')
    return e


def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for f in json.load(open(p)).get('findings', []):
            if f['property'] == prop:
                out.append(f)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-rac', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    a = ap.parse_args()
    prop = a.prop.upper()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        return decide(a, prop, tier, seed, t0, ev, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(a, prop, tier, seed, t0, ev, tmp):
    limit = 780 if tier == 'quick' else 7000
    procs = {}
    if not a.no_proof:
        procs['proof'] = subprocess.Popen([VTPY, '-m', 'engine.runner', prop, '--tier', tier, '--out', tmp + '/proof.json'],
                                          cwd=HERE, env=env(seed), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not a.no_rac and os.path.exists(os.path.join(HERE, 'rac', prop.lower() + '.py')):
        procs['rac'] = subprocess.Popen([JAXPY, os.path.join(HERE, 'rac', 'run.py'), prop, '--tier', tier, '--seed', str(seed), '--out', tmp + '/rac.json'],
                                        cwd=tmp, env=env(seed), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if tier == 'thorough':      # the semantics assumed for the array library against the installed one
        procs['conformance'] = subprocess.Popen([VTPY, os.path.join(HERE, 'tools', 'conformance.py')], cwd=HERE, env=env(seed), stdout=subprocess.PIPE,
                                                stderr=subprocess.STDOUT, text=True)
    outs = {}
    for k, p in procs.items():
        try:
            outs[k], _ = p.communicate(timeout=max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            outs[k], _ = p.communicate()
            outs[k] = (outs[k] or '') + '\n[timed out]'

    def load(k):
        try:
            return json.load(open(tmp + '/%s.json' % k))
        except Exception:
            return {'error': 'no result: ' + (outs.get(k) or '')[-1500:]} if k in procs else None
    proof, rac = load('proof'), load('rac')
    obs = (proof or {}).get('obligations', [])
    disch = [o for o in obs if o['status'] == 'discharged']
    on_code = [o for o in disch if '.lemma/' not in o['id']]
    refuted = [o for o in obs if o['status'] == 'refuted']
    undec = [o for o in obs if o['status'] == 'undecided']
    fails = (rac or {}).get('failures', [])
    kf = known(prop)

    def is_known(ident):
        return any(f['id'] in ident for f in kf)
    kprinted = [f for f in kf if any(f['id'] in o['id'] for o in refuted) or any(f['id'] in x['case'] for x in fails)]
    refuted_new = [o for o in refuted if not is_known(o['id'])]
    fails_new = [f for f in fails if not is_known(f['case'])]
    viol = bool(refuted_new or fails_new)
    replay = os.path.join(ev, 'replay_%s.json' % prop)
    if viol:
        json.dump({'property': prop, 'repo': REPO, 'seed': seed, 'tier': tier,
                   'failed_obligations': refuted_new, 'undecided_obligations': undec,
                   'failing_input': fails_new[0] if fails_new else None, 'all_failing_inputs': fails_new,
                   'rerun': '%s %s/rac/run.py %s --replay %s' % (JAXPY, HERE, prop, replay) if fails_new else
                   'cd %s && python3-vt check.py %s --tier %s' % (HERE, prop, tier),
                   'verifier_output': refuted_new}, open(replay, 'w'), indent=1, default=str)
    elif os.path.exists(replay):
        os.remove(replay)
    wall = round(time.time() - t0, 2)
    write_evidence(ev, prop, tier, seed, wall, proof, rac, obs, disch, refuted, undec, fails, int(viol), (outs.get('conformance') or '').strip().splitlines()[-1:])
    print('%s %s: %d obligations, %d discharged, %d refuted, %d undecided; runtime contracts: %s; %.1f s' % (
        prop, tier, len(obs), len(disch), len(refuted), len(undec),
        'none' if rac is None else '%d cases, %d ok, %d skipped, %d failures' % (rac.get('cases', 0), rac.get('ok', 0), rac.get('skipped', 0), len(fails)), wall))
    for o in undec[:20]:
        print('  undecided (bounded stand-in used): %s: %s %s' % (o['id'], o.get('how', ''), o.get('detail', '')[:300]))
    for k, r in (('proof', proof), ('rac', rac)):
        if r and r.get('error'):
            print('  %s error: %s' % (k, r['error'][:1200]))
    for f in kprinted:
        print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    if viol:
        for o in refuted_new[:10]:
            print('  failed obligation %s: %s | %s' % (o['id'], o.get('statement', ''), o.get('detail', '')[:600]))
        for f in fails_new[:5]:
            print('  failing input %s seed=%s: %s' % (f['case'], f['seed'], f['what'][:600]))
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if fails_new else ' no-failing-input-found'))
        return 1
    # nothing violated: a verdict needs at least one of the two sides to have worked
    p_ok = proof is not None and not proof.get('error') and on_code
    r_ok = rac is not None and not rac.get('error') and rac.get('ok', 0) > 0
    if not p_ok and not r_ok:
        print('no verdict: neither the verifier nor the runtime check worked')
        return 2
    return 0


def write_evidence(ev, prop, tier, seed, wall, proof, rac, obs, disch, refuted, undec, fails, viol, conf=()):
    proof = proof or {}
    cov = {
        'obligations': len(obs), 'discharged': len(disch),
        'checker_cmd': 'python3-vt -m engine.runner %s --tier %s' % (prop, tier),
        'trusted_base': TRUSTED,
        'functions_under_contract': proof.get('functions', {}),
        'units': proof.get('units', []),
        'discharged_by': proof.get('backends', {}),
        'solver_seconds': round(sum(o.get('seconds', 0) for o in obs), 2),
        'paths_explored': proof.get('paths', 0), 'non_vacuity_covers': proof.get('covers', 0),
        'divisors_shown_nonzero': proof.get('divisors_shown_nonzero', 0),
        'refuted': [o['id'] for o in refuted], 'undecided': [{'id': o['id'], 'why': (o.get('how', '') + ' ' + o.get('detail', ''))[:300]} for o in undec],
        'obligation_list': [{'id': o['id'], 'status': o['status'], 'by': o.get('how', '')} for o in obs],
    }
    if conf:
        cov['library_semantics_conformance'] = conf[0]
    if rac is not None:
        cov['bounded_runtime_contracts'] = {
            'label': 'bounded: sampled executions of the real code, not counted as proved',
            'cases': rac.get('cases', 0), 'ok': rac.get('ok', 0), 'skipped': rac.get('skipped', 0), 'failures': len(fails),
            'per_case': rac.get('per_case', {}), 'samples': rac.get('samples', []), 'skips': rac.get('skips', {}), 'error': rac.get('error', ''), 'wall_s': rac.get('wall_s', 0)}
    d = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
         'assumptions': proof.get('assumptions', []) + ['floating point arithmetic treated as exact real arithmetic'] * (prop != 'C05'),
         'wall_s': wall, 'violations': viol}
    json.dump(d, open(os.path.join(ev, prop + '.json'), 'w'), indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
