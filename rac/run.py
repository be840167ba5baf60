"""Run the runtime contract checks of one property on the real code.

usage: run.py C01 [--tier quick|thorough] [--seed N] [--out F] [--budget S] | run.py C01 --replay F
"""
import os
import sys
import json
import time
import argparse

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO + '/src')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--out')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--only')
    ap.add_argument('--replay')
    a = ap.parse_args()
    t0 = time.time()
    import importlib
    import warnings
    warnings.filterwarnings('ignore')
    import jax
    jax.config.update('jax_enable_x64', os.environ.get('RAC_X64', '1') == '1')
    from rac import lib
    lib.REC.install()
    res = {'property': a.prop, 'cases': 0, 'ok': 0, 'skipped': 0, 'failures': [], 'skips': {}, 'per_case': {}, 'samples': [], 'error': ''}
    try:
        try:
            import flowMC.Sampler  # noqa
            import flowMC
        except Exception as e:
            res['error'] = 'import: %s: %s' % (type(e).__name__, e)
            raise
        assert os.path.realpath(list(flowMC.__path__)[0]).startswith(os.path.realpath(REPO) + '/src'), flowMC.__path__
        importlib.import_module('rac.' + a.prop.lower())
        by = {n: f for n, f, _, _ in lib.CASES}
        if a.replay:
            d = json.load(open(a.replay))
            f = d.get('failing_input') or d
            st, msg, notes = lib.run_case(by[f['case']], f['seed'])
            print(json.dumps({'status': st, 'message': msg, 'inputs': notes}, indent=1, default=str))
            sys.exit(1 if st == 'fail' else 0)
        budget = a.budget or (60 if a.tier == 'quick' else 500)
        rounds = max(n for _, _, n, _ in lib.CASES) * (1 if a.tier == 'quick' else 12)
        if a.only:
            lib.CASES[:] = [c for c in lib.CASES if a.only in c[0]]
        for k in range(rounds):
            for name, f, n, slow in lib.CASES:
                if k >= n * (1 if a.tier == 'quick' else 12):
                    continue
                if k > 0 and time.time() - t0 > budget:
                    continue
                s = lib.seed_of(a.seed, name, k)
                t1 = time.time()
                st, msg, notes = lib.run_case(f, s)
                res['cases'] += 1
                pc = res['per_case'].setdefault(name, {'ok': 0, 'skip': 0, 'fail': 0, 'seconds': 0})
                pc[st] += 1
                pc['seconds'] = round(pc['seconds'] + time.time() - t1, 2)
                if st == 'ok':
                    res['ok'] += 1
                    if len(res['samples']) < 3:
                        res['samples'].append({'case': name, 'seed': s, 'inputs': notes})
                elif st == 'skip':
                    res['skipped'] += 1
                    res['skips'].setdefault(name, msg)
                else:
                    res['failures'].append({'case': name, 'seed': s, 'what': msg, 'inputs': notes})
            if len(res['failures']) >= 5:
                break
    except SystemExit:
        raise
    except BaseException as e:
        if not res['error']:
            import traceback
            res['error'] = 'runner: ' + traceback.format_exc()[-1500:]
    res['wall_s'] = round(time.time() - t0, 2)
    if a.out:
        json.dump(res, open(a.out, 'w'), indent=1, default=str)
    else:
        print(json.dumps(res, indent=1, default=str))


main()
