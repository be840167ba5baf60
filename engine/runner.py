"""Prove the contracts of one property: python3-vt -m engine.runner C01 --tier quick --out F"""
import sys
import json
import time
import argparse
import importlib
import resource

sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    from engine import lean
    m = importlib.import_module('contracts.' + a.prop.lower())
    jobs = lean.start(getattr(m, 'LEMMAS', None))      # before the memory limit, which is ours alone
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    from engine.check import Check
    t0 = time.time()
    ck = Check(a.prop, a.tier)
    import io
    import contextlib
    err = ''
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            m.run(ck)
        except BaseException as e:
            import traceback
            err = traceback.format_exc()[-1500:]
    lean.finish(ck, jobs)
    how = {}
    for o in ck.obs:
        if o.status == 'discharged':
            how[o.how] = how.get(o.how, 0) + 1
    res = {'property': a.prop, 'obligations': [o.json() for o in ck.obs], 'functions': ck.functions, 'units': ck.units,
           'assumptions': ck.assumptions, 'paths': ck.paths, 'covers': ck.covers, 'divisors_shown_nonzero': ck.div_proved, 'backends': how,
           'error': err, 'wall_s': round(time.time() - t0, 2)}
    s = json.dumps(res, indent=1, default=str)
    if a.out:
        open(a.out, 'w').write(s)
    else:
        print(s)


main()
