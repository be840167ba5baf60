#!/usr/bin/env python3
"""Differential test of the semantics the verifier assumes for the array library (engine/fakes.py, engine/arr.py)
against the installed library.

  python3 tools/conformance.py            # both sides, prints every disagreement, exit 1 if there is one

Every expression of tools/conformance_exprs.py is evaluated twice: by the stand-ins on symbolic arrays (with constant and
with symbolic sizes), whose result term - raw and in normal form - is then evaluated numerically, and by the real library
on the same numbers.  A stand-in may refuse an expression (outside the subset) but may not give another value or shape.
"""
import os
import sys
import json
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
JAXPY = '/opt/venv/bin/python'
DIMS = {'n': 4, 'm': 3, 'one': 1}
INPUTS = {
    'a': ('f', ('n', 'm')), 'b': ('f', ('n', 'm')), 'v': ('f', ('n',)), 'w': ('f', ('m',)), 'sq': ('f', ('m', 'm')), 't': ('f', ('n', 'm', 'm')),
    'c': ('f', ()), 'k': ('i', ('n',)), 'j': ('i', ()), 'mb': ('b', ('n', 'm')), 'vb': ('b', ('n',)), 'spd': ('f', ('m', 'm')), 'row': ('f', ('one', 'm')), 'pv': ('f', ('n',)),
}


def numbers():
    import random
    r = random.Random(7)

    def block(name, dt, sh):
        if not sh:
            return {'f': round(r.uniform(-2, 2), 3), 'i': 2, 'b': True}[dt]
        return [block(name, dt, sh[1:]) if len(sh) > 1 else
                {'f': round(r.uniform(0.2, 2) if name == 'pv' else r.uniform(-2, 2), 3), 'i': r.randrange(0, 3), 'b': r.random() < 0.5}[dt] for _ in range(sh[0])]
    out = {k: block(k, dt, [DIMS[d] for d in sh]) for k, (dt, sh) in INPUTS.items()}
    out['spd'] = [[2.0, 0.3, -0.2], [0.3, 1.5, 0.4], [-0.2, 0.4, 1.1]]
    return out


def exprs():
    if os.environ.get('CONF_EXPRS'):
        return [e.strip() for e in open(os.environ['CONF_EXPRS']) if e.strip()]
    ns = {}
    exec(open(HERE + '/conformance_exprs.py').read(), ns)
    return [e.strip() for e in ns['EXPRS'].strip().splitlines() if e.strip() and not e.strip().startswith('#')]


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    if isinstance(x, dict):
        return [z for k in sorted(x) for z in flat(x[k])]
    return [x]


def real():
    import numpy as np
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as jnp
    from jax import lax
    import jax.scipy as jsp
    import equinox as eqx
    N = numbers()
    env = {k: (jnp.asarray(N[k], dtype={'f': jnp.float64, 'i': int, 'b': bool}[dt])) for k, (dt, sh) in INPUTS.items()}
    env.update(n=DIMS['n'], m=DIMS['m'], one=1, jnp=jnp, jax=jax, lax=lax, jsp=jsp, eqx=eqx, np=np)
    out = []
    for e in exprs():
        try:
            r = eval(e, dict(env))
            out.append([[list(np.shape(x)), np.asarray(x, dtype=float).reshape(-1).tolist()] for x in flat(r)])
        except Exception as x:
            out.append('%s: %s' % (type(x).__name__, str(x)[:200]))
    print(json.dumps(out))


def fake(symbolic):
    sys.path.insert(0, os.path.dirname(HERE))
    sys.setrecursionlimit(20000)
    from engine import ctx, ir, arr, fakes, numeval, norm
    from engine.check import Sym
    from engine.arr import Arr, asarr, dT
    N = numbers()
    out = []
    for e in exprs():
        ctx.reset()
        s = Sym()
        dims = {d: (s.dim(d, DIMS[d]) if symbolic and d != 'one' else v) for d, v in DIMS.items()}
        for d, v in DIMS.items():
            s.ints[d] = v
        env = {}
        interp = dict(s.interp)

        def look(k):
            def f(v, *i):
                x = N[k]
                for q in i:
                    if not 0 <= q < len(x):
                        return 0       # an entry outside the array, under a condition that is false
                    x = x[int(q)]
                return x
            return f
        for k, (dt, sh) in INPUTS.items():
            env[k] = s.arr(k, tuple(dims[d] for d in sh), dt)
            interp[k] = look(k)
        env.update(n=dims['n'], m=dims['m'], one=1)
        env.update(jnp=fakes.jnp, jax=fakes.jax, lax=fakes.lax, jsp=fakes.jax.scipy, eqx=fakes.eqx, np=fakes.np if hasattr(fakes, 'np') else fakes.jnp)
        env.update({k: v for k, v in fakes.BUILTIN_HOOKS.items()})
        try:
            r = eval(e, env)
            res = []
            for x in flat(r):
                x = asarr(x)
                V = numeval.Val(1, interp, s.ints, s.reals)
                sh = [int(V.ev(dT(d))) for d in x.sh]
                vals = []

                def go(p, ix):
                    if p == len(sh):
                        t = x.fn(*[ir.const(q) for q in ix])
                        v1 = float(V.ev(t))
                        nn = norm.Norm()
                        tc = nn.canon(t)
                        v2 = float(numeval.Val(1, interp, s.ints, s.reals).ev(tc))
                        vals.append(v1)
                        if abs(v1 - v2) > 1e-6 * max(1, abs(v1)):
                            raise AssertionError('normal form differs: %r %r' % (v1, v2))
                        return
                    for q in range(sh[p]):
                        go(p + 1, ix + [q])
                go(0, [])
                # the same entries at symbolic indices
                ii = tuple(ctx.C.gen('i', ir.ZERO, dT(d)) for d in x.sh)
                if ii:
                    t = norm.Norm().canon(x.fn(*ii))
                    pos = 0
                    import itertools
                    for ix in itertools.product(*[range(z) for z in sh]):
                        Vi = numeval.Val(1, interp, s.ints, s.reals)
                        for a_, b_ in zip(ii, ix):
                            Vi.env[a_] = b_
                        v3 = float(Vi.ev(t))
                        if abs(v3 - vals[pos]) > 1e-6 * max(1, abs(v3)):
                            raise AssertionError('entry %s: %r at a symbolic index, %r' % (ix, v3, vals[pos]))
                        pos += 1
                res.append([sh, vals])
            out.append(res)
        except Exception as x:
            out.append('%s: %s' % (type(x).__name__, str(x)[:200]))
    print(json.dumps(out))


def main():
    if len(sys.argv) > 1:
        return real() if sys.argv[1] == 'real' else fake(sys.argv[1] == 'symbolic')
    root = os.path.dirname(HERE)
    ps = {k: subprocess.Popen([JAXPY if k == 'real' else 'python3-vt', os.path.abspath(__file__), k], stdout=subprocess.PIPE, text=True, cwd=root,
                              env=dict(os.environ, JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1')) for k in ('real', 'concrete', 'symbolic')}
    R = {k: json.loads(p.communicate()[0].strip().splitlines()[-1]) for k, p in ps.items()}
    bad = 0
    agree = {'concrete': 0, 'symbolic': 0}
    refused = []
    es = exprs()
    for n, e in enumerate(es):
        r = R['real'][n]
        for k in ('concrete', 'symbolic'):
            f = R[k][n]
            if isinstance(f, str):
                if f.startswith('AssertionError') or 'normal form' in f:
                    bad += 1
                    print('INCONSISTENT (%s): %s\n    %s' % (k, e, f))
                elif not isinstance(r, str):
                    refused.append((k, e, f))
                continue
            if isinstance(r, str):
                bad += 1
                print('ACCEPTED (%s) what the library rejects: %s\n    %s' % (k, e, r))
                continue
            ok = len(f) == len(r)
            for x, y in zip(f, r):
                ok = ok and x[0] == y[0] and all(abs(p - q) <= 1e-5 * max(1, abs(p), abs(q)) or p == q for p, q in zip(x[1], y[1]))
            if ok:
                agree[k] += 1
            else:
                bad += 1
                print('DISAGREE (%s): %s\n    stand-in %s\n    library  %s' % (k, e, f, r))
    if os.environ.get('SHOW'):
        for k, e, f in refused:
            print('refused (%s): %s: %s' % (k, e, f))
    print('%d expressions; agreeing: %d (constant sizes), %d (symbolic sizes); refused %d; disagreements %d' % (len(es), agree['concrete'], agree['symbolic'], len(refused), bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
