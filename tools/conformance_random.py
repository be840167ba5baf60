#!/usr/bin/env python3
"""Random compositions for tools/conformance.py: python3 tools/conformance_random.py SEED COUNT > F; CONF_EXPRS=F python3 tools/conformance.py

Expressions are grown from the inputs by random operations - slices and indices also outside the bounds, updates, joins,
reductions, maps and loops - so that stand-ins are compared where they meet one another.  (Runs under the library's Python.)"""
import os
import sys
import json
import random
import subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import conformance as cf


def bound(r, d):
    return r.choice(['', '', str(r.randint(-d - 2, d + 2)), str(r.randint(0, d)), 'j', '-j', 'n', 'm', 'm - 1', 'n - 1', '1', '-1', 'j + 1'])


def static(r, d):
    return r.choice(['', '', str(r.randint(-d - 2, d + 2)), str(r.randint(0, d)), 'n', 'm', 'm - 1', 'n - m', 'n // 2', '1', '-1', '-m', '2 - n'])


def index(r, d, sh):
    u = r.random()
    if u < 0.3:
        s = ':' + static(r, d) if r.random() < 0.5 else static(r, d) + ':' + static(r, d)
        return s + ('::-1'[1:] if False else '')
    if u < 0.4:
        return '::%s' % r.choice(['-1', '2', '3'])
    if u < 0.6:
        return str(r.randint(-d - 1, d + 1))
    if u < 0.7:
        return 'j' if r.random() < 0.6 else 'j - %d' % r.randint(1, 4)
    if u < 0.8:
        return 'k %% %d' % max(d, 1)
    if u < 0.85:
        return 'k - 1'
    if u < 0.9:
        return 'None'
    return ':'


UN = ['jnp.exp(-abs(%s))', '-(%s)', 'jnp.tanh(%s)', '(%s) ** 2', '0.5 * (%s) + 1', 'jnp.clip(%s, -0.5, 0.7)', 'jnp.where((%s) > 0, %s, -1.0)', 'jnp.sign(%s)', 'jnp.maximum(%s, 0.1)', 'jnp.sqrt(abs(%s) + 1)']
BIN = ['(%s) + (%s)', '(%s) * (%s)', '(%s) - (%s)', 'jnp.maximum(%s, %s)', 'jnp.where((%s) > 0.1, %s, c)']


def grow(r, e, sh, others):
    nd = len(sh)
    u = r.random()
    if u < 0.18:
        f = r.choice(UN)
        return f % ((e,) * f.count('%s'))
    if u < 0.34:
        o = r.choice(others)[0]
        p = [e, o]
        r.shuffle(p)
        return r.choice(BIN) % tuple(p)
    if nd and u < 0.54:
        ix = ', '.join(index(r, sh[i], sh) for i in range(r.randint(1, nd)))
        return '(%s)[%s]' % (e, ix)
    if nd and u < 0.62:
        f = r.choice(['jnp.sum', 'jnp.mean', 'jnp.max', 'jnp.min', 'jnp.cumsum', 'jnp.prod'])
        ax = r.randint(-nd, nd - 1)
        kd = ', keepdims=True' if f not in ('jnp.cumsum',) and r.random() < 0.3 else ''
        return '%s(%s, axis=%d%s)' % (f, e, ax, kd)
    if nd and u < 0.70:
        ix = ', '.join(index(r, sh[i], sh) for i in range(r.randint(1, nd))).replace('None', ':')
        return '(%s).at[%s].%s(%s)' % (e, ix, r.choice(['set', 'set', 'add', 'multiply', 'max']), r.choice(['2.5', 'c', '0.0', r.choice(others)[0]]))
    if nd and u < 0.76:
        ax = r.randint(-nd, nd - 1)
        o = r.choice([x for x in others if len(x[1]) == nd] or [(e, sh)])[0]
        return 'jnp.concatenate([%s, %s], axis=%d)' % (e, o, ax) if r.random() < 0.7 else 'jnp.stack([%s, %s], axis=%d)' % (e, o, ax)
    if nd and u < 0.82:
        return r.choice(['jnp.swapaxes(%s, 0, -1)', '(%s).reshape(-1)', '(%s).T', 'jnp.flip(%s, axis=0)', 'jnp.roll(%s, 1, axis=0)', 'jnp.expand_dims(%s, -1)', 'jnp.atleast_2d(%s)', 'jnp.repeat(%s, 2, axis=0)', 'jnp.diff(%s, axis=0)'] +
                        (['jnp.diag(%s)', 'jnp.trace(%s)', 'jnp.diagonal(%s)'] if nd == 2 else [])) % e
    if nd and u < 0.90:
        b = r.choice(['x * 2 + c', 'x.sum() * x', 'x[0] if x.ndim else x', 'jnp.where(c > 0, x, -x)', 'x.max()', 'x + v[0]', 'lax.cond(jnp.sum(x) > 0, lambda: x, lambda: -x)', 'lax.scan(lambda s, y: (s + 1.0, s * jnp.sum(y)), 0.5, v)[1] + jnp.sum(x)',
                      'lax.fori_loop(0, 3, lambda i, q: q + i * x, x)'])
        kind = r.random()
        if kind < 0.5:
            ax = r.randint(-nd, nd - 1)
            oa = r.randint(0, nd - 1) if r.random() < 0.3 else 0
            return 'jax.vmap(lambda x: %s, in_axes=%d)(%s)' % (b, ax, e)
        if kind < 0.75:
            return 'lax.scan(lambda s, x: (s * 0.5 + jnp.sum(x), s + x), c, %s%s)[%d]' % (e, ', reverse=True' if r.random() < 0.3 else '', r.randint(0, 1))
        return 'lax.fori_loop(%s, %s, lambda i, q: q * 0.5 + jnp.sum((%s)[i]), c)' % (r.choice(['0', '1', 'j']), r.choice(['n', 'm', 'm - 1', '2']), e)
    if nd and u < 0.96:
        k = r.randint(1, 3)
        return r.choice(['lax.dynamic_slice_in_dim(%s, j - ' + str(r.randint(-3, 3)) + ', ' + str(k) + ', axis=0)', 'jnp.take(%s, k %% 2, axis=0)', 'lax.dynamic_index_in_dim(%s, j - ' + str(r.randint(-2, 4)) + ', axis=0, keepdims=False)',
                         'jnp.split(%s, [1], axis=0)[1]', 'jnp.pad(%s, 1)', 'jnp.tile(%s, 2)', 'jnp.broadcast_to(%s, (2, ) + (%s).shape)']).replace('%%', '%%').replace('(%s).shape', '(EE).shape').replace('%s', e).replace('(EE)', '(' + e + ')').replace('%%', '%')
    o = r.choice([x for x in others if len(x[1]) >= 1] or others)[0]
    return r.choice(['jnp.dot(%s, %s)', '(%s) @ (%s)', 'jnp.outer(%s, %s)']) % (e, o)


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    import numpy as np
    import jax
    import warnings
    warnings.filterwarnings('ignore')
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as jnp
    from jax import lax
    N = cf.numbers()
    env = {k: (jnp.asarray(N[k], dtype={'f': jnp.float64, 'i': int, 'b': bool}[dt])) for k, (dt, sh) in cf.INPUTS.items()}
    env.update(n=4, m=3, one=1, jnp=jnp, jax=jax, lax=lax)
    r = random.Random(seed)
    base = [(k, tuple(cf.DIMS[d] for d in sh)) for k, (dt, sh) in cf.INPUTS.items() if dt == 'f']
    pool, out = list(base), []
    while len(out) < count:
        e, sh = r.choice(pool[-40:] if r.random() < 0.5 else base)
        t = grow(r, e, sh, base + pool[-10:])
        if len(t) > 220:
            continue
        try:
            x = eval(t, dict(env))
            s2 = np.shape(x)
            if len(s2) > 3 or np.size(x) > 60 or not np.all(np.isfinite(np.asarray(x, float))):
                continue
            pool.append((t, s2))
        except Exception:
            if r.random() < 0.7:
                continue
        out.append(t)
    print('\n'.join(out))


if __name__ == '__main__':
    main()
