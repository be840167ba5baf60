import optax
from rac.common import *
from flowMC.strategy.optimization import AdamOptimization


def box(r, D):
    kind = r.choice(['free', 'shared', 'per dimension', 'half', 'tight'])
    if kind == 'free':
        return None, np.array([[-np.inf, np.inf]])
    if kind == 'shared':
        b = np.array([[-r.uniform(0.1, 1.0), r.uniform(0.1, 1.0)]])
    elif kind == 'half':
        b = np.stack([np.full(D, -np.inf), r.np.uniform(-0.5, 1.0, D)], 1)
    else:
        lo = r.np.uniform(-1.5, 0.5, D)
        b = np.stack([lo, lo + (r.np.uniform(0.2, 1.5, D) if kind == 'per dimension' else 0.0)], 1)
    return b, b


def outside(x, b):
    x = np.asarray(x)
    return (x < b[:, 0] - 0.0).any() or (x > b[:, 1] + 0.0).any() or np.isnan(x).any()


@case(14)
def follows_the_target(r):
    D, C, n = r.int(1, 4), r.int(1, 4), r.choice([1, 2, 3, 7])
    f = target(r, D)
    data = {'scale': r.choice([1.0, 0.7])}
    f, data = rich(r, f, data, C, D, n)
    b, B = box(r, D)
    lr, lvl = r.choice([0.01, 0.1, 0.5]), r.choice([0.0, 0.3, 2.0, 10.0])
    z = r.choice([0.0, 0.7, -0.8, -2.0])
    r.note(bounds=B, n_steps=n, learning_rate=lr, noise_level=lvl, noise=z, dims=D, chains=C)
    kw = {} if b is None else {'bounds': jnp.asarray(b)}
    o = AdamOptimization(f, n_steps=n, learning_rate=lr, noise_level=lvl, **kw)
    x0 = r.vec(C, D)
    key = r.key()
    if r.random() < 0.3:
        r.note(later_call=True)          # the strategy has been used before, elsewhere
        o(r.key(), {}, jnp.asarray(r.vec(C, D)), {**data, 'scale': 1.9})
    res = {'a': 1}
    with REC.record(normal=lambda v: jnp.full_like(v, z)):
        k2, res2, x = o(key, res, jnp.asarray(x0), data)
        shapes = [tuple(e[2].shape) for e in REC.log if e[0] == 'normal']
    check(res2 is res and res == {'a': 1}, 'resources changed')
    x = np.asarray(x)
    check(x.shape == (C, D), 'shape %s', x.shape)
    check(not outside(x, B), 'a returned point is outside the bounds')
    sol = optax.adam(lr)
    for c in range(C):
        y = jnp.asarray(x0[c])
        st = sol.init(y)
        for _ in range(n):
            g = -jnp.asarray(gradient(f, y, data)) * (1 + lvl * z)
            u, st = sol.update(g, st, y)
            y = jnp.clip(y + u, B[:, 0], B[:, 1])
        close(x[c], y, 'chain %d after %d steps' % (c, n), 1e-5)
    with REC.record(normal=lambda v: jnp.full_like(v, z)):
        _, x2, lp = o.optimize(key, lambda p, d: -f(p, d), jnp.asarray(x0), data)
    close(x2, x, 'optimize and call disagree', 1e-9)
    for c in range(C):
        close(lp[c], val(f, x2[c], data), 'reported log density of chain %d' % c, 1e-6)
    check(all(s == () for s in shapes), 'the noise is not one scalar: %s', shapes)


@case(4)
def own_start_and_key(r):
    D, C, n = r.int(2, 3), r.int(2, 4), 5
    f = target(r, D)
    o = AdamOptimization(f, n_steps=n, learning_rate=0.1, noise_level=3.0)
    x0 = r.vec(C, D)
    key = r.key()
    _, _, x = o(key, {}, jnp.asarray(x0), {})
    y0 = x0.copy()
    c = r.int(0, C - 1)
    y0[[k for k in range(C) if k != c]] += 1.0
    _, _, y = o(key, {}, jnp.asarray(y0), {})
    close(y[c], x[c], 'chain %d depends on other chains' % c, 1e-9)
    # equal starts, different noise
    e0 = np.repeat(x0[:1], C, 0)
    o2 = AdamOptimization(lambda p, d: f(p, d), n_steps=8, learning_rate=0.1, noise_level=5.0)
    _, _, e = o2(key, {}, jnp.asarray(e0), {})
    e = np.asarray(e)
    check(not all(np.array_equal(e[0], e[k]) for k in range(1, C)), 'all chains use the same noise')
    _, _, e2 = o2(r.key(), {}, jnp.asarray(e0), {})
    check(not np.array_equal(e, np.asarray(e2)), 'the key has no influence')
    # direction: plain Adam on a concave target improves it
    q = AdamOptimization(lambda p, d: -jnp.sum((p - 2.0) ** 2), n_steps=30, learning_rate=0.05, noise_level=0.0)
    _, p, lp = q.optimize(key, lambda p, d: jnp.sum((p - 2.0) ** 2), jnp.zeros((C, D)), {})
    _, _, p2 = q(key, {}, jnp.zeros((C, D)), {})
    check((np.asarray(p2) > 0.3).all() and (np.asarray(p) > 0.3).all(), 'the optimisation does not ascend the target')


@case(8)
def wrong_bounds(r):
    D = r.int(2, 4)
    f = target(r, D)
    shape = r.choice([(D,), (2,), (D, 3), (1, 3), (D, 1), (D + 1, 2), (D, 2, 1), (), (2 * D, 2), (0, 2)] + ([(D - 1, 2)] if D > 2 else []))
    r.note(shape=shape, dims=D)
    try:
        o = AdamOptimization(f, n_steps=1, bounds=jnp.zeros(shape) + jnp.asarray(0.0))
        if r.random() < 0.5:
            o(r.key(), {}, jnp.zeros((2, D)), {})
        else:
            o.optimize(r.key(), lambda p, d: -f(p, d), jnp.zeros((2, D)), {})
    except Exception:
        return
    raise Fail('bounds of shape %s were accepted for %d dimensions' % (shape, D))
