from rac.c04 import *
lib.CASES.clear()
jax.config.update('jax_enable_x64', False)


def nasty(r, D):
    """targets with NaN, -inf and +inf regions and overflowing values"""
    kind = r.choice(['nan', 'neginf', 'posinf', 'mixed', 'overflow', 'always_nan', 'nan_grad'])
    r.note(target=kind)
    big = 1e30

    def f(x, data):
        b = -0.5 * jnp.sum(x * x)
        out = x[0] > 0.5
        if kind == 'nan':
            return jnp.where(out, jnp.nan, b)
        if kind == 'neginf':
            return jnp.where(out, -jnp.inf, b)
        if kind == 'posinf':
            return jnp.where(x[0] > 1.0, jnp.inf, jnp.where(x[0] < -1.0, -jnp.inf, b))
        if kind == 'mixed':
            return jnp.where(x[0] > 1.0, jnp.nan, jnp.where(x[0] < -0.5, -jnp.inf, jnp.where(x[-1] > 1.5, jnp.inf, b)))
        if kind == 'overflow':
            return jnp.where(out, -jnp.exp(x[0] * 1e4), b) - big * jnp.where(x[0] < -1, 1.0, 0.0)
        if kind == 'always_nan':
            return b * jnp.nan
        return b + jnp.sqrt(0.5 - x[0])
    return f


def never(r, which):
    D = r.int(1, 2)
    f = nasty(r, D)
    dt = jnp.float32
    x = jnp.asarray(r.vec(D), dt)
    x = x.at[0].set(-abs(x[0]) * 0.3)
    h = r.choice([0.3, 1.0, 3.0, 1e3, 1e20])
    lp0 = f(x, {})
    if r.random() < 0.3:
        lp0 = jnp.asarray(r.choice([-jnp.inf, jnp.inf, jnp.nan]), dt)
    r.note(kernel=which, step=h, x=x, given_logp=float(lp0), dtype=str(dt.__name__))
    if which == 'nf':
        fl = StubFlow(jnp.asarray(r.vec(D, scale=0.3), dt), jnp.asarray(r.np.uniform(0.6, 1.6, D), dt), D)
        kern = NFProposal(fl, r.int(1, 5))
        step = jax.jit(lambda k, y, l: kern.kernel(k, y, l, f, {'n_steps': 12}))
        P, L, A = step(r.key(), x, lp0)
    else:
        h = jnp.asarray(h, dt)
        kern = {'grw': lambda: GaussianRandomWalk(h), 'mala': lambda: MALA(h), 'hmc': lambda: HMC(jnp.eye(D, dtype=dt), h, 2)}[which]()
        step = jax.jit(lambda k, y, l: kern.kernel(k, y, l, f, {}))
        P, L, A = [], [], []
        y, l = x, lp0
        for _ in range(25):
            y, l, a = step(r.key(), y, l)
            P.append(y), L.append(l), A.append(a)
    prev = np.asarray(x)
    for k in range(len(P)):
        v = val(f, P[k], {})
        if bool(A[k]):
            check(not (np.isnan(v) or v == -np.inf), 'step %d moved to a point of log density %s', k, v)
        else:
            same(P[k], prev, 'position after a rejected step %d' % k)
        moved = not np.array_equal(np.asarray(P[k]), prev, equal_nan=True)
        check(bool(A[k]) or not moved, 'step %d: flag false but the position changed', k)
        prev = np.asarray(P[k])


@case(8)
def grw_never(r):
    never(r, 'grw')


@case(8)
def mala_never(r):
    never(r, 'mala')


@case(8)
def hmc_never(r):
    never(r, 'hmc')


@case(8)
def nf_never(r):
    never(r, 'nf')


@case(4)
def infinite_start(r):
    """a start of infinite density or a flow density of -inf must not open the door to NaN proposals"""
    D = r.int(1, 2)
    x = jnp.asarray(r.vec(D))
    f = lambda y, data: jnp.where(jnp.all(y == x), r_start, jnp.where(y[0] > 0, jnp.nan, -jnp.inf))
    r_start = r.choice([jnp.inf, 0.0, -1e38, -jnp.inf])
    which = r.choice(['grw', 'mala', 'hmc', 'nf'])
    r.note(kernel=which, start=float(r_start))
    if which == 'nf':
        kern = NFProposal(stub(r, D), 3)
        P, L, A = kern.kernel(r.key(), x, f(x, {}), f, {'n_steps': 10})
    else:
        kern = local_kernel(r, D, which)
        P, L, A = zip(*[kern.kernel(r.key(), x, f(x, {}), f, {}) for _ in range(3)])
    for k in range(len(P)):
        check(not bool(A[k]), 'step %d accepted a point of NaN or -inf density', k)
        same(P[k], x, 'position after step %d' % k)
