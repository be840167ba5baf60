from rac.common import *
import equinox as eqx
from flowMC.resource.model.common import Composable, Gaussian


def mvn(x, m, C):
    d = np.asarray(x) - m
    C = np.atleast_2d(C)
    return float(-0.5 * d @ np.linalg.solve(C, d) - 0.5 * np.linalg.slogdet(C)[1] - 0.5 * len(d) * np.log(2 * np.pi))


def build(r, D, base=None, scalar=False, mean=None, cov=None):
    kind = r.choice(['realnvp', 'rqs'])
    L = r.int(1, 3)
    kw = {} if mean is None else dict(data_mean=jnp.asarray(mean), data_cov=jnp.asarray(cov))
    if base is not None:
        kw['base_dist'] = base
    if kind == 'realnvp':
        from flowMC.resource.model.nf_model.realNVP import RealNVP
        m = RealNVP(D, L, 5, r.key(), **kw)
    else:
        from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
        m = MaskedCouplingRQSpline(D, L, [5], r.int(2, 5), r.key(), **kw)
    r.note(flow=kind, layers=L, D=D, mean=mean, cov=cov)
    return perturb(r, m, 0.6)


@case(8)
def density(r):
    """the reported density, and that of the samples"""
    D = r.int(1, 4)
    scalar = D == 1 and r.random() < 0.5
    white = r.random() < 0.8
    mean, cov = stats(r, D, scalar) if white else (None, None)
    loc = r.vec(D, scale=0.5)
    own = r.random() < 0.5
    m = build(r, D, Logistic(jnp.asarray(loc)) if own else None, scalar, mean, cov)
    if not white:
        mean, cov = np.zeros(D), np.eye(D)
    base = m.base_dist
    if not own:
        check(isinstance(base, Gaussian), 'default base distribution %s', type(base))
        close(np.asarray(base.mean), np.zeros(D), 'mean of the default base distribution')
        close(np.asarray(base.cov), np.eye(D), 'covariance of the default base distribution')
    sd = np.sqrt(np.diag(np.atleast_2d(cov)))
    blp = (lambda z: float(base.log_prob(jnp.asarray(z)))) if own else (lambda z: mvn(z, np.zeros(D), np.eye(D)))
    x = r.vec(D, scale=1.5) * sd + mean
    z, ld = m.forward(jnp.asarray((x - mean) / sd))
    want = blp(z) + float(ld) - np.log(sd).sum()
    close(float(m.log_prob(jnp.asarray(x))), want, 'log_prob', 1e-6)
    # draws
    n = r.int(1, 5)
    key = r.key()
    del LOG[:]
    with REC.record():
        s = np.asarray(m.sample(key, n))
        normals = [a[2] for a in REC.of('multivariate_normal')]
    check(s.shape == (n, D), 'sample of shape %s', s.shape)
    if own:
        zs = np.concatenate([np.asarray(z) for _, z in LOG])
    elif len(normals) == 1:
        zs = np.asarray(normals[0])
    else:
        zs = None
    for k in range(n):
        y = s[k]
        w, ld = m.forward(jnp.asarray((y - mean) / sd))
        if zs is not None:
            close(np.asarray(w), zs[k], 'draw %d does not map to draw %d of the base distribution' % (k, k), 1e-4)
        # density of the draw by the change of variables through the sampler's own map
        g = lambda v: m.inverse(v)[0] * sd + mean
        J = np.asarray(jax.jacfwd(g)(w))
        close(float(m.log_prob(jnp.asarray(y))), blp(w) - np.linalg.slogdet(J)[1], 'log_prob at a draw', 1e-4)


@case(5)
def integral(r):
    """one and two dimensional flows integrate to one"""
    D = r.choice([1, 1, 2])
    mean, cov = stats(r, D, D == 1)
    m = build(r, D, None, D == 1, mean, cov)
    sd = np.sqrt(np.diag(np.atleast_2d(cov)))
    n = {1: 40001, 2: 801}[D]
    box = 30.0 if D == 1 else 14.0
    ax = np.linspace(-box, box, n)
    X = ax[:, None] if D == 1 else np.stack(np.meshgrid(ax, ax, indexing='ij'), -1).reshape(-1, 2)
    lp = np.exp(np.asarray(jax.jit(jax.vmap(m.log_prob))(jnp.asarray(X * sd + mean))))
    vol = (ax[1] - ax[0]) ** D * np.prod(sd)
    tot = lp.sum() * vol
    half = lp.reshape((n,) * D)[(slice(None, None, 2),) * D].sum() * vol * 2 ** D
    if abs(tot - half) > 0.01:
        raise Skip('the grid is too coarse for this flow: %s and %s' % (tot, half))
    inside = np.asarray(m.sample(r.key(), 2000))
    frac = (np.abs((inside - mean) / sd) < box).all(-1).mean()
    close(tot, frac, 'integral of the density', 0.03 if D == 1 else 0.06)


@case(8)
def gaussian(r):
    D = r.int(1, 4)
    mean, cov = stats(r, D)
    g = Gaussian(jnp.asarray(mean), jnp.asarray(cov), learnable=r.random() < 0.5)
    x = r.vec(D)
    close(float(g.log_prob(jnp.asarray(x))), mvn(x, mean, cov), 'Gaussian density', 1e-6)
    close(float(g(jnp.asarray(x))), mvn(x, mean, cov), 'Gaussian call', 1e-6)
    n = 4000
    s = np.asarray(g.sample(r.key(), n))
    check(s.shape == (n, D), 'shape %s', s.shape)
    se = np.sqrt(np.diag(cov) / n)
    check((np.abs(s.mean(0) - mean) < 6 * se).all(), 'mean of the draws %s, not %s', s.mean(0), mean)
    dv = np.sqrt(np.diag(cov))
    check((np.abs(np.atleast_2d(np.cov(s.T)) - cov) < 6 * 1.5 * np.outer(dv, dv) / np.sqrt(n)).all(), 'covariance of the draws %s, not %s', np.cov(s.T), cov)


@case(8)
def composable(r):
    m = r.int(1, 4)
    ds = [r.int(1, 3) for _ in range(m)]
    order = list(range(m))
    r.np.shuffle(order)
    off, at = np.zeros(m, int), 0      # the partitions may be given in any order
    for i in order:
        off[i], at = at, at + ds[i]
    end = off + np.asarray(ds)
    mc = [stats(r, d) for d in ds]
    names = ['b%d' % k for k in range(m)]
    r.np.shuffle(names)                # nor are the names in any order
    r.note(names=names)
    c = Composable([Gaussian(jnp.asarray(a), jnp.asarray(b)) for a, b in mc], {k: (int(off[i]), int(end[i])) for i, k in enumerate(names)})
    x = r.vec(int(at))
    close(float(c.log_prob(jnp.asarray(x))), sum(mvn(x[off[i]:end[i]], *mc[i]) for i in range(m)), 'sum of the log densities of the blocks', 1e-6)
    n = 1500
    s = c.sample(r.key(), n)
    check(set(s) == set(names), 'names %s', list(s))
    for i, k in enumerate(names):
        v = np.asarray(s[k])
        check(v.shape == (n, ds[i]), 'shape %s of block %s', v.shape, k)
        check((np.abs(v.mean(0) - mc[i][0]) < 6 * np.sqrt(np.diag(mc[i][1]) / n)).all(), 'mean of block %s', k)
    for i in range(m):
        for j in range(i):
            a, b = np.asarray(s[names[i]])[:, 0], np.asarray(s[names[j]])[:, 0]
            check(abs(np.corrcoef(a, b)[0, 1]) < 0.2, 'blocks %s and %s are drawn from the same noise', names[i], names[j])
