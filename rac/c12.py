from rac.common import *
from flowMC.resource.model.common import MLP, MLPAffine, ScalarAffine, MaskedCouplingLayer
from flowMC.resource.model.nf_model.realNVP import AffineCoupling
from flowMC.resource.model.nf_model.rqSpline import RQSpline

def det(f, x):
    s, l = np.linalg.slogdet(np.asarray(jax.jacfwd(f)(x)))
    return float(l)


def total(ld, D):
    ld = np.asarray(ld)
    return float(ld.sum()) if ld.ndim else float(ld) * D


def both(r, fwd, inv, x, D, tol=1e-6, tot=None, call=None, checkdet=True):
    """round trips in both directions, negated log determinants, log determinant of the actual Jacobian"""
    tot = tot or (lambda l: float(np.sum(np.asarray(l))))
    for d1, d2, n in ((fwd, inv, 'inverse(forward(x))'), (inv, fwd, 'forward(inverse(x))')):
        y, l1 = d1(x)
        z, l2 = d2(y)
        check(np.asarray(y).shape == (D,), 'output of shape %s', np.asarray(y).shape)
        close(z, x, n + ' is not x', tol)
        close(tot(l1), -tot(l2), 'log determinants in ' + n, tol)
    if checkdet:
        close(tot(fwd(x)[1]), det(lambda v: fwd(v)[0], x), 'log determinant against the Jacobian', tol)
    if call:
        y, l = call(x)
        y0, l0 = fwd(x)
        same(y, y0, 'call against forward')
        same(np.asarray(l), np.asarray(l0), 'log determinant of call against forward')


def mlps(r, D, out=None, n=2):
    k = jax.random.split(r.key(), n)
    return [perturb(r, MLP([D, r.int(2, 5), out or D], k[i], activation=jax.nn.tanh), 0.7) for i in range(n)]


def a_mask(r, D):
    m = np.array([r.random() < 0.5 for _ in range(D)])
    u = r.random()
    if u < 0.1:
        m[:] = False
    elif u < 0.2:
        m[:] = True
    r.note(mask=m.tolist())
    return jnp.asarray(m) if r.random() < 0.6 else jnp.asarray(m.astype(float))


def inner(r, D, kind):
    if kind == 'mlp':
        a, b = mlps(r, D)
        return MLPAffine(a, b, r.random() + 0.2) if r.random() < 0.5 else MLPAffine(a, b)
    if kind == 'scalar':
        return ScalarAffine(r.random() * 2 - 1, r.random() * 4 - 2)
    K = r.int(1, 6)
    lo = -r.random() * 4 - 0.3
    hi = r.random() * 4 + 0.3
    r.note(bins=K, range=(lo, hi))
    net, = mlps(r, D, D * (3 * K + 1), 1)
    return RQSpline(net, lo, hi)


@case(15)
def elementwise(r):
    D = r.int(1, 4)
    kind = r.choice(['mlp', 'scalar', 'spline'])
    b = inner(r, D, kind)
    c = jnp.asarray(r.vec(D))
    x = jnp.asarray(r.vec(D, scale=3.0))
    r.note(kind=kind, D=D, x=np.asarray(x))
    both(r, lambda v: b.forward(v, c), lambda v: b.inverse(v, c), x, D, tot=lambda l: total(l, D), call=lambda v: b(v, c))


@case(12)
def masked(r):
    D = r.int(1, 5)
    kind = r.choice(['mlp', 'scalar', 'spline'])
    b = inner(r, D, kind)
    m = a_mask(r, D)
    l = MaskedCouplingLayer(b, m)
    x = jnp.asarray(r.vec(D, scale=2.5))
    r.note(kind=kind, D=D, x=np.asarray(x))
    both(r, lambda v: l.forward(v, None), lambda v: l.inverse(v, None), x, D, call=lambda v: l(v, None))
    y, _ = l.forward(x, None)
    keep = np.asarray(m).astype(bool)
    same(np.asarray(y)[keep], np.asarray(x)[keep], 'kept features')


@case(12)
def affine_coupling(r):
    D = r.int(1, 5)
    m = jnp.asarray(a_mask(r, D), float)
    dt = r.choice([1, 0.5, 2.0])
    l = perturb(r, AffineCoupling(D, 4, m, r.key(), dt), 0.7)
    x = jnp.asarray(r.vec(D, scale=2.0))
    r.note(D=D, dt=dt, x=np.asarray(x))
    both(r, l.forward, l.inverse, x, D, call=l)


@case(16)
def spline_line(r):
    """one spline over the whole line: knots, both tails, points next to the knots"""
    D = r.int(1, 3)
    b = inner(r, D, 'spline')
    c = jnp.asarray(r.vec(D, scale=1.5))
    xp, yp, sl = [np.asarray(a) for a in b.get_params(c)]
    lo, hi = float(b.range_min), float(b.range_max)
    K = xp.shape[1] - 1
    for a in (xp, yp):
        check(a.shape == (D, K + 1), 'knots of shape %s', a.shape)
        check((np.diff(a, axis=1) > 0).all(), 'knots do not increase: %s', a)
        close(a[:, 0], np.full(D, lo), 'first knot')
        close(a[:, -1], np.full(D, hi), 'last knot')
    check((sl > 0).all(), 'slopes not positive: %s', sl)
    pts = [xp.T, xp.T - 1e-9, xp.T + 1e-9, np.linspace(lo - 3, hi + 3, 41)[:, None] + np.zeros((1, D)), 0.5 * (xp[:, 1:] + xp[:, :-1]).T]
    X = np.sort(np.concatenate(pts), axis=0)
    key = K, D
    F = jax.jit(jax.vmap(lambda v: b.forward(v, c)))
    I = jax.jit(jax.vmap(lambda v: b.inverse(v, c)))
    Y, L = [np.asarray(a) for a in F(jnp.asarray(X))]
    dX, dY = np.diff(X, axis=0), np.diff(Y, axis=0)
    check((dY[dX > 1e-10] > 0).all(), 'not strictly increasing')
    gap = np.max(sl) * 50 + 1
    check((dY <= gap * 20 * dX + 1e-7).all() or K > 3, 'a jump: %s', float((dY - gap * 20 * dX).max()))
    n = K + 1
    FX = np.asarray(F(jnp.asarray(np.concatenate([xp.T, xp.T - 1e-9, X[2 * n:]])))[0])
    near = FX[n:2 * n]
    close(near, FX[:n], 'the spline jumps at a knot', 1e-5)
    close(FX[:n], yp.T, 'the knots are not interpolated', 1e-6)
    Z, M = [np.asarray(a) for a in I(jnp.asarray(Y))]
    close(Z, X, 'inverse(forward(x)) is not x', 1e-5)
    close(M, -L, 'log determinants', 1e-4)
    G = np.asarray(jax.jit(jax.vmap(jax.grad(lambda v: b.forward(v, c)[0].sum())))(jnp.asarray(X)))
    off = (np.abs(X[:, :, None] - xp[None]) > 1e-7).all(-1)
    close(np.exp(L)[off], G[off], 'slope against exp(log determinant)', 1e-6)
    W, _ = [np.asarray(a) for a in F(jnp.asarray(Z))]
    close(W, Y, 'forward(inverse(y)) is not y', 1e-5)


@case(8)
def steep_spline(r):
    """extreme network outputs: bins of the least width and height next to wide ones, slopes from the least to tens;
    the error allowed in x is what rounding y costs at the slope there"""
    D, K = r.int(1, 3), r.int(2, 8)
    lo = -r.choice([0.3, 2.0, 10.0])
    hi = r.choice([0.2, 2.0, 10.0])
    net = perturb(r, MLP([D, 4, D * (3 * K + 1)], r.key(), activation=jax.nn.tanh), r.choice([4.0, 8.0]))
    b = RQSpline(net, lo, hi)
    c = jnp.asarray(r.vec(D, scale=1.5))
    xp, yp, sl = [np.asarray(a) for a in b.get_params(c)]
    r.note(bins=K, range=(lo, hi), knots_x=xp, knots_y=yp, slopes=sl)
    F = jax.jit(jax.vmap(lambda v: b.forward(v, c)))
    I = jax.jit(jax.vmap(lambda v: b.inverse(v, c)))
    w = np.asarray([0.03, 0.3, 0.5, 0.9, 0.999])[:, None, None]
    inb = lambda p: (p[None, :, :-1] * (1 - w) + p[None, :, 1:] * w).transpose(0, 2, 1).reshape(-1, D)
    tol = 1e-6 * (hi - lo)
    X = inb(xp)
    Y, L = [np.asarray(a) for a in F(jnp.asarray(X))]
    Z, M = [np.asarray(a) for a in I(jnp.asarray(Y))]
    bad = np.abs(Z - X) > tol + 1e-9 * np.exp(np.minimum(-L, 50.0))
    check(not bad.any(), 'inverse(forward(x)) is not x: %s at x = %s', Z[bad][:3], X[bad][:3])
    Y = inb(yp)
    Z, M = [np.asarray(a) for a in I(jnp.asarray(Y))]
    W, L = [np.asarray(a) for a in F(jnp.asarray(Z))]
    bad = np.abs(W - Y) > tol + 1e-9 * np.exp(np.minimum(L, 50.0))
    check(not bad.any(), 'forward(inverse(y)) is not y: %s at y = %s', W[bad][:3], Y[bad][:3])


@case(10)
def flows(r):
    D = r.int(1, 5)
    L = r.int(1, 4)
    m = tiny_flow(r, D, L)
    x = jnp.asarray(r.vec(D, scale=2.0))
    r.note(D=D, x=np.asarray(x))
    both(r, m.forward, m.inverse, x, D, call=m, tol=1e-5)

