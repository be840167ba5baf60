from rac.common import *
import equinox as eqx
import optax
from flowMC.resource.model.common import Gaussian, MLP, MLPAffine, MaskedCouplingLayer, ScalarAffine
from flowMC.resource.model.flowmatching.base import CondOTScheduler, FlowMatchingModel, Path, Solver
from flowMC.resource.model.nf_model.realNVP import AffineCoupling, RealNVP
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline, RQSpline


def frozen(path, base):
    s = jax.tree_util.keystr(path)
    if '_data_mean' in s or '_data_cov' in s:
        return True
    return 'base_dist' in s and base in ('default', 'fixed')


def leaves(m):
    return [(p, x) for p, x in jax.tree_util.tree_flatten_with_path(m)[0] if eqx.is_inexact_array(x)]


def new_flow(r, D):
    kind = r.choice(['realnvp', 'rqs'])
    base = r.choice(['default', 'default', 'fixed', 'fixed', 'learnable', 'own'])
    mean, cov = stats(r, D)
    kw = dict(data_mean=jnp.asarray(mean), data_cov=jnp.asarray(cov))
    if base in ('fixed', 'learnable'):
        a, b = stats(r, D)
        kw['base_dist'] = Gaussian(jnp.asarray(a * 0.3), jnp.asarray(b), **({'learnable': True} if base == 'learnable' else r.choice([{}, {}, {'learnable': False}])))
    if base == 'own':
        kw['base_dist'] = Logistic(jnp.asarray(r.vec(D, scale=0.4)))
    L = r.int(1, 3)
    m = RealNVP(D, L, 5, r.key(), **kw) if kind == 'realnvp' else MaskedCouplingRQSpline(D, L, [5], r.int(2, 4), r.key(), **kw)
    r.note(flow=kind, base=base, layers=L, D=D)
    return perturb(r, m, 0.5), base


def slopes(f, h):
    """derivative at 0 of a function of one number, where two step sizes agree"""
    d = [(f(e) - f(-e)) / (2 * e) for e in (h, h / 3)]
    if not np.isfinite(d).all() or abs(d[0] - d[1]) > 1e-4 * (1 + abs(d[0])):
        raise Skip('a kink of the network: %s' % d)
    return d[1]


def whole_gradient(r, m, fr, loss, grads, what):
    """the gradient is zero for what is frozen and the whole derivative for the rest"""
    g = {jax.tree_util.keystr(p): np.asarray(x) for p, x in leaves(grads)}
    lv = leaves(m)
    for p, x in lv:
        s = jax.tree_util.keystr(p)
        if fr(p):
            check(s not in g or not np.any(g[s]), '%s: gradient %s with respect to %s', what, g.get(s), s)
    loss = eqx.filter_jit(loss)
    for part in range(2):
        d = {jax.tree_util.keystr(p): r.vec(*x.shape, scale=0.3) for p, x in lv if not fr(p)}
        if part:
            keep = r.choice(sorted(d))
            d = {keep: d[keep]}
        move = lambda e: jax.tree_util.tree_map_with_path(lambda p, x: x + e * d[jax.tree_util.keystr(p)] if jax.tree_util.keystr(p) in d and eqx.is_inexact_array(x) else x, m)
        want = slopes(lambda e: float(loss(move(e))), 1e-5)
        got = sum(float((g[k] * v).sum()) for k, v in d.items() if k in g)
        close(got, want, '%s: derivative along %s' % (what, list(d)), 1e-4, 1e-6)


@case(10)
def flow_gradients(r):
    """any normalizing flow, base distribution and batch"""
    D = r.int(1, 4)
    m, base = new_flow(r, D)
    X = jnp.asarray(r.vec(r.int(1, 5), D))
    ls = lambda q: -jnp.mean(jax.vmap(q.log_prob)(X))
    v, grads = m.loss_fn(X)
    close(float(v), float(ls(m)), 'loss')
    whole_gradient(r, m, lambda p: frozen(p, base), ls, grads, 'loss')
    x = X[0]
    whole_gradient(r, m, lambda p: frozen(p, base), lambda q: q.log_prob(x), eqx.filter_jit(eqx.filter_grad(lambda q: q.log_prob(x)))(m), 'log_prob')


def new_fm(r, D):
    mean, cov = stats(r, D)
    m = FlowMatchingModel(Solver(MLP([D + 1, 6, D], r.key(), activation=jnp.tanh)), Path(CondOTScheduler()), jnp.asarray(mean), jnp.asarray(cov))
    return perturb(r, m, 0.4)


@case(2)
def flow_matching(r):
    D = r.int(1, 3)
    m = new_fm(r, D)
    N = r.int(1, 5)
    X, t, dx = jnp.asarray(r.vec(N, D)), jnp.asarray(r.np.random((N, 1))), jnp.asarray(r.vec(N, D))
    ls = lambda q: jnp.mean((jax.vmap(q.solver.model)(jnp.concatenate([X, t], -1)) - dx) ** 2)
    v, grads = m.loss_fn(X, t, dx)
    close(float(v), float(ls(m)), 'loss')
    whole_gradient(r, m, lambda p: frozen(p, 'default'), ls, grads, 'loss')
    g = eqx.filter_grad(lambda q: jnp.sum(q.log_prob(X[0])))(m)
    for nm in ('_data_mean', '_data_cov'):
        check(not np.any(np.asarray(getattr(g, nm))), 'log_prob: gradient %s with respect to %s', getattr(g, nm), nm)


@case(8, slow=True)
def training(r):
    """epochs of training with an optimizer that keeps moments"""
    D = r.int(1, 3)
    N, B, E = r.int(6, 20), r.int(2, 8), r.int(1, 4)
    Y = r.vec(N, D) * r.uniform(0.5, 3) + r.vec(D)
    fm = r.random() < 0.35
    m, base = (new_fm(r, D), 'default') if fm else new_flow(r, D)
    optim = r.choice([optax.adam, optax.sgd, optax.rmsprop])(r.choice([1e-3, 1e-2]))
    state = optim.init(eqx.filter(m, eqx.is_array))
    data = (jnp.asarray(r.vec(N, D)), jnp.asarray(Y), jnp.asarray(r.np.random((N, 1)))) if fm else jnp.asarray(Y)
    _, m2, _, losses = m.train(r.key(), data, optim, state, E, B, verbose=False)
    if not (np.asarray(losses) < 1e9).any():
        raise Skip('no usable loss')
    close(np.asarray(m2._data_mean), Y.mean(0), 'whitening mean after training', 1e-9)
    close(np.atleast_2d(np.asarray(m2._data_cov)), np.atleast_2d(np.cov(Y.T)), 'whitening covariance after training', 1e-9)
    moved = []
    for (p, a), (_, b) in zip(leaves(m), leaves(m2)):
        s = jax.tree_util.keystr(p)
        if '_data_' in s:
            continue
        eq = np.array_equal(np.asarray(a), np.asarray(b))
        if frozen(p, base):
            check(eq, 'training changed %s from %s to %s', s, a, b)
        elif 'base_dist' in s:
            check(not eq, 'training left %s of a %s base distribution as it was', s, base)
        else:
            moved.append((s, not eq))
    check(any(e for _, e in moved), 'training moved no weight of %s', [s for s, _ in moved])


@case(10)
def layers(r):
    """masks, spline ranges and floors given as real arrays"""
    D = r.int(1, 5)
    mask = jnp.asarray(r.np.randint(0, 2, D).astype(float))
    x, c, w = jnp.asarray(r.vec(D)), jnp.asarray(r.vec(D)), jnp.asarray(r.vec(D + 1))
    nets = [perturb(r, MLP([D, 4, D], r.key(), activation=jnp.tanh), 0.5) for _ in range(2)]
    kind = r.choice(['masked', 'coupling', 'spline'])
    r.note(layer=kind, mask=mask)
    if kind == 'masked':
        l = MaskedCouplingLayer(r.choice([MLPAffine(*nets), ScalarAffine(jnp.asarray(0.3), jnp.asarray(-0.2))]), mask)
    elif kind == 'coupling':
        l = eqx.tree_at(lambda q: (q.scale_MLP, q.translate_MLP), AffineCoupling(D, 4, mask, r.key()), tuple(nets))
    else:
        K = r.int(1, 4)
        l = RQSpline(perturb(r, MLP([D, 4, D * (3 * K + 1)], r.key(), activation=jnp.tanh), 0.5), jnp.asarray(-3.0), jnp.asarray(4.0), jnp.asarray(1e-3), jnp.asarray(1e-3))
    for d in ('forward', 'inverse'):
        def val(q):
            a = (x,) if kind == 'coupling' else (x, c)
            y, ld = getattr(q, d)(*a)
            return jnp.sum(y * w[:D]) + w[D] * jnp.sum(ld)
        fr = lambda p: any(k in jax.tree_util.keystr(p) for k in ('_mask', '_range_', '_min_')) or jax.tree_util.keystr(p) == '.dt'
        whole_gradient(r, l, fr, val, eqx.filter_grad(val)(l), '%s %s' % (kind, d))
