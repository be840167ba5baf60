from rac.common import *
import equinox as eqx
from flowMC.resource.model.common import MLP, MaskedCouplingLayer
from flowMC.resource.model.nf_model.realNVP import AffineCoupling, RealNVP
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline


def couplings(m):
    return [x for x in jax.tree_util.tree_leaves(m, is_leaf=lambda z: isinstance(z, MaskedCouplingLayer)) if isinstance(x, MaskedCouplingLayer)]


def linears(m):
    return [x for x in jax.tree_util.tree_leaves(m, is_leaf=lambda z: isinstance(z, eqx.nn.Linear)) if isinstance(x, eqx.nn.Linear)]


def distinct(blocks, what):
    """no two of these arrays were drawn from the same numbers"""
    for i, a in enumerate(blocks):
        for j in range(i):
            u, v = np.ravel(a), np.ravel(blocks[j])
            n = min(len(u), len(v))
            if n == 0:
                continue
            u, v = u[:n], v[:n]
            su, sv = np.abs(u).max(), np.abs(v).max()
            check(not (su > 0 and sv > 0 and np.allclose(u / su, v / sv, rtol=1e-5)), '%s %d and %d were initialised with the same numbers', what, j, i)


@case(14)
def masks(r):
    D, L = r.int(1, 8), r.int(1, 6)
    H = r.int(2, 5)
    kind = r.choice(['realnvp', 'rqs'])
    hid = [r.int(2, 5) for _ in range(r.choice([1, 2, 2, 3, 4, 5]))]
    K = r.int(1, 5)
    m = RealNVP(D, L, H, r.key()) if kind == 'realnvp' else MaskedCouplingRQSpline(D, L, hid, K, r.key())
    r.note(flow=kind, D=D, layers=L, hidden=hid, bins=K)
    check(m.n_features == D, 'n_features %s', m.n_features)
    cs = couplings(m.affine_coupling if kind == 'realnvp' else m.layers)
    ms = [np.asarray(c.mask).astype(float) for c in cs]
    for a in ms:
        check(a.shape == (L, D), 'masks of shape %s for %d layers', a.shape, L)
    a = ms[-1]
    check(((a == 0) | (a == 1)).all(), 'masks %s', a)
    check((a[1:] + a[:-1] == 1).all(), 'consecutive layers do not transform complementary features: %s', a)
    if D > 1:
        check(((a.sum(1) > 0) & (a.sum(1) < D)).all(), 'a layer keeps or transforms all features: %s', a)
    if kind == 'rqs':
        check((ms[0] == 0).all(), 'the affine map of a spline layer leaves features out: %s', ms[0])
    ls = linears(m)
    sizes = [D, H, D] if kind == 'realnvp' else [D] + hid + [D * (3 * K + 1)]
    nets = 2 if kind == 'realnvp' else 1
    check(len(ls) == nets * (len(sizes) - 1), '%d linear maps', len(ls))
    for k, x in enumerate(ls):
        q = k % (len(sizes) - 1)
        check(x.weight.shape == (L, sizes[q + 1], sizes[q]) and x.bias.shape == (L, sizes[q + 1]), 'linear map %d has weights of shape %s', k, x.weight.shape)
    big = [np.asarray(x.weight[l]) for x in ls for l in range(L) if x.weight[l].size > 2]
    distinct(big, 'weights')
    distinct([np.asarray(x.bias[l]) for x in ls for l in range(L) if x.bias[l].size > 2], 'biases')
    # with generic weights every feature is transformed by two layers or more
    if L >= 2:
        m = perturb(r, m, 0.5)
        if kind == 'rqs':
            m = eqx.tree_at(lambda q: q.layers[0], m, jax.tree.map(lambda z: jnp.zeros_like(z) if jnp.issubdtype(z.dtype, jnp.floating) else z, m.layers[0]))
        moved = np.zeros(D, bool)
        for _ in range(4):
            x = jnp.asarray(r.vec(D))
            y, _ = m.forward(x)
            moved |= np.abs(np.asarray(y - x)) > 1e-9
        check(moved.all(), 'features %s are not transformed by %d layers', np.where(~moved)[0], L)


@case(10)
def network(r):
    n = r.int(2, 7)
    sh = [r.int(2, 6) for _ in range(n)]
    m = MLP(sh, r.key())
    ls = [x for x in m.layers if isinstance(x, eqx.nn.Linear)]
    check(len(ls) == n - 1 and len(m.layers) == 2 * n - 3, 'layers %s', m.layers)
    for k, x in enumerate(ls):
        check(x.weight.shape == (sh[k + 1], sh[k]), 'linear map %d has weights of shape %s', k, x.weight.shape)
    check((m.n_input, m.n_output) == (sh[0], sh[-1]), 'sizes %s', (m.n_input, m.n_output))
    distinct([np.asarray(x.weight) for x in ls], 'weights')
    distinct([np.asarray(x.bias) for x in ls if x.bias.size > 2], 'biases')
    # one network activates between its linear maps
    v = r.vec(sh[0])
    h = jnp.asarray(v)
    for k, x in enumerate(ls):
        h = x.weight @ h + x.bias
        if k < len(ls) - 1:
            h = jax.nn.relu(h)
    close(np.asarray(m(jnp.asarray(v))), np.asarray(h), 'output of the network')
    a = AffineCoupling(sh[0], 4, jnp.ones(sh[0]), r.key())
    distinct([np.asarray(x.weight) for x in linears((a.scale_MLP, a.translate_MLP))], 'weights of the coupling layer')
