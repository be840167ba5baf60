"""targets and small oracles shared by the runtime contracts"""
import numpy as np
import jax
import jax.numpy as jnp
from rac.lib import *
from rac import lib
from flowMC.resource.logPDF import LogPDF
from flowMC.resource.model.common import Distribution

REC = lib.REC


def target(r, D):
    """a smooth non-trivial target f(x, data), with its numpy gradient"""
    kind = r.choice(['gauss', 'quartic', 'dual'])
    A = r.vec(D, D, scale=0.4)
    P = A @ A.T + 0.5 * np.eye(D)
    m = r.vec(D, scale=0.7)
    r.note(target=kind, target_precision=P, target_mean=m)
    P_, m_ = jnp.asarray(P), jnp.asarray(m)

    def f(x, data):
        s = data['scale'] if isinstance(data, dict) and 'scale' in data else 1.0
        y = x - m_
        v = -0.5 * y @ P_ @ y * s
        if kind == 'quartic':
            v = v - 0.05 * jnp.sum(y ** 4)
        if kind == 'dual':
            v = v + jnp.sum(jnp.sin(1.3 * x)) * 0.8
        return v
    return f


def rich(r, f, data, *sizes, D=None):
    """user data of several kinds - nested, signed, with leading dimensions equal to sizes of the run - all of which
    the target uses as it was given -> (target, data)"""
    kinds = [r.vec(n, scale=0.8) for n in dict.fromkeys(sizes) if n > 0]
    kinds += [r.vec(n, 2, scale=0.8) for n in dict.fromkeys(sizes) if n > 0]
    more = {'obs': [jnp.asarray(k) for k in kinds], 'deep': {'shift': jnp.asarray(-r.uniform(0.2, 0.9)), 'flag': True, 'count': 3},
            'pair': (jnp.asarray(r.int(1, 4)), -0.7)}
    r.note(data_shapes=[k.shape for k in kinds], data_leaves=more)

    def g(x, d):
        m = {**d['more'], 'obs': [*d['more']['obs'], jnp.concatenate([jnp.ravel(d.get('none', jnp.full(2, 1e2))), jnp.ones(1)])]}
        s = m['deep']['shift'] * (2.0 if m['deep']['flag'] is not False else 1.0) + m['deep']['count'] * 0.1 + 0.2 * m['pair'][0] + 0.3 * m['pair'][1]
        for i, o in enumerate(m['obs']):
            o = jnp.ravel(o)
            s = s + jnp.mean(o * jnp.cos(1.0 + i + jnp.arange(o.shape[0]))) + 0.3 * o[-1]
        return f(x, d) + 0.4 * jnp.sin(jnp.sum(x) * (1 + s * s)) + 0.2 * s
    return g, {**(data or {}), 'more': more, 'none': jnp.zeros((0, 2))}


def val(f, x, data):
    return float(f(jnp.asarray(x), data))


def gradient(f, x, data):
    return np.asarray(jax.grad(f)(jnp.asarray(x), data))


def wrapped(r, f, D):
    return LogPDF(f, n_dims=D) if r.random() < 0.5 else f


def tiny_flow(r, D, layers=2, kind=None, scale=0.6):
    """a normalizing flow with non-trivial weights and whitening"""
    kind = kind or r.choice(['realnvp', 'rqs'])
    k = r.key()
    mean = jnp.asarray(r.vec(D))
    A = r.vec(D, D, scale=0.5)
    cov = jnp.asarray(A @ A.T + np.diag(r.np.uniform(0.3, 2.0, D)))
    if kind == 'realnvp':
        from flowMC.resource.model.nf_model.realNVP import RealNVP
        m = RealNVP(D, layers, 6, k, data_mean=mean, data_cov=cov)
    else:
        from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
        m = MaskedCouplingRQSpline(D, layers, [6], 4, k, data_mean=mean, data_cov=cov)
    r.note(flow=kind, flow_layers=layers)
    return perturb(r, m, scale)


def perturb(r, m, scale=0.6):
    """random real parameters everywhere except masks, whitening statistics and base distribution"""
    import equinox as eqx

    def p(path, x):
        s = jax.tree_util.keystr(path)
        if not eqx.is_array(x) or not jnp.issubdtype(x.dtype, jnp.floating):
            return x
        if 'mask' in s or '_data_' in s or 'base_dist' in s or '_mean' in s or '_cov' in s:
            return x
        return x + jnp.asarray(r.vec(*x.shape, scale=scale))
    return jax.tree_util.tree_map_with_path(p, m)


def acceptance_frequency(r, kern, f, x, data, u_levels=(0.15, 0.45, 0.8), n=4000):
    """the noise is held fixed, so the proposal is one point and only the accept test is random: over many keys
    -> (frequency, accepted positions all equal, the accepted position)"""
    lp = f(jnp.asarray(x), data)
    keys = jax.random.split(r.key(), n)
    with REC.record(normal=lambda z: jnp.broadcast_to(jnp.asarray(FIX[:z.shape[-1]], z.dtype), z.shape),
                    multivariate_normal=lambda z: jnp.broadcast_to(jnp.asarray(FIX[:z.shape[-1]], z.dtype), z.shape)):
        pos, l, acc = jax.jit(jax.vmap(lambda k: kern.kernel(k, jnp.asarray(x), lp, f, data)))(keys)
    acc = np.asarray(acc).astype(bool)
    check(acc.shape == (n,), 'one acceptance flag per step: shape %s', acc.shape)
    return acc.mean(), np.asarray(pos), acc


FIX = np.array([0.7, -1.1, 0.4, 1.3, -0.2, 0.9, -1.6, 0.5])


class Logistic(Distribution):
    """a base distribution that is not a Gaussian and records what it samples"""
    loc: jax.Array

    def __init__(self, loc):
        self.loc = loc

    def log_prob(self, x):
        y = x - self.loc
        return jnp.sum(-y - 2 * jax.nn.softplus(-y))

    def sample(self, rng_key, n_samples):
        z = jax.random.logistic(rng_key, (n_samples, self.loc.shape[0])) + self.loc
        LOG.append((rng_key, z))
        return z


LOG = []


def stats(r, D, scalar=False):
    if scalar:
        return r.vec(1), np.asarray(r.random() * 2 + 0.2)
    A = r.vec(D, D, scale=0.6)
    return r.vec(D), A @ A.T + np.diag(r.np.uniform(0.2, 2.0, D))
