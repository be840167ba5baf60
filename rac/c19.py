"""Every key used by the real code, observed at run time through callbacks in jax.random."""
import functools
import jax
import numpy as np
import jax.random as jr

LOG = {'on': False, 'uses': [], 'splits': []}
DRAWS = ['normal', 'uniform', 'multivariate_normal', 'choice', 'permutation', 'exponential', 'randint', 'categorical', 'bernoulli', 'gumbel', 'truncated_normal']
inside = [0]


def _note(kind, which, k):
    if LOG['on']:
        LOG[kind].append((tuple(int(v) for v in np.ravel(k)), which))


def _emit(kind, which, key):
    try:
        data = jr.key_data(key) if jax.dtypes.issubdtype(getattr(key, 'dtype', None), jax.dtypes.prng_key) else key
    except Exception:
        data = key
    jax.debug.callback(functools.partial(_note, kind, which), data)


def _wrap(name, kind):
    orig = getattr(jr, name)

    @functools.wraps(orig)
    def f(*a, **k):
        if inside[0]:
            return orig(*a, **k)
        inside[0] += 1
        try:
            _emit(kind, name, a[0] if a else k['key'])
            return orig(*a, **k)
        finally:
            inside[0] -= 1
    setattr(jr, name, f)


for _n in DRAWS:
    _wrap(_n, 'uses')
_wrap('split', 'splits')

import sys                       # noqa: E402
for _m in [m for m in sys.modules if m == 'flowMC' or m.startswith('flowMC.')]:
    del sys.modules[_m]          # imported again below, on the observed generator
import jax.numpy as jnp          # noqa: E402
from rac.common import *         # noqa: E402
from rac import lib              # noqa: E402
from rac.c06 import RandKernel, setup as steps_setup   # noqa: E402
from rac import c09              # noqa: E402
lib.CASES.clear()
from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps   # noqa: E402
from flowMC.strategy.train_model import TrainModel      # noqa: E402
from flowMC.strategy.optimization import AdamOptimization   # noqa: E402
from flowMC.strategy.parallel_tempering import ParallelTempering   # noqa: E402
from flowMC.resource.kernel.MALA import MALA            # noqa: E402
from flowMC.resource.kernel.HMC import HMC              # noqa: E402
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk   # noqa: E402
from flowMC.resource.kernel.NF_proposal import NFProposal   # noqa: E402
from flowMC.resource.buffers import Buffer              # noqa: E402
from flowMC.resource.optimizer import Optimizer         # noqa: E402
from flowMC.resource.logPDF import TemperedPDF         # noqa: E402
from flowMC.resource.states import State                # noqa: E402


def bits(k):
    return tuple(int(v) for v in np.ravel(np.asarray(k)))


def leaves(x):
    out = []
    for v in jax.tree_util.tree_leaves(x):
        if hasattr(v, 'data') and hasattr(v, 'cursor'):
            out.append(np.asarray(v.data))
        elif isinstance(v, State):
            out.append(repr(v.data))
        elif isinstance(v, Optimizer):
            out += leaves(v.optim_state)
        elif hasattr(v, 'shape') and not isinstance(v, Buffer):
            out.append(np.asarray(v))
    return out


def observe(make, min_uses=1, returned=None, unused=0):
    """run make() twice (it builds its own resources); -> result of the second run"""
    res = []
    for k in range(2):
        LOG.update(on=True, uses=[], splits=[])
        try:
            out = make()
            jax.block_until_ready([v for v in jax.tree_util.tree_leaves(out) if hasattr(v, 'block_until_ready')])
            jax.effects_barrier()
        finally:
            LOG['on'] = False
        res.append((out, list(LOG['uses']), list(LOG['splits'])))
    (o1, u1, s1), (o2, u2, s2) = res
    check(sorted(u1) == sorted(u2), 'two runs use different keys')
    a, b = leaves(o1), leaves(o2)
    check(len(a) == len(b), 'two runs return different structures')
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            check(x == y, 'two runs return different states')
        else:
            same(x, y, 'results of two runs with the same key')
    if len(u1) < min_uses:
        raise Skip('%d draws observed' % len(u1))
    seen, times = {}, {}
    for k, n in u1:
        # MALA draws the noise of its second, discarded, evaluation again from the same key: it has no influence
        times[k] = times.get(k, 0) + 1
        if n == 'normal' and seen.get(k) == n and times[k] <= 1 + unused:
            continue
        check(k not in seen, 'key %s is used twice (%s, %s)', k, seen.get(k), n)
        seen[k] = n
    for k, n in s1:
        check(k not in seen, 'key %s is used for a draw (%s) and also split', k, seen.get(k))
    if returned is not None:
        rk = bits(returned(o1))
        check(rk not in seen, 'the returned key was already used for a draw (%s)', seen.get(rk))
        check(rk not in {k for k, _ in s1}, 'the returned key was already split')
    return o1


def tgt(x, data):
    return -0.5 * jnp.sum((x - data['shift']) ** 2)


def kern(r, D):
    c = r.choice(['grw', 'mala', 'hmc'])
    r.note(kernel=c)
    if c == 'grw':
        return GaussianRandomWalk(0.5)
    if c == 'mala':
        return MALA(0.3)
    return HMC(jnp.eye(D) * 0.7, 0.2, 3)


@case(6)
def local_steps(r):
    C, D, N = r.int(1, 4), r.int(1, 3), r.int(1, 5)
    t, B = r.int(1, 3), r.choice([0, 0, 1, 2, 3])
    k = kern(r, D)
    r.note(chains=C, dims=D, steps=N, thinning=t, chain_batch=B)
    seed, key = r.randrange(2 ** 30), r.key()
    data = {'shift': jnp.zeros(D)}

    def make():
        res, _ = steps_setup(lib.Rng(seed), C, D, N, k, tgt)
        st = TakeSerialSteps('logpdf', 'kern', 'st', ['P', 'L', 'A'], N, thinning=t, chain_batch_size=B)
        return st(key, res, jnp.zeros((C, D)) + jnp.arange(C)[:, None] * 0.1, data)
    observe(make, 2 * C * N, lambda o: o[0], isinstance(k, MALA))


@case(4)
def global_steps(r):
    C, D, N, b = r.int(1, 3), 2, r.int(1, 6), r.choice([1, 2, 3, 10])
    m = tiny_flow(r, D)
    B = r.choice([0, 1, 2])
    r.note(chains=C, steps=N, proposal_batch=b, chain_batch=B)
    seed, key = r.randrange(2 ** 30), r.key()
    data = {'shift': jnp.zeros(D)}

    def make():
        res, _ = steps_setup(lib.Rng(seed), C, D, N, NFProposal(m, n_NFproposal_batch_size=b), tgt)
        st = TakeGroupSteps('logpdf', 'kern', 'st', ['P', 'L', 'A'], N, chain_batch_size=B)
        return st(key, res, jnp.zeros((C, D)) + jnp.arange(C)[:, None] * 0.1, data)
    observe(make, C * (N + 1), lambda o: o[0])


@case(4)
def tempering(r):
    C, nT, D, N, tr = r.int(1, 3), r.int(2, 4), r.int(1, 2), r.int(1, 3), r.random() < 0.5
    seed, key = r.randrange(2 ** 30), r.key()
    k = kern(r, D)

    def make():
        ll, pr, T, data, res, pt = c09.build(lib.Rng(seed), C, nT, D, N, tr)
        res['k'] = k
        return pt(key, res, jnp.zeros((C, D)) + jnp.arange(C)[:, None] * 0.1, data)
    observe(make, C * nT * N * 2 + C * (nT - 1), lambda o: o[0], isinstance(k, MALA))


@case(3)
def tempering_chains_differ(r):
    """identical chains in one call: their swap tests and their steps must not all come out the same"""
    C, nT = 96, r.int(2, 4)
    res = {'pdf': TemperedPDF(lambda x, d: -0.5 * jnp.sum(x ** 2), lambda x, d: 0.0, n_dims=1), 'tp': Buffer('tp', (C, nT - 1, 1), 0),
           'T': Buffer('T', (nT,), 0), 'st': State({'training': False}, 'st'), 'k': GaussianRandomWalk(r.choice([1e-7, 0.5]))}
    T = 3.0 ** np.arange(nT)
    x0 = np.linspace(0.0, 1.9, nT)
    r.note(temperatures=T, replicas=x0, step=res['k'].step_size)
    res['T'].data = jnp.asarray(T)
    res['tp'].data = jnp.broadcast_to(jnp.asarray(x0[1:])[None, :, None], (C, nT - 1, 1))
    pt = ParallelTempering(1, 'pdf', 'k', ['tp', 'T'], 'st')
    _, out, last = pt(r.key(), res, jnp.full((C, 1), x0[0]), {})
    if float(res['k'].step_size) < 1e-3:
        moved = np.asarray(last)[:, 0] > 0.5 * x0[1]
        p = float(np.exp((1 / T[1] - 1.0) * (0.5 * x0[1] ** 2)))
        check(0 < moved.sum() < C, 'the %d identical chains all %s the first swap (probability %.2f each)', C, 'accept' if moved.any() else 'reject', p)
    else:
        allp = np.concatenate([np.asarray(last)[:, None], np.asarray(out['tp'].data)], axis=1)[:, :, 0]
        new = [v for v in allp.ravel() if not np.isclose(v, x0, atol=1e-9).any()]
        check(len(set(new)) == len(new), '%d moved replicas but only %d different positions', len(new), len(set(new)))


@case(3)
def adam(r):
    C, D, N = r.int(1, 4), r.int(1, 3), r.int(1, 6)
    key = r.key()
    call = r.random() < 0.5
    r.note(chains=C, dims=D, steps=N, call=call)

    def make():
        o = AdamOptimization(tgt, n_steps=N, learning_rate=0.05, noise_level=1.0)
        x = jnp.ones((C, D))
        data = {'shift': jnp.zeros(D)}
        return o(key, {}, x, data) if call else o.optimize(key, lambda p, d: -tgt(p, d), x, data)
    observe(make, C * N, lambda o: o[0])


@case(3, slow=True)
def training(r):
    C, D, E, B = r.int(1, 3), 2, r.int(1, 4), r.choice([2, 5, 100])
    m = tiny_flow(r, D)
    x = r.vec(C, 8, D)
    key = r.key()
    r.note(chains=C, epochs=E, batch=B)

    def make():
        o = Optimizer(m)
        b = Buffer('p', (C, 8, D), 1)
        b.data = jnp.asarray(x)
        res = {'m': m, 'd': b, 'o': o}
        t = TrainModel('m', 'd', 'o', n_epochs=E, batch_size=B, n_max_examples=12, history_window=5)
        return t(key, res, jnp.zeros((C, D)), {})
    observe(make, 1, lambda o: o[0])


@case(3)
def flow_draws(r):
    D, n = r.int(1, 3), r.int(1, 5)
    which = r.choice(['nf', 'fm', 'comp'])
    key = r.key()
    r.note(flow=which, n=n)
    if which == 'nf':
        m = tiny_flow(r, D)
        observe(lambda: m.sample(key, n))
    elif which == 'fm':
        from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Solver, Path, CondOTScheduler
        from flowMC.resource.model.common import MLP
        m = FlowMatchingModel(Solver(MLP([D + 1, 5, D], r.key())), Path(CondOTScheduler()))
        observe(lambda: m.sample(key, n))
    else:
        from flowMC.resource.model.common import Gaussian, Composable
        m = Composable([Gaussian(jnp.zeros(1), jnp.eye(1)), Gaussian(jnp.zeros(D), jnp.eye(D)), Gaussian(jnp.zeros(1), jnp.eye(1))], {'a': (0, 1), 'b': (1, 1 + D), 'c': (1 + D, 2 + D)})
        o = observe(lambda: m.sample(key, n), 3)
        check(not np.array_equal(o['a'], o['c']), 'two parts of the composable distribution get the same draws')
