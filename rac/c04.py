from rac.common import *
from rac.c03 import StubFlow
from rac import lib
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.kernel.MALA import MALA
from flowMC.resource.kernel.HMC import HMC
from flowMC.resource.kernel.NF_proposal import NFProposal
from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
from flowMC.resource.buffers import Buffer
from flowMC.resource.states import State
lib.CASES.clear()


def local_kernel(r, D, which=None):
    which = which or r.choice(['grw', 'mala', 'hmc'])
    h = round(r.uniform(0.1, 1.5), 3)
    r.note(kernel=which, step=h)
    if which == 'grw':
        return GaussianRandomWalk(h)
    if which == 'mala':
        return MALA(h)
    A = r.vec(D, D, scale=0.4)
    return HMC(jnp.asarray(A @ A.T + 0.5 * np.eye(D)), h * 0.5, r.int(1, 4))


def stub(r, D):
    return StubFlow(jnp.asarray(r.vec(D, scale=0.3)), jnp.asarray(r.np.uniform(0.6, 1.6, D)), D)


def agree(x0, P, LP, A, f, data):
    prev = np.asarray(x0)
    for k in range(len(P)):
        close(LP[k], val(f, P[k], data), 'log density returned at step %d' % k, 1e-6)
        moved = not np.array_equal(np.asarray(P[k]), prev)
        check(moved == bool(A[k]), 'step %d: flag %s but the position %s', k, bool(A[k]), 'moved' if moved else 'is the given one')
        prev = np.asarray(P[k])


def one_kernel(r, which):
    D = r.int(1, 3)
    f = target(r, D)
    data = {'scale': r.choice([1.0, 0.6])}
    x = jnp.asarray(r.vec(D))
    kern = local_kernel(r, D, which)
    t = wrapped(r, f, D)
    lp = f(x, data)
    step = jax.jit(lambda k, y, l: kern.kernel(k, y, l, t, data))
    P, L, A = [], [], []
    y = x
    for _ in range(8):
        y, lp, a = step(r.key(), y, lp)
        P.append(y), L.append(lp), A.append(a)
    agree(x, P, L, A, f, data)


@case(3)
def grw(r):
    one_kernel(r, 'grw')


@case(3)
def mala(r):
    one_kernel(r, 'mala')


@case(3)
def hmc(r):
    one_kernel(r, 'hmc')


@case(4)
def beyond_the_largest_number(r):
    """a proposal may overflow where the target is finite: it is then accepted or rejected as any other"""
    D = r.int(1, 3)
    f = lambda x, data: -jnp.sum(jnp.arctan(x - 0.3) ** 2) * data['scale']
    data = {'scale': r.choice([0.1, 1.0])}
    h = r.choice([1e308, 5e307, 1e200])
    kern = GaussianRandomWalk(h)
    x = jnp.asarray(r.vec(D))
    z = jnp.asarray(r.choice([2.5, -2.5, 3.9]) * np.ones(D) * np.asarray([r.choice([1.0, 0.0]) if i else 1.0 for i in range(D)]))
    u = r.choice([1e-300, 0.2, 0.999])
    r.note(step=h, x=x, noise=z, uniform=u)
    with REC.record(normal=lambda v: jnp.broadcast_to(z, v.shape), uniform=lambda v: jnp.full_like(v, u)):
        P, L, a = kern.kernel(r.key(), x, f(x, data), f, data)
    agree(x, [P], [L], [a], f, data)


@case(4)
def nf(r):
    D = r.int(1, 3)
    f = target(r, D)
    data = {'scale': r.choice([1.0, 0.6])}
    x = jnp.asarray(r.vec(D))
    n, B = r.int(1, 9), r.int(1, 5)
    r.note(n_steps=n, batch=B)
    kern = NFProposal(stub(r, D), B)
    P, L, A = kern.kernel(r.key(), x, f(x, data), f, {**data, 'n_steps': n})
    agree(x, P, L, A, f, data)


@case(6)
def along_a_run(r):
    D, C, N = r.int(1, 3), r.int(1, 4), r.int(2, 7)
    f = target(r, D)
    data = {'scale': r.choice([1.0, 0.6])}
    group = r.random() < 0.4
    B = r.choice([0, 2, 3])
    r.note(chains=C, steps=N, group=group, chain_batch=B)
    kern = NFProposal(stub(r, D), r.int(1, 5)) if group else local_kernel(r, D)
    f, data = rich(r, f, data, C, D, N)
    res = {'logpdf': LogPDF(f, n_dims=D), 'kern': kern, 'st': State({'P': 'p', 'L': 'l', 'A': 'a'}),
           'p': Buffer('p', (C, N, D), 1), 'l': Buffer('l', (C, N), 1), 'a': Buffer('a', (C, N), 1)}
    st = (TakeGroupSteps if group else TakeSerialSteps)('logpdf', 'kern', 'st', ['P', 'L', 'A'], N, chain_batch_size=B)
    x = jnp.asarray(r.vec(C, D))
    st(r.key(), res, x, data)
    for c in range(C):
        agree(x[c], res['p'].data[c], res['l'].data[c], res['a'].data[c], f, data)


@case(6)
def thinned(r):
    """with thinning, what is recorded at a slot still belongs together"""
    D, C, th = r.int(1, 3), r.int(1, 4), r.int(2, 4)
    K = r.int(1, 4)
    N = K * th
    f = target(r, D)
    data = {'scale': r.choice([1.0, 0.6])}
    group = r.random() < 0.4
    B = r.choice([0, 2, 3])
    r.note(chains=C, steps=N, group=group, chain_batch=B, thinning=th)
    kern = NFProposal(stub(r, D), r.int(1, 5)) if group else local_kernel(r, D)
    key, x = r.key(), jnp.asarray(r.vec(C, D))
    out = {}
    for t, n in ((1, N), (th, K)):
        res = {'logpdf': LogPDF(f, n_dims=D), 'kern': kern, 'st': State({'P': 'p', 'L': 'l', 'A': 'a'}),
               'p': Buffer('p', (C, n, D), 1), 'l': Buffer('l', (C, n), 1), 'a': Buffer('a', (C, n), 1)}
        st = (TakeGroupSteps if group else TakeSerialSteps)('logpdf', 'kern', 'st', ['P', 'L', 'A'], N, thinning=t, chain_batch_size=B)
        st(key, res, x, data)
        out[t] = [np.asarray(res[k].data) for k in 'pla']
    P, L, A = out[th]
    for c in range(C):
        for k in range(K):
            close(L[c, k], val(f, P[c, k], data), 'chain %d: log density in slot %d' % (c, k), 1e-6)
            # the flag in the slot is that of the step which produced the position there
            full = out[1]
            js = [j for j in range(N) if np.array_equal(full[0][c, j], P[c, k])]
            check(js, 'chain %d: the position in slot %d is not one of the chain', c, k)
            check(any(full[2][c, j] == A[c, k] for j in js), 'chain %d: the flag in slot %d', c, k)
