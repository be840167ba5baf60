from rac.common import *
from rac import lib
from rac.c06 import DetKernel
lib.CASES.clear()
from flowMC.strategy.parallel_tempering import ParallelTempering
from flowMC.resource.logPDF import TemperedPDF
from flowMC.resource.buffers import Buffer
from flowMC.resource.states import State


def fns(r, D):
    a, b = jnp.asarray(r.vec(D)), jnp.asarray(r.vec(D))

    def ll(x, data):
        return -1.5 * jnp.sum((x - a) ** 2) * data['s'] + 2 * jnp.sin(3 * x[0])

    def pr(x, data):
        return -0.3 * jnp.sum((x - b) ** 2) + 0.1 * data['s'] * jnp.sum(jnp.cos(x))
    return ll, pr


class Sim:
    """the contract, executed in numpy"""

    def __init__(self, ll, pr, data, T, N, u):
        self.ll, self.pr, self.data, self.T, self.N, self.u = ll, pr, data, T, N, u
        self.L = jax.jit(lambda y: ll(y, data))
        self.P = jax.jit(lambda y: pr(y, data))

    def temp(self, k, x):
        return float(self.L(jnp.asarray(x))) / self.T[k] + float(self.P(jnp.asarray(x)))

    def replica(self, k, x):
        l = self.temp(k, x)
        for _ in range(self.N):
            p = 0.9 * x + np.asarray(self.data['shift']) + 0.05 * np.tanh(l)
            l = self.temp(k, p) + 0.25 * l
            x = p
        return x

    def chain(self, xs):
        """-> new replicas, accept flags, smallest distance of a decision from its boundary"""
        xs = [self.replica(k, x) for k, x in enumerate(xs)]
        ls = [float(self.L(jnp.asarray(x))) for x in xs]
        acc, margin = [], np.inf
        for p in range(len(xs) - 1):
            ratio = (1 / self.T[p] - 1 / self.T[p + 1]) * (ls[p + 1] - ls[p])
            margin = min(margin, abs(np.log(self.u) - ratio))
            a = np.log(self.u) < ratio
            if a:
                xs[p], xs[p + 1] = xs[p + 1], xs[p]
                ls[p], ls[p + 1] = ls[p + 1], ls[p]
            acc.append(a)
        return xs, acc, margin


def build(r, C, nT, D, N, training, rng_data=True):
    ll, pr = fns(r, D)
    T = np.concatenate([[1.0], 1 + np.cumsum(r.np.uniform(0.3, 4, nT - 1))])
    data = {'s': jnp.asarray(r.uniform(0.5, 1.5)), 'shift': jnp.asarray(r.vec(D, scale=0.3))}
    if rng_data:
        ll, data = rich(r, ll, data, C, nT, nT - 1, D)
        pr, data = rich(r, pr, data, C, nT, nT - 1, D)
    tp, Tb = Buffer('tp', (C, nT - 1, D), 2), Buffer('T', (nT,), 0)
    tp.data, Tb.data = jnp.asarray(r.vec(C, nT - 1, D, scale=1.3)), jnp.asarray(T)
    st = State({'training': training, 'P': 'x'})
    oth = Buffer('o', (2,), 0)
    res = {'tl': TemperedPDF(ll, pr, n_dims=D), 'k': DetKernel(), 'tp': tp, 'T': Tb, 'st': st, 'oth': oth}
    pt = ParallelTempering(N, 'tl', 'k', ['tp', 'T'], 'st')
    r.note(chains=C, temps=T, dims=D, steps=N, training=training)
    return ll, pr, T, data, res, pt


@case(10)
def one_call(r):
    C, nT, D, N = r.int(1, 4), r.int(2, 6), r.int(1, 3), r.int(1, 4)
    training = r.random() < 0.5
    ll, pr, T, data, res, pt = build(r, C, nT, D, N, training)
    x = jnp.asarray(r.vec(C, D))
    u = r.choice([r.uniform(0.02, 0.98), r.uniform(0.3, 0.7)])
    r.note(uniform=u)
    keys0 = set(res)
    for call in range(2):
        sim = Sim(ll, pr, data, np.asarray(res['T'].data), N, u)
        start = [[np.asarray(x)[c]] + list(np.asarray(res['tp'].data)[c]) for c in range(C)]
        out = [sim.chain(s) for s in start]
        if min(o[2] for o in out) < 1e-7:
            raise Skip('a decision on its boundary')
        with REC.record(uniform=lambda v: jnp.full_like(v, u)):
            key, res2, x = pt(r.key(), res, x, data)
        check(set(res2) == keys0, 'resources changed')
        close(x, np.stack([o[0][0] for o in out]), 'cold position handed on (call %d)' % call, 1e-8)
        close(res['tp'].data, np.stack([np.stack(o[0][1:]) for o in out]), 'replicas kept (call %d)' % call, 1e-8)
        check(res['st'].data == {'training': training, 'P': 'x'} and np.isneginf(np.asarray(res['oth'].data)).all(), 'other resources changed')
        if not training:
            same(res['T'].data, T, 'ladder in production')


@case(2)
def swap_frequencies(r):
    """the uniform is uniform, and fresh per chain and pair: fractions of swaps over many chains"""
    C, nT, D = 3000, 4, 1
    ll = lambda x, data: jnp.where(x[0] > 0.5, -data['g'] * jnp.round(x[0]), 0.0)
    pr = lambda x, data: 0.0
    T = np.array([1.0, 2.0, 4.0, 8.0])
    # likelihood differences hotter minus colder: all -g, so every pair is swapped with probability < 1
    g = 0.9
    tp, Tb = Buffer('tp', (C, nT - 1, D), 2), Buffer('T', (nT,), 0)
    tp.data = jnp.broadcast_to(jnp.asarray([1.0, 2.0, 3.0])[None, :, None], (C, 3, 1))
    Tb.data = jnp.asarray(T)

    class Stay(DetKernel):
        def kernel(self, rng_key, position, log_prob, logpdf, data):
            return position, log_prob, False
    res = {'tl': TemperedPDF(ll, pr, n_dims=D), 'k': Stay(), 'tp': tp, 'T': Tb, 'st': State({'training': False})}
    pt = ParallelTempering(1, 'tl', 'k', ['tp', 'T'], 'st')
    _, _, x = pt(r.key(), res, jnp.zeros((C, 1)), {'g': jnp.asarray(g)})
    fin = np.concatenate([np.asarray(x)[:, None], np.asarray(tp.data)], 1)[:, :, 0].round().astype(int)
    check((np.sort(fin, 1) == np.arange(4)).all(), 'replicas are not permuted')
    # exact law of the result
    law = {}

    def go(st, p, w):
        if p == 3:
            law[tuple(st)] = law.get(tuple(st), 0) + w
            return
        ratio = (1 / T[p] - 1 / T[p + 1]) * (-g * st[p + 1] + g * st[p])
        a = min(1.0, np.exp(ratio))
        s2 = list(st)
        s2[p], s2[p + 1] = s2[p + 1], s2[p]
        go(s2, p + 1, w * a)
        go(list(st), p + 1, w * (1 - a))
    go([0, 1, 2, 3], 0, 1.0)
    for s, w in law.items():
        f = (fin == np.array(s)).all(1).mean()
        check(abs(f - w) < 6 * np.sqrt(w * (1 - w) / C) + 1e-9, 'arrangement %s has frequency %.4f, expected %.4f', s, f, w)


@case(6)
def undefined_likelihoods(r):
    """nothing is below NaN: a point of NaN or minus infinite likelihood is never handed to the colder replica"""
    C, nT, D = 12, r.int(2, 5), r.int(1, 2)
    pool = [0.0, -1.0, 2.0, float('nan'), -float('inf'), float('nan'), -float('inf'), -3.0]
    vals = jnp.asarray(pool)
    ll = lambda x, data: vals[jnp.round(x[0]).astype(int)]
    pr = lambda x, data: 0.0
    T = np.concatenate([[1.0], 1 + np.cumsum(r.np.uniform(0.3, 4, nT - 1))])

    class Stay(DetKernel):
        def kernel(self, rng_key, position, log_prob, logpdf, data):
            return position, log_prob, False
    tp, Tb = Buffer('tp', (C, nT - 1, D), 2), Buffer('T', (nT,), 0)
    ids = np.stack([r.np.permutation(len(pool))[:nT] for _ in range(C)])
    start = np.repeat(ids[:, :, None], D, 2).astype(float)
    tp.data, Tb.data = jnp.asarray(start[:, 1:]), jnp.asarray(T)
    res = {'tl': TemperedPDF(ll, pr, n_dims=D), 'k': Stay(), 'tp': tp, 'T': Tb, 'st': State({'training': False})}
    u = r.choice([0.05, 0.5, 0.95])
    r.note(temps=T, replicas=ids, uniform=u, likelihoods=pool)
    with REC.record(uniform=lambda v: jnp.full_like(v, u)):
        _, _, x = ParallelTempering(1, 'tl', 'k', ['tp', 'T'], 'st')(r.key(), res, jnp.asarray(start[:, 0]), {})
    fin = np.concatenate([np.asarray(x)[:, None], np.asarray(tp.data)], 1)[:, :, 0].round().astype(int)
    for c in range(C):
        st, free = list(ids[c]), False
        with np.errstate(invalid='ignore'):
            for p in range(nT - 1):
                ratio = (1 / T[p] - 1 / T[p + 1]) * (np.float64(pool[st[p + 1]]) - np.float64(pool[st[p]]))
                free = free or np.isposinf(ratio)       # leaving a point of minus infinite likelihood: inf - inf in some orders of evaluation
                if np.log(u) < ratio:
                    st[p], st[p + 1] = st[p + 1], st[p]
        check(free or list(fin[c]) == st, 'chain %d: replicas %s became %s, expected %s', c, list(ids[c]), list(fin[c]), st)
