from rac.common import *
from rac import lib
from flowMC.resource.kernel.base import ProposalBase
from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
from flowMC.resource.buffers import Buffer
from flowMC.resource.states import State


def det_pos(x, lp, shift):
    return 0.9 * x + shift + 0.05 * np.tanh(lp)


class DetKernel(ProposalBase):
    """a deterministic kernel: every output depends on position, log density, target and data"""

    def __init__(self):
        pass

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        p = 0.9 * position + data['shift'] + 0.05 * jnp.tanh(log_prob)
        l = logpdf(p, data) + 0.25 * log_prob
        return p, l, p[0] > 0

    def print_parameters(self):
        pass
    save_resource = load_resource = print_parameters


class DetGroup(DetKernel):
    def kernel(self, rng_key, position, log_prob, logpdf, data):
        n = data['n_steps']
        P, L, A = [], [], []
        for _ in range(n):
            position, log_prob, a = super().kernel(rng_key, position, log_prob, logpdf, data)
            P.append(position), L.append(log_prob), A.append(a)
        return jnp.stack(P), jnp.stack(L), jnp.stack(A)


class RandKernel(ProposalBase):
    """moves by key-dependent noise"""

    def __init__(self):
        pass

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        p = 0.8 * position + jax.random.normal(rng_key, position.shape)
        return p, logpdf(p, data), p[0] > 0

    def print_parameters(self):
        pass
    save_resource = load_resource = print_parameters


def setup(r, C, D, cap, kern, f):
    b = {'p': Buffer('p', (C, cap, D), 1), 'l': Buffer('l', (C, cap), 1), 'a': Buffer('a', (C, cap), 1)}
    for k, v in b.items():
        v.data = jnp.asarray(r.vec(*v.data.shape))
    old = {k: np.asarray(v.data) for k, v in b.items()}
    res = {'logpdf': LogPDF(f, n_dims=D), 'kern': kern, 'st': State({'P': 'p', 'L': 'l', 'A': 'a', 'training': True}), **b}
    return res, old


def target_shift(x, data):
    return -0.5 * jnp.sum((x - data['shift']) ** 2) + 0.3 * jnp.sum(jnp.sin(x))


@case(14)
def records_iterates(r):
    C, D, N, t = r.int(1, 5), r.int(1, 3), r.int(1, 9), r.int(1, 5)
    W = -(-N // t)
    c0 = r.int(0, 3)
    segs = r.int(1, 2)
    cap = c0 + segs * W + r.int(0, 3)
    group = r.random() < 0.5
    B = r.choice([0, 1, 2, 3, 4])
    r.note(chains=C, dims=D, steps=N, thinning=t, cursor=c0, capacity=cap, group=group, chain_batch=B, segments=segs)
    tgt, data = rich(r, target_shift, {'shift': jnp.asarray(r.vec(D, scale=0.3))}, C, D, N)
    jt = jax.jit(lambda p: tgt(p, data))
    res, old = setup(r, C, D, cap, DetGroup() if group else DetKernel(), tgt)
    keys0 = set(res)
    st = (TakeGroupSteps if group else TakeSerialSteps)('logpdf', 'kern', 'st', ['P', 'L', 'A'], N, thinning=t, chain_batch_size=B)
    if r.random() < 0.4:
        # an earlier call on other resources leaves nothing behind but the write position
        r.note(later_call=True)
        class Other(DetGroup if group else DetKernel):
            def kernel(self, rng_key, position, log_prob, logpdf, data):
                return super().kernel(rng_key, position - 1.0, log_prob, logpdf, data)
        res1, _ = setup(r, C, D, W, Other(), lambda x, d: -jnp.sum((x - 1) ** 2))
        st(r.key(), res1, jnp.asarray(r.vec(C, D)), {**data, 'shift': jnp.asarray(r.vec(D))})
    st.set_current_position(c0)
    x = jnp.asarray(r.vec(C, D))
    exp = {k: v.copy() for k, v in old.items()}
    cur, key = x, r.key()
    for s in range(segs):
        start = np.asarray(cur)
        key, res, cur = st(key, res, cur, data)
        base = c0 + s * W
        for c in range(C):
            p = start[c]
            l = float(jt(jnp.asarray(p)))
            its = []
            for _ in range(N):
                p = det_pos(p, l, np.asarray(data['shift']))
                l = float(jt(jnp.asarray(p))) + 0.25 * l
                its.append((p, l, float(p[0] > 0)))
            for m, k in enumerate(range(0, N, t)):
                exp['p'][c, base + m], exp['l'][c, base + m], exp['a'][c, base + m] = its[k]
        for k in exp:
            close(res[k].data, exp[k], 'buffer %s after segment %d' % (k, s), 1e-9)
        check(st.current_position == base + W, 'write position %s, expected %d', st.current_position, base + W)
        close(cur, exp['p'][:, base + W - 1], 'position handed on', 1e-9)
    check(set(res) == keys0 and res['st'].data == {'P': 'p', 'L': 'l', 'A': 'a', 'training': True}, 'resources or state changed')


@case(3)
def with_noise(r):
    """random kernel: thinned records are a subset of the unthinned ones"""
    C, D, N, t = r.int(1, 3), r.int(1, 2), r.int(2, 8), r.int(2, 4)
    f = target_shift
    data = {'shift': jnp.zeros(D)}
    key, x = r.key(), jnp.asarray(r.vec(C, D))
    r.note(chains=C, steps=N, thinning=t)
    out = []
    for th in (1, t):
        res, _ = setup(r, C, D, N, RandKernel(), f)
        st = TakeSerialSteps('logpdf', 'kern', 'st', ['P', 'L', 'A'], N, thinning=th)
        st(key, res, x, data)
        out.append(res)
    W = -(-N // t)
    for k in ('p', 'l', 'a'):
        close(out[1][k].data[:, :W], np.asarray(out[0][k].data)[:, ::t], 'thinned buffer ' + k, 1e-9)
    for c in range(C):
        for m in range(N):
            close(out[0]['l'].data[c, m], val(f, out[0]['p'].data[c, m], data), 'log density slot %d' % m, 1e-9)
