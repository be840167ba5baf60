from rac.common import *
import equinox as eqx
import optax
from flowMC.resource.model.common import MLP
from flowMC.resource.model.nf_model.base import NFModel
from flowMC.resource.model.flowmatching.base import CondOTScheduler, FlowMatchingModel, Path, Solver

SCRIPT = {}


class StubNF(NFModel):
    """a model whose steps are recorded and whose losses are scripted"""
    count: jax.Array

    def __init__(self, D):
        self._n_features, self._data_mean, self._data_cov = D, jnp.full(D, 7.0), jnp.eye(D) * 3 if D > 1 else jnp.asarray(3.0)
        self.count = jnp.asarray(0.0)

    def log_prob(self, x):
        return jnp.sum(x)
    sample = forward = inverse = print_parameters = save_resource = load_resource = log_prob

    def train_step(self, x, optim, state):
        return scripted(self, (x,), optim, state)


class StubFM(FlowMatchingModel):
    count: jax.Array

    def __init__(self, D):
        super().__init__(Solver(MLP([D + 1, 3, D], jax.random.PRNGKey(0))), Path(CondOTScheduler()), jnp.full(D, 7.0), jnp.eye(D) * 3 if D > 1 else jnp.asarray(3.0))
        self.count = jnp.asarray(0.0)

    def train_step(self, x, t, dx, optim, state):
        return scripted(self, (x, t, dx), optim, state)


def scripted(m, batch, optim, state):
    S = SCRIPT
    k = len(S['log'])
    S['log'].append((m, [np.asarray(b) for b in batch], optim, state))
    loss = S['losses'][k] if k < len(S['losses']) else 0.0
    return jnp.asarray(loss), eqx.tree_at(lambda z: z.count, m, jnp.asarray(float(k + 1))), state + 1


def stats(y):
    return y.mean(0), np.atleast_2d(np.cov(y.T))


@case(20)
def best(r):
    """any sequence of losses; batches of any size"""
    kind = r.choice(['nf', 'fm'])
    D = r.int(1, 3)
    B = r.int(1, 6)
    N = r.choice([r.int(2, 3), r.int(2, 14), B, 2 * B, B + 1, max(2, B - 1), 2 * B - 1])
    N = max(N, 2)
    E = r.int(1, 6)
    data = r.vec(N, D) + np.arange(N)[:, None] * 100
    n = N // B
    per = max(n, 1)
    pool = [0.5, 1.0, 2.0, 2.0, -1.0, float('nan'), float('inf'), 1e9, 2e9, 1e6]
    ends = [r.choice(pool) for _ in range(E)]
    if r.random() < 0.2:
        ends = [r.choice([float('nan'), 1e10, float('inf')]) for _ in range(E)]
    losses = []
    for e in ends:
        losses += [r.choice([-5.0, 3.0]) for _ in range(per - 1)] + [e]
    r.note(kind=kind, D=D, N=N, batch=B, epochs=E, losses=ends)
    SCRIPT.clear()
    SCRIPT.update(log=[], losses=losses)
    m = (StubNF if kind == 'nf' else StubFM)(D)
    x0, t = r.vec(N, D) + np.arange(N)[:, None] * 1000, r.np.uniform(0, 1, (N, 1))
    arg = jnp.asarray(data) if kind == 'nf' else (jnp.asarray(x0), jnp.asarray(data), jnp.asarray(t))
    opt = object()
    import io, contextlib
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        key2, bm, bs, lv = m.train(r.key(), arg, opt, jnp.asarray(100.0), E, B, verbose=r.random() < 0.3)
    log = SCRIPT['log']
    check(len(log) == E * per, '%d steps, not %d epochs of %d', len(log), E, per)
    lv = np.asarray(lv)
    check(lv.shape == (E,), 'losses of shape %s', lv.shape)
    same(lv, np.asarray(ends), 'losses of the epochs')
    mu, cov = stats(data)
    sd = np.sqrt(np.diag(cov))
    for k, (mm, b, o, st) in enumerate(log):
        check(o is opt, 'another optimizer')
        check(float(mm.count) == k, 'step %d starts from the model of step %d', k, int(mm.count))
        check(float(st) == 100 + k, 'step %d starts from optimizer state %s', k, float(st) - 100)
        close(np.asarray(mm.data_mean), mu, 'whitening mean')
        close(np.asarray(mm.data_cov), cov, 'whitening covariance')
    for e in range(E):
        seen = []
        for k in range(per):
            b = log[e * per + k][1]
            size = B if n else N
            check(b[0].shape == (size, D), 'batch of shape %s', b[0].shape)
            if kind == 'nf':
                ids = [int(np.argmin(np.abs(data - row).sum(1))) for row in b[0]]
                close(b[0], data[ids], 'batch')
            else:
                check(b[1].shape == (size, 1) and b[2].shape == (size, D), 'shapes %s %s', b[1].shape, b[2].shape)
                ids = [int(np.argmin(np.abs(t[:, 0] - v))) for v in b[1][:, 0]]
                w = (data - mu) / sd
                close(b[1], t[ids], 'times')
                close(b[0], (1 - t[ids]) * x0[ids] + t[ids] * w[ids], 'points on the paths', 1e-6)
                close(b[2], w[ids] - x0[ids], 'velocities', 1e-6)
            seen += ids
        check(len(set(seen)) == len(seen), 'epoch %d uses an example twice: %s', e, seen)
    us = [(v, k) for k, v in enumerate(ends) if v < 1e9]
    if us:
        lo = min(v for v, _ in us)
        first = [k for v, k in us if v == lo][0]
        want = (first + 1) * per
        check(float(bm.count) == want, 'model of step %d returned, lowest loss is that of epoch %d (step %d)', int(bm.count), first, want)
        check(float(bs) == 100 + want, 'optimizer state of step %s returned, not %d', float(bs) - 100, want)
        close(np.asarray(bm.data_mean), mu, 'whitening mean of the result')
        close(np.asarray(bm.data_cov), cov, 'whitening covariance of the result')
    else:
        check(float(bm.count) == 0 and float(bs) == 100, 'no usable loss, but model of step %s, state %s', float(bm.count), float(bs) - 100)
        close(np.asarray(bm.data_mean), np.full(D, 7.0), 'whitening of the given model')


def tiny(r, kind, D):
    if kind == 'nf':
        return tiny_flow(r, D, 1)
    net = perturb(r, MLP([D + 1, 4, D], r.key(), activation=jax.nn.tanh), 0.5)
    A = r.vec(D, D, scale=0.4)
    return FlowMatchingModel(Solver(net), Path(CondOTScheduler()), jnp.asarray(r.vec(D)), jnp.asarray(A @ A.T + np.eye(D)))


def arrays(x):
    return jax.tree.leaves(eqx.filter(x, eqx.is_inexact_array))


def agree(a, b, what, tol=1e-6):
    p, q = arrays(a), arrays(b)
    check(len(p) == len(q), '%s: different structure', what)
    for u, v in zip(p, q):
        close(u, v, what, tol)


def VG(kind):
    return eqx.filter_jit(eqx.filter_value_and_grad(lambda z, batch: objective(kind, z, batch)))


def objective(kind, m, batch):
    if kind == 'nf':
        return -jnp.sum(jax.lax.map(m.log_prob, batch[0])) / len(batch[0])
    x, t, dx = batch
    e = jax.lax.map(lambda a: jnp.sum((m.solver.model(jnp.concatenate([a[0], a[1]])) - a[2]) ** 2), (x, t, dx))
    return jnp.sum(e) / (x.shape[0] * x.shape[1])


@case(8)
def steps(r):
    """one step: loss, gradient and optimizer update"""
    kind = r.choice(['nf', 'fm'])
    D, B = r.int(1, 3), r.int(1, 4)
    m = tiny(r, kind, D)
    batch = [jnp.asarray(r.vec(B, D))] + ([] if kind == 'nf' else [jnp.asarray(r.np.uniform(0, 1, (B, 1))), jnp.asarray(r.vec(B, D))])
    opt = r.choice([lambda: optax.sgd(0.1, momentum=0.9), lambda: optax.adam(0.05), lambda: optax.chain(optax.clip(0.3), optax.adamw(0.03))])()
    st = opt.init(eqx.filter(m, eqx.is_inexact_array))
    r.note(kind=kind, D=D, B=B)
    ref, rs = m, st
    for _ in range(2):
        loss, m, st = m.train_step(*batch, opt, st)
        v, g = VG(kind)(ref, batch)
        up, rs = opt.update(g, rs, eqx.filter(ref, eqx.is_inexact_array))
        ref = eqx.apply_updates(ref, up)
        close(float(loss), float(v), 'loss of the step', 1e-6)
        agree(m, ref, 'model after the step')
        agree(st, rs, 'optimizer state after the step')


@case(5)
def whole(r):
    """training as a whole against an independent loop over the recorded permutations"""
    kind = r.choice(['nf', 'fm'])
    D, B = r.int(1, 2), r.int(1, 4)
    N = r.int(2, 9)
    E = r.int(1, 3)
    m = tiny(r, kind, D)
    if D == 1:
        m = eqx.tree_at(lambda z: z._data_cov, m, jnp.asarray(1.0))
    data, x0, t = r.vec(N, D), r.vec(N, D), r.np.uniform(0, 1, (N, 1))
    opt = optax.adam(0.05)
    st = opt.init(eqx.filter(m, eqx.is_inexact_array))
    r.note(kind=kind, D=D, B=B, N=N, epochs=E)
    arg = jnp.asarray(data) if kind == 'nf' else (jnp.asarray(x0), jnp.asarray(data), jnp.asarray(t))
    with REC.record():
        _, bm, bs, lv = m.train(r.key(), arg, opt, st, E, B, verbose=False)
        perms = [np.asarray(a[2]) for a in REC.of('permutation')]
    n = N // B
    if len(perms) != (E if n else 0) or any(p.shape != (N,) for p in perms):
        raise Skip('%d permutations' % len(perms))
    mu, cov = data.mean(0), np.cov(data.T)
    ref = eqx.tree_at(lambda z: (z._data_mean, z._data_cov), m, (jnp.asarray(mu), jnp.asarray(cov)))
    rs, out, kept = st, [], None
    vg = VG(kind)
    for e in range(E):
        for ids in (perms[e][:n * B].reshape(n, B) if n else [np.arange(N)]):
            batch = [jnp.asarray(data[ids])]
            if kind == 'fm':
                w = (data[ids] - np.asarray(ref.data_mean)) / np.sqrt(np.diag(np.atleast_2d(np.asarray(ref.data_cov))))
                batch = [jnp.asarray((1 - t[ids]) * x0[ids] + t[ids] * w), jnp.asarray(t[ids]), jnp.asarray(w - x0[ids])]
            v, g = vg(ref, batch)
            up, rs = opt.update(g, rs, eqx.filter(ref, eqx.is_inexact_array))
            ref = eqx.apply_updates(ref, up)
        out.append(float(v))
        if out[-1] < (1e9 if kept is None else kept[0]):
            kept = out[-1], ref, rs
    close(lv, out, 'losses', 1e-5)
    agree(bm, kept[1], 'model returned', 1e-5)
    agree(bs, kept[2], 'optimizer state returned', 1e-5)
