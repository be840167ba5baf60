import dataclasses
from rac.common import *
from flowMC.resource.buffers import Buffer
from flowMC.resource.states import State
from flowMC.resource.optimizer import Optimizer
from flowMC.resource.model.nf_model.base import NFModel
from flowMC.strategy.train_model import TrainModel


class Log(list):
    """opaque to the array library's tree flattening"""
    __hash__ = object.__hash__
    __eq__ = object.__eq__


class Spy(NFModel):
    """records what it is trained on; training returns recognisable results"""
    tag: jax.Array
    nf: int
    log: list

    def __init__(self, tag, nf, log):
        self.tag, self.nf, self.log = jnp.asarray(tag, dtype=float), nf, log
        for f in dataclasses.fields(self):
            if f.name not in self.__dict__:
                object.__setattr__(self, f.name, None)

    @property
    def n_features(self):
        return self.nf

    def train(self, rng, data, optim, state, num_epochs, batch_size, verbose=True, **kw):
        losses = jnp.arange(num_epochs) * 0.5 + 3.0
        new = Spy(self.tag + 1.0, self.nf, self.log)
        ns = jax.tree_util.tree_map(lambda x: x + 1, state)
        self.log.append(dict(rng=rng, data=np.asarray(data), optim=optim, state=state, epochs=num_epochs, batch=batch_size, model=self, new=new, new_state=ns, losses=losses))
        return jax.random.split(rng)[0], new, ns, losses

    def log_prob(self, x):
        return -0.5 * jnp.sum(x ** 2)

    def sample(self, rng_key, n_samples):
        return jax.random.normal(rng_key, (n_samples, self.nf))

    def forward(self, x, key=None):
        return x, 0.0

    def inverse(self, x):
        return x, 0.0

    def __call__(self, x):
        return x

    def print_parameters(self):
        pass

    def save_resource(self, path):
        pass

    def load_resource(self, path):
        pass


@case(12)
def trains_on_recent_rows(r):
    C, D = r.int(1, 4), r.int(1, 3)
    F = r.int(1, 12)
    h = r.choice([1, 2, 3, 5, 8, 100])
    if r.random() < 0.25:               # as long as real runs
        F = r.int(300, 2500)
        h = r.choice([250, 512, 1000, 1500, 5000])
    T = F + r.int(0, 6)
    W = min(F, h)
    N = r.choice([1, 7, 60 * C * W] if C * W < 500 else [1, 8 * C * W, 8 * C * W])
    E = r.int(1, 4)
    cur = r.int(0, 3)
    bad = r.choice([-np.inf, -np.inf, np.inf, np.nan])
    data = np.full((C, T, D), -np.inf)
    rows = np.arange(C * T * D, dtype=float).reshape(C, T, D) + 1.0
    # finite rows first (as recorded by the sampling strategies), or anywhere
    where = np.zeros((C, T), bool)
    for c in range(C):
        idx = np.arange(F) if r.random() < 0.6 else np.sort(r.np.permutation(T)[:F])
        where[c, idx] = True
    data[where] = rows[where]
    if D > 1 and T > F:
        for c in range(C):
            t = np.where(~where[c])[0][0]
            data[c, t, :] = rows[c, t]
            data[c, t, r.int(0, D - 1)] = bad      # partly finite rows are not eligible
    r.note(chains=C, rows=F, capacity=T, window=h, n_max=N, epochs=E, cursor=cur, finite=where)
    allowed = []
    for c in range(C):
        allowed += [tuple(data[c, t]) for t in np.where(where[c])[0][F - W:]]
    log = Log()
    m = Spy(0.0, D, log)
    o = Optimizer(m)
    st0 = o.optim_state
    optim0 = o.optim
    b = Buffer('p', (C, T, D), 1)
    b.data = jnp.asarray(data)
    b.cursor = T
    lb = Buffer('l', (cur + E + 2,), 0)
    old = np.arange(cur + E + 2) * -1.0
    lb.data = jnp.asarray(old)
    lb.cursor = cur
    oth = State({'training': True})
    res = {'m': m, 'd': b, 'o': o, 'l': lb, 's': oth}
    named = r.random() < 0.7
    t = TrainModel('m', 'd', 'o', loss_buffer_name='l' if named else '', n_epochs=E, batch_size=r.int(1, 9), n_max_examples=N, history_window=h)
    x0 = jnp.asarray(r.vec(C, D))
    key = r.key()
    k2, res2, x2 = t(key, res, x0, {})
    check(len(log) == 1, 'trained %d times', len(log))
    g = log[0]
    got = [tuple(x) for x in g['data']]
    check(g['data'].shape == (N, D), 'training data of shape %s', g['data'].shape)
    ok = set(allowed)
    out = [x for x in got if x not in ok]
    check(not out, 'trained on %s, which is not a recorded finite row of the last %d of its chain', out[:1], W)
    if len(allowed) >= 100 and N >= 8 * len(allowed):
        hit = len(set(got) & ok)        # 1 - exp(-8) of them are expected
        check(hit >= 0.98 * len(allowed), 'only %d of the %d eligible rows are ever drawn in %d draws', hit, len(allowed), N)
    if N >= 60 * len(allowed):
        p = 1.0 / len(allowed)
        cnt = {x: 0 for x in allowed}
        for x in got:
            cnt[x] += 1
        lim = 6.5 * np.sqrt(N * p * (1 - p)) + 1
        check(all(abs(v - N * p) <= lim for v in cnt.values()), 'rows are not drawn uniformly with replacement: counts %s', sorted(cnt.values())[:5])
        if len(allowed) > 1:
            check(len(set(cnt.values())) > 1 or len(allowed) < 4, 'every row drawn equally often: not drawn with replacement')
    check(g['model'] is m and g['state'] is st0 and g['optim'] is optim0, 'not the stored flow, optimizer or state is trained')
    check(g['epochs'] == E and g['batch'] == t.batch_size, 'epochs or batch size')
    check(res2['m'] is g['new'], 'the stored flow is not the trained one')
    check(res2['o'] is o and o.optim_state is g['new_state'] and o.optim is optim0, 'the optimizer state is not the one after training')
    exp = old.copy()
    if named:
        exp[cur:cur + E] = g['losses']
    same(res2['l'].data, exp, 'loss buffer')
    check(res2['l'].cursor == (cur + E if named else cur), 'loss cursor %s', res2['l'].cursor)
    same(res2['d'].data, data, 'data buffer')
    check(b.cursor == T, 'data cursor')
    same(x2, x0, 'positions')
    check(set(res2) == set(res) and res2['s'] is oth and oth.data == {'training': True}, 'other resources')


@case(3)
def repeated_training_appends(r):
    log = Log()
    D = 2
    m = Spy(0.0, D, log)
    o = Optimizer(m)
    b = Buffer('p', (3, 9, D), 1)
    b.data = jnp.asarray(r.vec(3, 9, D))
    E = r.int(1, 3)
    lb = Buffer('l', (4 * E,), 0)
    res = {'m': m, 'd': b, 'o': o, 'l': lb}
    t = TrainModel('m', 'd', 'o', loss_buffer_name='l', n_epochs=E, batch_size=4, n_max_examples=6, history_window=3)
    key, x = r.key(), jnp.zeros((3, D))
    exp = np.full(4 * E, -np.inf)
    for k in range(4):
        b.data = jnp.asarray(r.vec(3, 9, D))
        key, res, x = t(key, res, x, {})
        rows = {tuple(y) for y in np.asarray(b.data)[:, -3:].reshape(-1, D)}
        check(all(tuple(y) in rows for y in log[-1]['data']), 'training %d is on rows that are not in the window of the data buffer', k)
        exp[k * E:(k + 1) * E] = log[-1]['losses']
        same(res['l'].data, exp, 'loss buffer')
        check(float(res['m'].tag) == k + 1, 'the flow trained last is not carried on')
        if k:
            check(log[-1]['state'] is log[-2]['new_state'], 'the optimizer state is not carried on')
            check(not np.array_equal(np.asarray(log[-1]['rng']), np.asarray(log[-2]['rng'])), 'same key for two trainings')
