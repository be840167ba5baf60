from rac.common import *
import os
import shutil
import tempfile
import equinox as eqx
from flowMC.resource.buffers import Buffer
from flowMC.resource.states import State
from flowMC.resource.model.nf_model.realNVP import RealNVP
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
from flowMC.resource.model.common import MLP
from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Solver, Path, CondOTScheduler


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='rac_c18_')
        self.old = os.getcwd()
        os.chdir(self.d)
        return self.d + '/'

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d)


def the_file(d):
    fs = [os.path.join(a, f) for a, _, b in os.walk(d) for f in b]
    check(len(fs) == 1, 'files written: %s', fs)
    return fs[0]


NAMES = ['b', 'positions_training', 'a b', 'v1.2', '1', 'x.y.z', 'ünï', 'None', '-', 'cursor', "q'q"]


@case(30)
def buffer(r):
    rank = r.int(1, 4)
    shape = tuple(r.int(1, 5) for _ in range(rank))
    cd = r.int(0, rank - 1)
    name = r.choice(NAMES)
    b = Buffer(name, shape, cd)
    for _ in range(r.int(0, 3)):
        us = list(shape)
        us[cd] = r.int(1, shape[cd])
        u = r.vec(*us, scale=r.choice([1.0, 1e-30, 1e30, 123456.789]))
        u.flat[0] = r.choice([1.0, np.nan, np.inf, -np.inf, 1 / 3])
        st = r.int(0, shape[cd] - us[cd])
        b.update_buffer(jnp.asarray(u), st)
        b.cursor = st + us[cd]
    if r.random() < 0.3:
        b.cursor += 10 ** r.int(0, 9)
    r.note(name=name, shape=shape, cursor_dim=cd, cursor=b.cursor)
    d0, c0 = np.asarray(b.data).copy(), b.cursor
    with Scratch() as d:
        b.save_resource(d)
        f = the_file(d)
        other = Buffer('other', (2, 2), 1)
        l = other.load_resource(f)
        check(other.name == 'other' and other.data.shape == (2, 2) and other.cursor_dim == 1, 'loading changed the receiver') if l is not other else None
    check(type(l) is Buffer and l.name == name, 'loaded name %r, saved %r', l.name, name)
    same(l.data, d0, 'loaded contents')
    check(l.data.dtype == b.data.dtype, 'loaded dtype %s, saved %s', l.data.dtype, b.data.dtype)
    check(type(l.cursor) is type(c0) and l.cursor == c0, 'loaded cursor %r, saved %r', l.cursor, c0)
    check(type(l.cursor_dim) is int and l.cursor_dim == cd, 'loaded cursor_dim %r, saved %r', l.cursor_dim, cd)
    same(b.data, d0, 'contents of the saved buffer')
    check(b.name == name and b.cursor == c0 and b.cursor_dim == cd, 'saving changed the buffer')
    # history continues identically
    us = list(shape)
    us[cd] = 1
    u = jnp.asarray(r.vec(*us))
    b.update_buffer(u, shape[cd] - 1)
    l.update_buffer(u, shape[cd] - 1)
    same(l.data, b.data, 'contents after one more write')


@case(30)
def state(r):
    keys = ['a', 'training', 'target_positions', '', 'True', 'ü', 'x y', '1']
    vals = [True, False, 0, 1, -5, 2 ** 70, 'x', '', 'True', '1', 'positions_training', ' pad ', 'ü']
    data = {k: r.choice(vals) for k in r.sample(keys, r.int(0, 8))}
    name = r.choice(NAMES)
    st = State(dict(data), name=name)
    r.note(name=name, data=data)
    with Scratch() as d:
        st.save_resource(d)
        f = the_file(d)
        if data:
            st.update([next(iter(data))], ['later'])
        l = State({'z': 1}, name='other').load_resource(f)
    if data:
        k = next(iter(data))
        check(st.data == {**data, k: 'later'}, 'saved state is no longer usable')
    check(type(l) is State and l.name == name, 'loaded name %r, saved %r', l.name, name)
    got = {k: (type(v), v) for k, v in l.data.items()}
    check(got == {k: (type(v), v) for k, v in data.items()}, 'loaded %r, saved %r', l.data, data)
    check(isinstance(l.data, dict), 'data is a %s', type(l.data))


def perturb(r, m):
    def f(x):
        if eqx.is_inexact_array(x) and x.ndim:
            return x + jnp.asarray(r.vec(*x.shape, scale=0.05), dtype=x.dtype)
        return x
    import jax
    return jax.tree.map(f, m)


@case(4, slow=True)
def model(r):
    kind = r.choice(['rnvp', 'rqs', 'fm'])
    n = r.int(2, 3)
    L, h, B = r.int(1, 3), r.int(2, 4), r.int(2, 4)
    mean, cov = jnp.asarray(r.vec(n)), jnp.asarray(np.diag(np.exp(r.vec(n))))
    r.note(kind=kind, n=n, layers=L)

    def build(k, mean, cov):
        if kind == 'rnvp':
            return RealNVP(n, L, h, k, data_mean=mean, data_cov=cov)
        if kind == 'rqs':
            return MaskedCouplingRQSpline(n, L, [h], B, k, data_mean=mean, data_cov=cov)
        return FlowMatchingModel(Solver(MLP([n + 1, h, n], k)), Path(CondOTScheduler()), mean, cov)
    a = perturb(r, build(r.key(), mean, cov))
    b = build(r.key(), jnp.zeros(n), jnp.eye(n))
    import jax
    la = [np.asarray(x).copy() for x in jax.tree.leaves(eqx.filter(a, eqx.is_array))]
    res = r.random() < 0.5
    with Scratch() as d:
        (a.save_resource if res else a.save_model)(d + 'model')
        f = the_file(d)
        l = (b.load_resource if not res else b.load_model)(f[:-4] if f.endswith('.eqx') else f)
    for x, y in zip(la, jax.tree.leaves(eqx.filter(a, eqx.is_array))):
        same(x, y, 'parameter of the saved model')
    ll = jax.tree.leaves(eqx.filter(l, eqx.is_array))
    check(len(ll) == len(la), 'number of parameters')
    for x, y in zip(la, ll):
        same(x, y, 'loaded parameter')
        check(x.dtype == y.dtype, 'dtype of a loaded parameter')
    x = jnp.asarray(r.vec(n))
    same(l.log_prob(x), a.log_prob(x), 'log density of the loaded model')
