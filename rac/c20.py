from rac.common import *
from flowMC.resource.buffers import Buffer
from flowMC.resource.states import State
from flowMC.strategy.update_state import UpdateState
from flowMC.strategy.lambda_function import Lambda


@case(25)
def update_state(r):
    names = ['a', 'b', 'c', 'd', 'training', 'mode']
    old = {k: r.choice([True, False, 0, 1, 7, 'x', 'y', '']) for k in r.sample(names, r.int(0, 5))}
    n = r.int(0, 5)
    keys = [r.choice(names) for _ in range(n)]
    vals = [r.choice([True, False, 0, 1, 3, 'x', 'z', '']) for _ in range(n)]
    r.note(state=old, keys=keys, values=vals)
    st, oth = State(dict(old), name='S'), State({'a': 5}, name='O')
    buf = Buffer('b', (2, 2), 0)
    res = {'S': st, 'O': oth, 'b': buf}
    key, x, data = r.key(), jnp.asarray(r.vec(2, 2)), {'d': 1}
    exp = dict(old)
    for k, v in zip(keys, vals):
        exp[k] = v
    k0, v0 = list(keys), list(vals)
    key2, res2, x2 = UpdateState('S', keys, vals)(key, res, x, data)
    got = {k: (type(v), v) for k, v in st.data.items()}
    check(got == {k: (type(v), v) for k, v in exp.items()}, 'state is %s, expected %s', st.data, exp)
    check(keys == k0 and vals == v0, 'the key or value list was changed')
    check(st.name == 'S' and oth.data == {'a': 5}, 'another state or the name changed')
    check(set(res2) == {'S', 'O', 'b'} and res2['S'] is st and res2['O'] is oth and res2['b'] is buf, 'resources changed')
    same(key2, key, 'key')
    same(x2, x, 'positions')
    check(np.isneginf(np.asarray(buf.data)).all(), 'buffer changed')


@case(6)
def lambda_function(r):
    calls = []
    ret = r.choice([None, 3, ('a', {}, 'b'), (r.key(), {'zz': 1}, jnp.zeros((1, 1)))])

    def f(*a, **k):
        calls.append((a, k))
        return ret
    key, x, data = r.key(), jnp.asarray(r.vec(2, 2)), {'d': 1}
    res = {'o': State({'a': 1})}
    key2, res2, x2 = Lambda(f)(key, res, x, data)
    check(len(calls) == 1, 'called %d times', len(calls))
    a = list(calls[0][0]) + list(calls[0][1].values())
    check(len(a) == 4 and a[0] is key and a[1] is res and a[2] is x and a[3] is data, 'called with other arguments')
    same(key2, key, 'key')
    same(x2, x, 'positions')
    check(res2 is res and set(res) == {'o'} and res['o'].data == {'a': 1}, 'resources changed')


@case(40)
def buffer_writes(r):
    rank = r.int(1, 4)
    shape = tuple(r.int(1, 6) for _ in range(rank))
    cd = r.int(0, rank - 1)
    b = Buffer('nm', shape, cd)
    check(b.data.shape == shape and np.isneginf(np.asarray(b.data)).all(), 'a new buffer is not minus infinity everywhere')
    check(b.cursor == 0 and b.cursor_dim == cd and b.name == 'nm' and b.shape == shape, 'meta data of a new buffer')
    exp = np.asarray(b.data).copy()
    for _ in range(r.int(1, 3)):
        m = r.int(1, shape[cd])
        s = r.int(0, shape[cd] - m)
        us = list(shape)
        us[cd] = m
        u = r.vec(*us)
        if r.random() < 0.3:
            u.flat[0] = r.choice([np.nan, np.inf, -np.inf])
        r.note(shape=shape, cursor_dim=cd, block=m, start=s)
        b.cursor = cur = r.int(0, 5)
        b.update_buffer(jnp.asarray(u), s)
        sl = [slice(None)] * rank
        sl[cd] = slice(s, s + m)
        exp[tuple(sl)] = u
        same(b.data, exp, 'buffer contents')
        same(b(), exp, 'buffer call')
        check(b.cursor == cur and b.cursor_dim == cd and b.name == 'nm', 'meta data changed')
