"""C20: bookkeeping strategies and resources change only what they are asked to."""
from .common import *
from engine.arr import wrapdim
import itertools

US = 'flowMC.strategy.update_state:'
LF = 'flowMC.strategy.lambda_function:'
ST = 'flowMC.resource.states:'
BF = 'flowMC.resource.buffers:'


class Tok:
    """an opaque value: only its identity is known"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'tok' + self.n


def update_state(ck, w, s):
    State = w['resource.states'].State
    Upd = w['strategy.update_state'].UpdateState
    Buffer = w['resource.buffers'].Buffer
    names = ['a', 'b', 'c', 'new']
    n = 0
    for m in range(0, 4):
        for keys in itertools.product(names, repeat=m):
            def go():
                old = {k: Tok('old' + k) for k in ('a', 'b', 'c')}
                vals = [Tok('v%d' % i) for i in range(m)]
                st = State(dict(old), name='S')
                oth = State({'a': 1}, name='O')
                buf = Buffer('b', (2, 3), 1)
                bd = buf.data
                res = {'st': st, 'oth': oth, 'buf': buf}
                res0 = dict(res)
                key, x = s.key('key'), s.arr('x', (2, 2))
                data = {'d': s.obj('d')}
                ks = list(keys)
                upd = Upd('st', ks, vals)
                upd(s.key('w.key'), {'st': State({'a': Tok('w'), 'new': Tok('w2')}, name='W')}, s.arr('w.x', (2, 2)), {})     # an earlier call, on another state
                out = upd(key, res, x, data)
                exp = dict(old)
                for k, v in zip(keys, vals):
                    exp[k] = v
                good = dict(st.data) == exp and list(map(id, [st.data[k] for k in exp])) == [id(exp[k]) for k in exp]
                frame = (out[0] is key and out[1] == res0 and all(out[1][k] is res0[k] for k in res0) and out[2] is x
                         and oth.data == {'a': 1} and buf.data is bd and st.name == 'S' and list(ks) == list(keys))
                return good, frame, dict(st.data), exp
            good, frame, got, exp = ck.run1(go)
            if not good:
                ck.fact('set/%s' % '-'.join(keys), False, 'keys %s: got %s expected %s' % (keys, got, exp))
                return
            if not frame:
                ck.fact('frame/%s' % '-'.join(keys), False, 'keys %s: something else changed' % (keys,))
                return
            n += 1
    # the declared value types (int, bool, str), old value against new value, known and new keys
    VALS = [True, False, 0, 1, -3, 10 ** 12, '', 'x', 'True']
    same = lambda a, b: type(a) is type(b) and a == b
    m = 0
    for v0, v1 in itertools.product([None] + VALS, VALS):
        for v2 in (True, 5, 's'):
            def go():
                old = {'z': v2} if v0 is None else {'a': v0, 'z': v2}
                st = State(dict(old), name='S')
                ks, vs = ['a', 'b'], [v1, v2]
                Upd('st', ks, vs)(s.key('key'), {'st': st}, s.arr('x', (2, 2)), {})
                exp = dict(old, a=v1, b=v2)
                return set(st.data) == set(exp) and all(same(st.data[k], exp[k]) for k in exp) and ks == ['a', 'b'] and all(map(same, vs, [v1, v2])), dict(st.data), exp
            good, got, exp = ck.run1(go)
            if not good:
                ck.fact('set/types', False, 'old value %r: got %s expected %s' % (v0, got, exp), text='values of every declared type, equal and of the same type')
                return
            m += 1
    ck.fact('set/types', m == 270, how='symbolic execution, %d combinations of old and new values' % m, text='values of every declared type (int, bool, str) are stored as given, whatever the key held before')
    ck.fact('set', n == 85, how='symbolic execution, %d key lists' % n, text='exactly the listed keys hold the listed (opaque) values, in order; every other key keeps its value (key lists of up to 3 entries, repeated, known and new keys)')
    ck.fact('frame', n == 85, how='symbolic execution', text='key, resources, positions, other resources unchanged')
    ok = False
    try:
        ck.run1(lambda: Upd('nost', ['a'], [1])(s.key('key'), {'st': State({}, 'S')}, s.arr('x', (2, 2)), {}))
    except Exception:
        ok = True
    ck.fact('unknown-state', ok, 'no error for a missing state resource', hard=False)


def lambda_(ck, w, s):
    Lam = w['strategy.lambda_function'].Lambda
    for k, ret in enumerate((None, 'other', ('k', {}, 'p'))):
        calls = []

        def f(*a, **kw):
            calls.append((a, kw))
            return ret
        key, x, data = s.key('key'), s.arr('x', (s.dim('C'), s.dim('D'))), {'d': s.obj('d')}
        res = {'a': Tok('a'), 'b': Tok('b')}
        res0 = dict(res)
        def go():
            lam = Lam(f)
            lam(s.key('w.key'), {'a': Tok('w')}, s.arr('w.x', (2, 2)), {'d': s.obj('w.d')})       # an earlier call, on other resources
            calls.clear()
            return lam(key, res, x, data)
        out = ck.run1(go)
        one = len(calls) == 1
        ck.fact('once/%d' % k, one, '%d calls' % len(calls), text='the function is called exactly once')
        if one:
            a, kw = calls[0]
            args = list(a) + list(kw.values())
            ck.fact('args/%d' % k, len(args) == 4 and args[0] is key and args[1] is res and args[2] is x and args[3] is data, str(calls[0])[:200],
                    text='with the key, resources, positions and data received')
        ck.fact('frame/%d' % k, len(out) == 3 and out[0] is key and out[1] is res and res == res0 and out[2] is x, 'returns %s' % (out,), text='key, resources and positions returned unchanged, whatever the function returns')


def buffers(ck, w, s):
    Buffer = w['resource.buffers'].Buffer
    NEG = asarr(float('-inf')).term()
    for rank in (1, 2, 3):
        for cd in range(rank):
            dims = [s.dim('n%d_%d%d' % (a, rank, cd)) for a in range(rank)]
            tag = 'r%dc%d' % (rank, cd)
            b = ck.run1(lambda: Buffer('nm', tuple(dims), cd))
            ii = fresh_idx(*dims)
            ck.prove(tag + '/new', ir.eq(b.data.fn(*ii), NEG), text='a new buffer holds minus infinity everywhere')
            ck.prove(tag + '/new-shape', ir.and_(*[ir.eq(dT(arr.D(a)), dT(arr.D(e))) for a, e in zip(b.data.shape, dims)]) if len(b.data.shape) == rank else FALSE, text='and has the requested shape')
            ck.fact(tag + '/new-meta', b.name == 'nm' and b.cursor_dim == cd and b.cursor == 0, '%s %s %s' % (b.name, b.cursor_dim, b.cursor), text='name, cursor dimension, cursor 0')
            m = s.int('m_%d%d' % (rank, cd), 1)
            st = s.int('s_%d%d' % (rank, cd), 0)
            D = dT(arr.D(dims[cd]))
            ctx.C.facts.append(ir.le(ir.add(st, m), D))
            for a in range(rank):
                s.ints['n%d_%d%d' % (a, rank, cd)] = 9 if a == cd else (lambda v: v.rng.randrange(1, 20))
            b.data = s.arr('old%d%d' % (rank, cd), tuple(dims))
            udims = list(dims)
            udims[cd] = wrapdim(m)
            upd = s.arr('upd%d%d' % (rank, cd), tuple(udims))
            b.cursor = 7

            def go():
                b.update_buffer(s.arr('w.upd', tuple(udims)), wrapdim(s.int('w.s', 0)))
                b.data = s.arr('old%d%d' % (rank, cd), tuple(dims))
                return b.update_buffer(upd, wrapdim(st))
            n = 0
            for p in ck.paths_of(go):
                n += 1
                j = ii[cd]
                inside = ir.and_(ir.le(st, j), ir.lt(j, ir.add(st, m)))
                iu = list(ii)
                iu[cd] = ir.sub(j, st)
                new = b.data.fn(*ii)
                t = '%s/p%d' % (tag, n)
                ck.prove(t + '/block', ir.implies(inside, ir.eq(new, upd.fn(*iu))), text='the block starting at the offset along the cursor dimension holds the update')
                ck.prove(t + '/frame', ir.implies(ir.not_(inside), ir.eq(new, ir.app('old%d%d' % (rank, cd), 'R', *ii))), text='every other entry unchanged')
                ck.prove(t + '/shape', ir.and_(*[ir.eq(dT(arr.D(a)), dT(arr.D(e))) for a, e in zip(b.data.shape, dims)]) if len(b.data.shape) == rank else FALSE, text='shape unchanged')
                ck.fact(t + '/meta', b.name == 'nm' and b.cursor_dim == cd and b.cursor == 7, 'meta changed', text='name, cursor and cursor dimension unchanged')
    b = Buffer('nm', (3, 2), 0)
    d = b.data
    ck.fact('call', b() is d or b().fn is d.fn, 'call returns something else', hard=False)
    ck.fact('defaults', Buffer('x', (2,)).cursor_dim == 0, 'default cursor_dim')


def run(ck):
    ck.unit('UpdateState', update_state, [US + 'UpdateState.__init__', US + 'UpdateState.__call__', ST + 'State.__init__', ST + 'State.update'], 2)
    ck.unit('Lambda', lambda_, [LF + 'Lambda.__init__', LF + 'Lambda.__call__'], 9)
    ck.unit('Buffer', buffers, [BF + 'Buffer.__init__', BF + 'Buffer.__call__', BF + 'Buffer.update_buffer'], 40)
    ck.assume('key lists of UpdateState are unrolled up to 3 entries (values opaque)', 'buffers of rank 1, 2 and 3 (every cursor dimension, all sizes and offsets symbolic)')
