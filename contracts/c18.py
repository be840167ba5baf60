"""C18: saved resources load back equal."""
from .common import *
from engine.arr import wrapdim
from engine.fakes import SymStr, npz_name
from engine import fakes as fk, tree

BF, ST = 'flowMC.resource.buffers:Buffer.', 'flowMC.resource.states:State.'
NFN = 'flowMC.resource.model.nf_model.base:NFModel.'
FMN = 'flowMC.resource.model.flowmatching.base:FlowMatchingModel.'


def events(kind):
    return [e for e in ctx.C.events if e[0] == kind]


def written(kind):
    ev = events(kind)
    if len(ev) != 1:
        raise Unsupported('%d files written' % len(ev))
    return ev[0]


def snap(o):
    return {k: (fk.snapshot(v), v) for k, v in vars(o).items()}


def unchanged(ck, id, o, before):
    now = vars(o)
    ok = set(now) == set(before) and all(now[k] is before[k][1] for k in now)
    bad = [k for k in set(now) | set(before) if k not in now or k not in before or now[k] is not before[k][1]]
    if ok:
        # mutable values: same contents
        bad = [k for k, (c, v) in before.items() if isinstance(v, (dict, list)) and c != v]
    ck.fact(id, not bad, 'changed attributes %s' % bad, text='saving does not change the resource')


def buffer(rank, updated):
    def f(ck, w, s):
        B = w['resource.buffers'].Buffer
        dims = [s.dim('n%d' % i) for i in range(rank)]
        cd = s.int('cd', 0, const(rank))
        ctx.C.facts.append(ir.lt(cd, const(rank)))
        nm, path = SymStr('name'), SymStr('path')
        contents = s.arr('contents', tuple(dims))
        cur = s.int('cursor', 0)

        def go():
            del ctx.C.events[:]
            b = B(nm, tuple(dims), wrapdim(cd))
            if updated:
                b.data = contents
                b.cursor = wrapdim(cur)
            before = snap(b)
            b.save_resource(path)
            e = written('savez')
            other = B('other', (2,), 0)
            o_before = snap(other)
            r = other.load_resource(npz_name(e[1]))
            return b, before, other, o_before, r, e
        n = 0
        for p in ck.paths_of(go):
            n += 1
            b, before, other, ob, r, e = p.result
            t = 'p%d' % n
            unchanged(ck, t + '/frame', b, before)
            ck.fact(t + '/type', type(r) is B, type(r), text='a buffer is returned')
            ck.fact(t + '/name', r.name == nm, 'name %r' % (r.name,), text='same name')
            ck.fact(t + '/file', e[1] == path + nm, 'written to %r' % (e[1],), hard=False)
            ck.eq(t + '/contents', r.data, b.data, text='same shape and contents, entry by entry')
            ck.eq(t + '/call', r(), b.data)
            ck.prove(t + '/cursor', ir.eq(asarr(r.cursor).term(), cur if updated else ZERO), text='same write cursor')
            ck.prove(t + '/cursor_dim', ir.eq(asarr(r.cursor_dim).term(), cd), text='same cursor dimension')
            ck.fact(t + '/cursor-types', not isinstance(r.cursor, fk.Stored) and not isinstance(r.cursor_dim, fk.Stored), 'numpy scalars', text='the cursor is an integer')
    return f


class V:
    """an arbitrary state value"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'V(%s)' % self.n


def state(ck, w, s):
    S = w['resource.states'].State
    nm, path = SymStr('name'), SymStr('path')
    for n in range(5):
        for kind in ('opaque', 'typed'):
            if kind == 'opaque':
                d = {SymStr('key%d' % i): V(i) for i in range(n)}
            else:
                d = dict(list({'a': True, 'b': 1, 'c': '1', 'd': 'True', 'e': 0, '': False}.items())[:n + 1])

            def go():
                del ctx.C.events[:]
                st = S(d, nm)
                before = snap(st)
                st.save_resource(path)
                e = written('savez')
                other = S({'z': 1}, 'other')
                return st, before, other.load_resource(npz_name(e[1])), e
            k = 0
            for p in ck.paths_of(go):
                k += 1
                t = '%s%d.%d' % (kind, n, k)
                st, before, r, e = p.result
                unchanged(ck, t + '/frame', st, before)
                ck.fact(t + '/data-object', st.data is d, 'replaced')
                ck.fact(t + '/type', type(r) is S)
                ck.fact(t + '/name', r.name == nm, 'name %r' % (r.name,), text='same name')
                ck.fact(t + '/keys', list(r.data) == list(d), 'keys %r' % (list(r.data),), text='same keys')
                ck.fact(t + '/values', all(r.data.get(x) is d[x] for x in d) and len(r.data) == len(d), 'values %r' % (r.data,), text='same values and value types')
                ck.fact(t + '/whole', any(v is d for v in e[2].values()), 'the dictionary is not written as it is', hard=False,
                        text='the dictionary is written as one object, so the round trip does not depend on its contents')
                # later changes to the original do not reach the file
                st.update(['new'], [5])
                r2 = S({}, 'x').load_resource(npz_name(e[1]))
                ck.fact(t + '/file-is-a-copy', 'new' not in r2.data)
                st.data.pop('new')


def models(w, s):
    """real model classes of every kind, with arbitrary weights"""
    D_ = s.dim('D', 2)
    k1, k2 = s.key('k1'), s.key('k2')

    def rnvp(key, tag):
        return w['resource.model.nf_model.realNVP'].RealNVP(D_, 2, 3, key, data_mean=s.arr('mean' + tag, (D_,)), data_cov=s.spd('cov' + tag, D_))

    def rqs(key, tag):
        return w['resource.model.nf_model.rqSpline'].MaskedCouplingRQSpline(2, 2, [3], 4, key, data_mean=s.arr('mean' + tag, (2,)), data_cov=s.spd('cov' + tag, 2))

    def fm(key, tag):
        m = w['resource.model.flowmatching.base']
        mlp = w['resource.model.common'].MLP([4, 5, 3], key)
        return m.FlowMatchingModel(m.Solver(mlp), m.Path(m.CondOTScheduler()), data_mean=s.arr('mean' + tag, (3,)), data_cov=s.spd('cov' + tag, 3))
    return {'realNVP': (rnvp, D_), 'rqSpline': (rqs, 2), 'flowMatching': (fm, 3)}, k1, k2


def model(name):
    def f(ck, w, s):
        mk, k1, k2 = models(w, s)
        build, D_ = mk[name]
        for save, load in (('save_model', 'load_model'), ('save_resource', 'load_resource')):
            def go():
                del ctx.C.events[:]
                a, b = build(k1, 'A'), build(k2, 'B')
                la = tree.flatten(a)[0]
                path = SymStr('path')
                getattr(a, save)(path)
                e = written('serialise')
                r = getattr(b, load)(path)
                return a, la, b, r, e
            n = 0
            for p in ck.paths_of(go):
                n += 1
                t = '%s.p%d' % (save, n)
                a, la, b, r, e = p.result
                ck.fact(t + '/frame', len(la) == len(tree.flatten(a)[0]) and all(x is y for x, y in zip(la, tree.flatten(a)[0])), 'the model changed', text='saving does not change the model')
                ck.fact(t + '/type', type(r) is type(a), type(r))
                lr = tree.flatten(r)[0]
                ck.fact(t + '/leaves', len(lr) == len(la))
                k = 0
                for x, y in zip(la, lr):
                    if isinstance(x, Arr):
                        k += 1
                        ck.eq(t + '/leaf%d' % k, y, x, text='every array leaf is the saved one')
                    elif isinstance(x, (int, float)):
                        ck.fact(t + '/static%d' % k, type(x) is type(y) and x == y, '%r %r' % (x, y))
                ck.fact(t + '/some', k >= 4, '%d arrays' % k)
                x = s.arr('x', (D_,))
                if name == 'realNVP' and save == 'save_model':
                    ck.prove(t + '/density', ir.eq(asarr(r.log_prob(x)).term(), asarr(a.log_prob(x)).term()), text='same log density everywhere')
    return f


def run(ck):
    F = [BF + x for x in ('__init__', '__call__', 'update_buffer', 'save_resource', 'load_resource')]
    for rank in (1, 2, 3, 4):
        ck.unit('buffer[%d-d]' % rank, buffer(rank, True), F, 8)
    ck.unit('buffer[new]', buffer(3, False), F, 8)
    ck.unit('state', state, [ST + x for x in ('__init__', 'update', 'save_resource', 'load_resource')], 40)
    G = [NFN + 'save_model', NFN + 'load_model']
    ck.unit('model[realNVP]', model('realNVP'), G, 10)
    ck.unit('model[rqSpline]', model('rqSpline'), G, 10)
    ck.unit('model[flowMatching]', model('flowMatching'), [FMN + 'save_model', FMN + 'load_model'], 10)
    ck.assume('numpy.savez/numpy.load and equinox serialise/deserialise are known by contract (what is written is read back; .npz is appended unless present; dictionaries need allow_pickle; only array and number leaves are stored)',
              'names and paths are arbitrary strings without a .npz suffix of their own; state dictionaries are unrolled up to 5 entries (and written as one object)')
