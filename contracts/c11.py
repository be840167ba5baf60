"""C11: the sampler runs the requested strategies in order and threads the state."""
from .common import *
from engine.arr import wrapdim, SymList
from engine import tree

SM = 'flowMC.Sampler:Sampler.'
FNS = [SM + '__init__', SM + 'sample']


class AbsStrategy:
    """any strategy: new key, resources and positions are functions of everything it receives"""

    def __init__(self, name, log=None):
        self.name = name
        self.log = log

    def __call__(self, rng_key, resources, initial_position, data):
        if self.log is not None:
            self.log.append((self.name, rng_key, resources, initial_position, data))
        k, r, x, d = fakes.key_term(rng_key), asarr(resources).term(), asarr(initial_position), fakes.fingerprint(data)
        if x.ndim != 2:
            raise TypeError('positions of rank %d' % x.ndim)
        lx = lam_of(x)
        a = (self.name, k, r, lx, d)
        return (Arr((), lambda: ir.app('S.key', 'K', *a), 'k'), Arr((), lambda: ir.app('S.res', 'U', *a), 'u'),
                Arr(x.sh, lambda c, i: ir.app('S.pos', 'R', c, i, *a), 'f'))


class AbsMap:
    """a dictionary of strategies in which every requested name is known"""

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return AbsStrategy(asarr(k).term())

    def get(self, k, d=None):
        return self[k]

    def keys(self):
        raise Unsupported('keys')


def symbolic(rank, warm=False):
    def f(ck, w, s):
        S = w['Sampler'].Sampler
        n = s.int('n', 1)
        C_, D = s.dim('C'), s.dim('D')
        x0 = s.arr('x0', (C_, D) if rank == 2 else (D,))
        data = rich_data(s, C_, D)
        r0 = s.obj('r0')
        key = s.key('key')
        order = SymList([('rep', n, lambda k: SymList([('one', Arr((), lambda: ir.app('order', 'U', k), 'u'))]))])

        def go():
            o = S(2, 2, key, resources=r0, strategies=AbsMap(), strategy_order=order)
            if warm:
                # an earlier run of the same sampler, with the key and resources set back
                o.sample(s.arr('w.x0', (C_, D) if rank == 2 else (D,)), {'d': s.obj('w.d')})
                o.rng_key, o.resources = key, r0
            out = o.sample(x0, data)
            return o
        m = 0
        for p in ck.paths_of(go):
            m += 1
            tag = 'p%d' % m
            o = p.result
            fin = norm().canon(asarr(o.resources).term())
            if not (fin.op == 'app' and fin.args[0] in ctx.C.scans):
                raise Unsupported('final resources: ' + ir.show(fin)[:200])
            if warm:
                no_trace(ck, tag + '/no-trace', [fin])
            sym = fin.args[0]
            sd = ctx.C.scans[sym]
            ck.prove(tag + '/length', ir.and_(ir.eq(fin.args[1], n), ir.eq(sd.n, n)), text='every entry of the order is executed, once', aux=True)
            j = ctx.C.gen('j', ZERO, n)
            st = norm().canon(step_of(sd, sym, j))
            if not (st.op == 'app' and st.args[0] == 'S.res'):
                raise Unsupported('step: ' + ir.show(st)[:200])
            nm, k, r, x, d = st.args[1:]
            ck.prove(tag + '/order', ir.eq(nm, ir.app('order', 'U', j)), text='call j is the strategy named at position j')
            ck.prove(tag + '/data', ir.eq(d, fakes.fingerprint(data)), text='with the user data')
            ck.prove(tag + '/resources', ir.and_(ir.eq(r, at(sd, sym, j)), ir.eq(init_of(sd, sym), r0.term())), text='with the resources returned by the one before (the first: the sampler\'s)')
            kc = norm().canon(k)
            if not (kc.op == 'app' and kc.args[0] in sd.leaves):
                raise Unsupported('key: ' + ir.show(kc)[:200])
            ck.prove(tag + '/key', ir.and_(ir.eq(kc, at(sd, kc.args[0], j)), ir.eq(init_of(sd, kc.args[0]), key.term())), text='with the key returned by the one before (the first: the sampler\'s key)')
            ck.prove(tag + '/key-next', ir.eq(step_of(sd, kc.args[0], j), ir.app('S.key', 'K', nm, k, r, x, d)), text='the key it returns is passed on')
            vs, dims, body = ir.open_binder(x)
            body = norm().canon(body)
            if not (body.op == 'app' and body.args[0] in sd.leaves):
                raise Unsupported('positions: ' + ir.show(body)[:200])
            q = body.args[0]
            ck.prove(tag + '/positions', ir.eq(body, at(sd, q, j, *vs)), text='with the positions returned by the one before')
            c, i = fresh_idx(C_ if rank == 2 else 1, D)
            ck.prove(tag + '/start', ir.and_(ir.eq(init_of(sd, q, c, i), x0.fn(c, i) if rank == 2 else x0.fn(i)), ir.eq(dims[0], dT(arr.D(C_)) if rank == 2 else ONE), ir.eq(dims[1], dT(arr.D(D)))),
                     text='the first: the initial positions as a 2-d array')
            ck.prove(tag + '/positions-next', ir.eq(step_of(sd, q, j, c, i), ir.app('S.pos', 'R', c, i, nm, k, r, x, d)), text='the positions it returns are passed on')
            ck.prove(tag + '/final', ir.eq(fin, ir.app(sym, 'U', n)), text='the sampler keeps the last resources')
    return f


def concrete(ck, w, s):
    S = w['Sampler'].Sampler
    C_, D = s.dim('C'), s.dim('D')
    x0, data, r0, key = s.arr('x0', (C_, D)), rich_data(s, C_, D), s.obj('r0'), s.key('key')
    bad = []
    n = 0
    for order in (['a'], ['a', 'b'], ['b', 'a', 'a'], ['a', 'b', 'a', 'b'], [], ['zz'], ['a', 'zz', 'b'], ['a', 'b', 'zz'], ['a', None]):
        log = []
        strat = {k: AbsStrategy(ir.var('name_' + k, 'U'), log) for k in ('a', 'b', 'unused')}
        known = [k in strat for k in order]
        exp = order if all(known) else order[:known.index(False)]
        err = None

        def go():
            del log[:]
            o = S(2, 2, key, resources=r0, strategies=strat, strategy_order=list(order))
            o.sample(x0, data)
            return o
        for p in ctx.explore(go):
            err = p.exc
            o = p.result
        n += 1
        if (err is None) != all(known):
            bad.append('%s: error %r' % (order, err))
        if [e[0].args[0] for e in log] != ['name_' + k for k in exp]:
            bad.append('%s: ran %s' % (order, [e[0].args[0] for e in log]))
            continue
        k_, r_, x_ = key, r0, x0
        for e in log:
            if e[4] is not data and fakes.fingerprint(e[4]) is not fakes.fingerprint(data):
                bad.append('%s: data' % order)
            if not (asarr(e[1]).term() is asarr(k_).term() and asarr(e[2]).term() is asarr(r_).term() and lam_of(asarr(e[3])) is lam_of(asarr(x_))):
                bad.append('%s: state not threaded at %s' % (order, e[0]))
            k_, r_, x_ = AbsStrategy(e[0])(e[1], e[2], e[3], e[4])
        if err is None and asarr(o.resources).term() is not asarr(r_).term():
            bad.append('%s: final resources' % order)
    ck.fact('unrolled', not bad, '; '.join(bad)[:600], how='symbolic execution of %d orders' % n, text='named strategies run once each in order; an unknown name raises at that point and nothing later runs')


def sources(ck, w, s):
    S = w['Sampler'].Sampler

    class B:
        pass
    b = B()
    b.resources, b.strategies, b.strategy_order = {'r': 1}, {'s': 2}, ['s']
    R, T, O = {'x': 1}, {'y': 2}, ['y']
    key = s.key('key')
    o = ck.run1(lambda: S(1, 1, key, resources=R, strategies=T, strategy_order=O, resource_strategy_bundles=b))
    ck.fact('explicit', o.resources is R and o.strategies is T and o.strategy_order is O, 'preset used', text='explicit resources plus strategies take precedence over a preset')
    o = ck.run1(lambda: S(1, 1, key, resources={}, strategies={}, strategy_order=[], resource_strategy_bundles=b))
    ck.fact('explicit-empty', o.resources == {} and o.strategies == {} and o.strategy_order == [], 'preset used', text='also when they are empty')
    for nm, kw in (('preset', {}), ('preset-resources-only', {'resources': R}), ('preset-strategies-only', {'strategies': T, 'strategy_order': O})):
        o = ck.run1(lambda: S(1, 1, key, resource_strategy_bundles=b, **kw))
        ck.fact(nm, o.resources is b.resources and o.strategies is b.strategies and o.strategy_order is b.strategy_order, 'preset not used', text='otherwise the preset is used')
    for nm, kw in (('neither', {}), ('neither-resources', {'resources': R}), ('neither-strategies', {'strategies': T, 'strategy_order': O})):
        err = None
        try:
            S(1, 1, key, **kw)
        except Exception as e:
            err = e
        ck.fact(nm, err is not None, 'no error', text='providing neither raises an error')
    o = ck.run1(lambda: S(3, 4, key, resources=R, strategies=T, strategy_order=O))
    ck.fact('fields', o.n_dim == 3 and o.n_chains == 4 and o.rng_key is key, 'fields')


def run(ck):
    ck.unit('sample[2-d]', symbolic(2), FNS, 9)
    ck.unit('sample[1-d]', symbolic(1), FNS, 9)
    ck.unit('sample[later run]', symbolic(2, True), FNS, 9)
    ck.unit('unrolled', concrete, FNS, 1)
    ck.unit('sources', sources, FNS, 8)
    ck.assume('the symbolic units assume every requested name known; unknown names are checked on unrolled orders of up to 4 strategies')
