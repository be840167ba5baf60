"""C07: chains are independent and batching them changes nothing."""
from .steps import *
from .c06 import FNS, SER, GRP


def nonint(ck, S, tag, terms, c):
    ts = reach(terms)
    rows = {x.args[1] for x in ts if x.op == 'app' and x.args[0] == 'x0'}
    ck.prove(tag + '/own-position', ir.and_(*[ir.eq(r, c) for r in sorted(rows, key=ir.okey)]) if rows else FALSE, text='only the own initial position is read')
    bad = []
    keys = [x for x in ts if x.sort == 'K']
    inner = set()
    for k in keys:
        if k.op == 'app' and k.args[0] in ('split', 'foldin'):
            inner.add(k.args[1])
    own = []
    for k in keys:
        if k in inner:
            continue
        root, path = key_path(k)
        if root.op == 'var':
            mine = [i for n_, i in path if n_ != 'fold' and same(n_, dT(arr.D(S.C)))]
            if not mine:
                bad.append(ir.show(k))
            own += mine
    ck.fact(tag + '/own-key-split', not bad, 'keys not split per chain: %s' % bad[:3], text='every draw key is derived from the chain\'s own key')
    ck.prove(tag + '/own-key', ir.and_(*[ir.eq(i, c) for i in own]) if own else TRUE, text='the chain\'s own key')
    old = [x for x in ts if x.op == 'app' and x.args[0] in ('oldp', 'oldl', 'olda')]
    ck.fact(tag + '/no-buffers', not old, 'recorded iterates depend on the buffers', hard=False)


def unit(group):
    def f(ck, w, s):
        S0 = Setup(ck, w, s, group, False)
        S1 = Setup(ck, w, s, group, True)

        def both():
            S0.run()
            S1.run()
            return None
        n = 0
        for p in ck.paths_of(both):
            n += 1
            tag = 'p%d' % n
            c, i = fresh_idx(S0.C, S0.D)
            m = ctx.C.gen('m', ZERO, S0.W)
            slot = ir.add(S0.c0, m)
            n0 = norm()
            vals = []
            for S in (S0, S1):
                V = n0.canon(S.bp.data.fn(c, slot, i))
                VL = n0.canon(S.bl.data.fn(c, slot))
                VA = n0.canon(S.ba.data.fn(c, slot))
                vals.append((V, VL, VA))
            nonint(ck, S0, tag + '/all-at-once', vals[0], c)
            nonint(ck, S1, tag + '/batched', vals[1], c)
            rules = []
            if not group:
                i0, i1 = Iter(vals[0][0]), Iter(vals[1][0])
                if i0.sd is not i1.sd or i0.g != i1.g:
                    rules = pair(ck, tag, i0, i1)
            for k, nm in enumerate(('position', 'logp', 'acc')):
                ck.prove(tag + '/batched-' + nm, ir.eq(vals[0][k], vals[1][k]) if vals[0][k].sort != 'B' else ir.eq(ir.b2n(vals[0][k]), ir.b2n(vals[1][k])), rules=rules,
                         text='chain by chain the same recorded %s as all at once' % nm)
        ck.fact('paths', n >= 2, 'expected the batched and the one-batch path', hard=False)
    return f


def pair(ck, tag, i0, i1):
    """relational induction over the two runs' recurrences"""
    s0, s1 = i0.sd, i1.sd
    lab = lambda sd, y: y[len(sd.name):]
    l0 = {lab(s0, y): y for y in s0.leaves}
    l1 = {lab(s1, y): y for y in s1.leaves}
    if set(l0) != set(l1):
        raise Unsupported('the two runs carry different state')
    inv = {l1[k]: l0[k] for k in l0}

    def rule(a, n):
        if a.op == 'app' and a.args[0] in inv:
            sd = s1
            t, ix, g = sd.split(a.args[0], a.args[1:])
            if all(x is y for x, y in zip(g, [n.canon(z) for z in i1.g])) or all(same(x, y) for x, y in zip(g, i1.g)):
                return ir.app(inv[a.args[0]], seq_sort(s0, inv[a.args[0]]), t, *ix, *i0.g)
        return None
    j = ctx.C.gen('j', ZERO, s0.n)
    ck.prove(tag + '/pair/length', ir.eq(s0.n, s1.n), text='same number of steps')
    for k in sorted(l0):
        y0, y1 = l0[k], l1[k]
        ix = tuple(ir.fresh('r') for _ in s0.leaves[y0][0])
        so = seq_sort(s0, y0)
        a0 = lambda t: ir.app(y0, so, t, *ix, *i0.g)
        a1 = lambda t: ir.app(y1, so, t, *ix, *i1.g)
        ck.prove(tag + '/pair%s/start' % k, ir.eq(a1(ZERO), a0(ZERO)), text='the batched and the unbatched run start equal')
        ck.prove(tag + '/pair%s/step' % k, ir.eq(a1(ir.add(j, ONE)), a0(ir.add(j, ONE))), rules=[rule], text='and stay equal (induction)')
    return [rule]


def run(ck):
    ck.unit('TakeSerialSteps', unit(False), FNS + SER, 12)
    ck.unit('TakeGroupSteps', unit(True), FNS + GRP, 8)
    ck.assume('the kernel is known by contract only: its outputs are functions of key, position, log density, target and data')
