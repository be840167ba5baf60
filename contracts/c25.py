"""C25: the preset flows transform every feature, with layers initialised independently."""
from .common import *
from engine.arr import wrapdim
from .c19 import tag, result_terms
from .keys import discipline
from . import c13

CM, RN, RQ = c13.CM, c13.RN, c13.RQ


def masked(l):
    """any masked coupling layer among the fields of a (stacked) layer, in order"""
    out = []

    def go(v, seen):
        if id(v) in seen:
            return
        seen.add(id(v))
        if type(v).__name__ == 'MaskedCouplingLayer':
            out.append(v)
        elif isinstance(v, (list, tuple)):
            for y in v:
                go(y, seen)
        elif hasattr(v, '__dict__') and not callable(v) or hasattr(v, '_all_fields'):
            for y in vars(v).values():
                go(y, seen)
    go(l, set())
    return out


def build(w, s, kind, D, L, key, depth=2):
    cls = c13.flow_class(w, kind)
    if kind == 'RealNVP':
        H = s.dim('H')
        return cls(D, L, H, key), [H], 2, [D, D]
    K = s.int('K', 1)
    hs = [s.dim('H%d' % (k + 1)) for k in range(depth)]
    return cls(D, L, list(hs), wrapdim(K), key), hs, 1, [wrapdim(ir.mul(dT(arr.D(D)), ir.add(ir.mul(const(3), K), ONE)))]


def kept(m, l, i):
    t = asarr(m).fn(l, i)
    return ir.b2n(t) if t.sort == 'B' else t


def masks(kind):
    def f(ck, w, s):
        D, L = s.dim('D'), s.dim('L')
        Dt, Lt = dT(arr.D(D)), dT(arr.D(L))
        key = s.key()
        m, _, _, _ = ck.run1(lambda: build(w, s, kind, D, L, key))
        stack = m.affine_coupling if kind == 'RealNVP' else m.layers
        ms = masked(stack)
        i, = fresh_idx(D)
        l = ctx.C.gen('l', ZERO, Lt)
        want = 1 if kind == 'RealNVP' else 2
        if not ck.fact('layers', len(ms) == want, '%d masked layers' % len(ms), hard=False):
            return
        shape = lambda a: asarr(a._mask)
        for k, x in enumerate(ms):
            a = shape(x)
            if not ck.fact('mask%d/rank' % k, a.ndim == 2, 'masks of rank %d' % a.ndim, hard=False):
                return
            ck.prove('mask%d/shape' % k, ir.and_(ir.eq(dT(a.sh[0]), Lt), ir.eq(dT(a.sh[1]), Dt)), text='one mask over all features for every layer asked for')
        c = shape(ms[-1])
        t0 = kept(c, l, i)
        ck.prove('binary', ir.or_(ir.eq(t0, const(0, t0.sort)), ir.eq(t0, const(1, t0.sort))), text='a feature is kept or transformed')
        # consecutive layers
        t1 = kept(c, ir.add(l, ONE), i)
        ck.prove('complementary', ir.eq(ir.add(t0, t1), const(1, t0.sort)), [ir.lt(ir.add(l, ONE), Lt)], text='of two consecutive layers exactly one transforms feature i')
        # no trivial layer: two features whose masks differ, one of a few candidates
        last, mid = ir.sub(Dt, ONE), ir.idiv(Dt, const(2))
        hy = [ir.le(const(2), Dt)]
        pairs = [(ZERO, last), (ZERO, ONE), (ZERO, mid), (last, mid), (last, ir.sub(last, ONE))]
        ok = None
        for a, b in pairs:
            g = ir.eq(ir.add(kept(c, l, a), kept(c, l, b)), const(1, t0.sort))
            if same_goal(g, hy):
                ok = g
                break
        ck.prove('mixed', ok if ok is not None else ir.eq(ir.add(kept(c, l, ZERO), kept(c, l, last)), const(1, t0.sort)), hy, text='with two or more features every layer transforms one and keeps one')
        if want == 2:
            u = kept(shape(ms[0]), l, i)
            ck.prove('shared-affine', ir.eq(u, const(0, u.sort)), text='the affine map of a spline layer acts on every feature')
    return f


def same_goal(g, hy):
    from engine.prove import Prover
    return bool(Prover(list(hy), budget=4).prove(g))


def networks(kind, depth=2):
    def f(ck, w, s):
        tag(ck, s)
        D, L = s.dim('D'), s.dim('L')
        key = s.key('key')
        m, hidden, n, outs = ck.run1(lambda: build(w, s, kind, D, L, key, depth))
        stack = m.affine_coupling if kind == 'RealNVP' else m.layers
        b = masked(stack)[-1].bijector
        nets = [b.scale_MLP, b.shift_MLP] if kind == 'RealNVP' else [b.conditioner]
        for k, (net, o) in enumerate(zip(nets, outs)):
            # every linear map of the network, with its shape
            ls = [x for x in net.layers if isinstance(x, fakes.Linear)]
            sizes = [D] + hidden + [o]
            if not ck.fact('net%d/depth' % k, len(ls) == len(sizes) - 1, '%d linear maps' % len(ls), hard=False, text='one hidden layer for every size asked for'):
                continue
            for q, x in enumerate(ls):
                a, bs = asarr(x.weight), asarr(x.bias)
                ck.prove('net%d/linear%d' % (k, q), ir.and_(ir.eq(dT(a.sh[0]), dT(arr.D(L))), ir.eq(dT(a.sh[1]), dT(arr.D(sizes[q + 1]))), ir.eq(dT(a.sh[2]), dT(arr.D(sizes[q]))),
                                                           ir.eq(dT(bs.sh[0]), dT(arr.D(L))), ir.eq(dT(bs.sh[1]), dT(arr.D(sizes[q + 1])))), text='the network of every layer has the sizes asked for')
        discipline(ck, 'keys', result_terms([], stack), key.term(), min_uses=n)
    return f


def mlp(ck, w, s):
    tag(ck, s)
    D, H, O, key = s.dim('D'), s.dim('H'), s.dim('O'), s.key('key')
    H2 = s.dim('H2')
    for nm, sh in (('0', [D, O]), ('1', [D, H, O]), ('2', [D, H, H, O]), ('3', [D, H, H2, H, O]), ('5', [D, H, H, H2, H2, D, O])):
        m = ck.run1(lambda: w['resource.model.common'].MLP(sh, key))
        ls = [x for x in m.layers if isinstance(x, fakes.Linear)]
        ck.fact(nm + '/depth', len(ls) == len(sh) - 1, '%d linear maps' % len(ls), hard=False)
        acts = [x for x in m.layers if not isinstance(x, fakes.Linear)]
        ck.fact(nm + '/activations', len(acts) == len(sh) - 2 and all(isinstance(a, fakes.Linear) != isinstance(b, fakes.Linear) for a, b in zip(m.layers, m.layers[1:])), 'order of the layers', hard=False,
                text='an activation between any two linear maps')
        for k, x in enumerate(ls):
            a, bs = asarr(x.weight), asarr(x.bias)
            ck.prove('%s/linear%d' % (nm, k), ir.and_(ir.eq(dT(a.sh[0]), dT(arr.D(sh[k + 1]))), ir.eq(dT(a.sh[1]), dT(arr.D(sh[k]))), ir.eq(dT(bs.sh[0]), dT(arr.D(sh[k + 1])))))
        ck.prove(nm + '/sizes', ir.and_(ir.eq(dT(arr.D(m.n_input)), dT(arr.D(D))), ir.eq(dT(arr.D(m.n_output)), dT(arr.D(O)))))
        discipline(ck, nm, result_terms([], m), key.term(), min_uses=len(sh) - 1)
    # the stand-alone coupling layer
    a = ck.run1(lambda: w['resource.model.nf_model.realNVP'].AffineCoupling(D, H, s.arr('mask', (D,)), key))
    ck.prove('AffineCoupling/features', ir.eq(dT(arr.D(a.n_features)), dT(arr.D(D))))
    discipline(ck, 'AffineCoupling', result_terms([], [a.scale_MLP, a.translate_MLP]), key.term(), min_uses=4)
    ck.assume('C25: MLP is checked for networks with zero to five hidden layers of arbitrary sizes (its loop runs over a Python list of sizes)')


def run(ck):
    for k, N in (('RealNVP', RN + 'RealNVP'), ('MaskedCouplingRQSpline', RQ + 'MaskedCouplingRQSpline')):
        ck.unit(k + '.masks', masks(k), [N + '.__init__', CM + 'MaskedCouplingLayer.__init__'], 5)
        ck.unit(k + '.networks', networks(k), [N + '.__init__', CM + 'MLP.__init__'], 5)
        for d in (0, 1, 3, 4) if k != 'RealNVP' else ():
            ck.unit('%s.networks[%d hidden]' % (k, d), networks(k, d), [N + '.__init__', CM + 'MLP.__init__'], 3)
    ck.unit('MLP', mlp, [CM + 'MLP.__init__', CM + 'MLP.n_input', CM + 'MLP.n_output', RN + 'AffineCoupling.__init__', RN + 'AffineCoupling.n_features'], 10)
