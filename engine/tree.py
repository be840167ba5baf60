"""Pytrees of symbolic arrays."""
from . import ir
from .arr import Arr, asarr, SymList
from .ctx import Unsupported


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()
REG = {}


class Partial:
    """jax.tree_util.Partial"""

    def __init__(self, func, *args, **kw):
        self.func, self.args, self.keywords = func, args, kw

    def __call__(self, *a, **k):
        kw = dict(self.keywords)
        kw.update(k)
        return self.func(*self.args, *a, **kw)


def is_array(x):
    return isinstance(x, Arr)


def is_leaf_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool) or isinstance(x, bool)


def children(x):
    """-> (list of children, rebuild) or None for a leaf"""
    from .fakes_eqx import Module
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return list(x), lambda c: type(x)(*c)
    if type(x) is list:
        return list(x), lambda c: list(c)
    if isinstance(x, tuple):
        return list(x), lambda c: tuple(c)
    if isinstance(x, dict):
        ks = sorted(x.keys())       # the library flattens a dict in the order of its sorted keys
        return [x[k] for k in ks], lambda c: dict(zip(ks, c))
    if isinstance(x, Module):
        ks = x._field_order()

        def rb(c):
            o = object.__new__(type(x))
            for k, v in zip(ks, c):
                object.__setattr__(o, k, v)
            return o
        return [getattr(x, k) for k in ks], rb
    if isinstance(x, Partial):
        return [x.func, list(x.args), dict(x.keywords)], lambda c: Partial(c[0], *c[1], **c[2])
    if type(x) in REG:
        fl, un = REG[type(x)]
        ch, aux = fl(x)
        return list(ch), lambda c: un(aux, tuple(c))
    if isinstance(x, SymList):
        if all(s[0] == 'one' for s in x.segs):
            return [s[1] for s in x.segs], lambda c: SymList([('one', e) for e in c])
        return None
    return None


def tmap(f, x, *rest):
    if x is None and all(r is None for r in rest):
        return None
    ch = children(x)
    if ch is None:
        return f(x, *rest)
    cs, rb = ch
    rcs = []
    for r in rest:
        c = children(r)
        if c is None or len(c[0]) != len(cs):
            raise ValueError('tree structures differ: %r %r' % (type(x), type(r)))
        rcs.append(c[0])
    return rb([tmap(f, c, *[rc[i] for rc in rcs]) for i, c in enumerate(cs)])


def flatten(x):
    """-> (leaves, rebuild(leaves))"""
    leaves = []

    def go(y):
        if y is None:
            return lambda it: None
        ch = children(y)
        if ch is None:
            leaves.append(y)
            return lambda it: next(it)
        cs, rb = ch
        gs = [go(c) for c in cs]
        return lambda it: rb([g(it) for g in gs])
    g = go(x)
    return leaves, lambda ls: g(iter(ls))


def same_static(a, b):
    if a is b:
        return True
    try:
        return bool(type(a) is type(b) and a == b)
    except Exception:
        return False


def ite_tree(c, a, b):
    """merge two pytrees of equal structure by a condition"""
    la, rb = flatten(a)
    lb, _ = flatten(b)
    if len(la) != len(lb):
        raise Unsupported('merge of different structures')
    out = []
    for x, y in zip(la, lb):
        if x is y:
            out.append(x)
            continue
        nx = isinstance(x, Arr) or (isinstance(x, (int, float)))
        ny = isinstance(y, Arr) or (isinstance(y, (int, float)))
        if nx and ny:
            if not isinstance(x, Arr) and not isinstance(y, Arr) and x == y and type(x) is type(y):
                out.append(x)
                continue
            from . import arr
            xa, ya = asarr(x), asarr(y)
            if xa.ndim != ya.ndim:
                raise Unsupported('merge of different ranks')
            for d, e in zip(xa.sh, ya.sh):
                if not (d is e or d == e and isinstance(d, int) or arr.q(ir.eq(arr.dT(d), arr.dT(e))) is True):
                    raise Unsupported('merge of different shapes')
            dt = arr.result_dt(xa.dt, ya.dt)
            out.append(_mk(c, xa, ya, dt))
            continue
        if x is UNDEF:
            out.append(y)
        elif y is UNDEF:
            out.append(x)
        elif same_static(x, y):
            out.append(x)
        else:
            raise Unsupported('merge of different static values %r %r' % (x, y))
    return rb(out)


def _mk(c, x, y, dt):
    from . import arr
    return Arr(x.sh, lambda *i: ir.ite(c, arr.castT(x.fn(*i), dt), arr.castT(y.fn(*i), dt)), dt)


def merge_outs(outs):
    r = outs[-1][1]
    for conds, v in reversed(outs[:-1]):
        r = ite_tree(ir.and_(*conds), v, r)
    return r
