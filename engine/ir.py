"""Hash-consed term language.

Sorts: R real, I integer, B bool, K random key, U opaque object.
Binders (sum/all/lam) are alpha-canonical: the bound variable is named by the height
of its body, so alpha-equivalent terms are the same object.
"""
from fractions import Fraction
import itertools, sys, zlib
sys.setrecursionlimit(20000)

_table = {}
_ids = itertools.count()
_fresh = itertools.count()


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'fv', 'height', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.id < other.id


_empty = frozenset()


def mk(op, args, sort):
    key = (op, sort) + tuple(a.id if isinstance(a, T) else ('#', type(a).__name__, a) for a in args)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.sort = sort
    t.id = next(_ids)
    fv = _empty
    h = 0
    for a in args:
        if isinstance(a, T):
            if a.fv:
                fv = fv | a.fv if fv else a.fv
            if a.height > h:
                h = a.height
    if op == 'var':
        fv = frozenset([t])
    elif op == 'bv':
        fv = frozenset([t])
    elif op in ('sum', 'all', 'lam'):
        # args: (n_binders dims..., body) with bv heights h.. : see binder()
        k = args[0]
        hb = args[1]
        bvs = {bv(hb + i, 'I') for i in range(k)}
        # free: dims + (body minus bvs)
        fv = _empty
        for a in args[2:-1]:
            fv = fv | a.fv
        fv = fv | (args[-1].fv - bvs)
        h = hb + k
        for a in args[2:-1]:
            h = max(h, a.height)
    t.fv = fv
    t.height = h
    _table[key] = t
    return t


def bv(level, sort):
    return mk('bv', (level,), sort)


def var(name, sort):
    return mk('var', (name,), sort)


def fresh(prefix, sort='I'):
    return var('%s!%d' % (prefix, next(_fresh)), sort)


def const(v, sort=None):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return mk('const', (v,), 'B')
    if isinstance(v, int):
        return mk('const', (Fraction(v),), sort or 'I')
    if isinstance(v, Fraction):
        return mk('const', (v,), sort or 'R')
    if isinstance(v, float):
        import math
        if math.isinf(v) or math.isnan(v):
            if v < 0:
                return mk('neg', (mk('special', ('inf',), 'R'),), 'R')
            return mk('special', ('nan' if math.isnan(v) else 'inf',), 'R')
        # decimal literals mean the decimal value (real-number semantics)
        return mk('const', (Fraction(repr(v)),), sort or 'R')
    raise TypeError(v)


TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def isconst(t):
    return t.op == 'const'


def _num(a, b):
    return 'R' if 'R' in (a.sort, b.sort) else 'I'


FP = False
"""IEEE reading: arithmetic on real-sorted terms builds opaque fp.* applications, nothing is rearranged or folded."""


class fp_mode:
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        global FP
        self.old, FP = FP, self.on

    def __exit__(self, *a):
        global FP
        FP = self.old


def _fp(name, *xs):
    return mk('app', ('fp.' + name,) + xs, 'R')


def add(a, b):
    if FP and 'R' in (a.sort, b.sort):
        return _fp('add', a, b)
    if isconst(a) and isconst(b):
        return const(a.args[0] + b.args[0], _num(a, b))
    if isconst(a) and a.args[0] == 0 and _num(a, b) == b.sort:
        return b
    if isconst(b) and b.args[0] == 0 and _num(a, b) == a.sort:
        return a
    return mk('add', (a, b), _num(a, b))


def neg(a):
    if FP and a.sort == 'R' and not isconst(a) and a.op != 'special':
        return _fp('neg', a)
    if isconst(a):
        return const(-a.args[0], a.sort)
    return mk('neg', (a,), a.sort)


def sub(a, b):
    if FP and 'R' in (a.sort, b.sort):
        return _fp('sub', a, b)
    if isconst(a) and isconst(b):
        return const(a.args[0] - b.args[0], _num(a, b))
    if isconst(b) and b.args[0] == 0 and _num(a, b) == a.sort:
        return a
    if a is b and a.sort == 'I':
        return ZERO
    return mk('sub', (a, b), _num(a, b))


def mul(a, b):
    if FP and 'R' in (a.sort, b.sort):
        return _fp('mul', a, b)
    if isconst(a) and isconst(b):
        return const(a.args[0] * b.args[0], _num(a, b))
    for x, y in ((a, b), (b, a)):
        if isconst(x) and x.args[0] == 1 and _num(a, b) == y.sort:
            return y
    return mk('mul', (a, b), _num(a, b))


def div(a, b):
    if FP and 'R' in (a.sort, b.sort):
        return _fp('div', a, b)
    if isconst(a) and isconst(b) and b.args[0] != 0:
        return const(a.args[0] / b.args[0], 'R')
    return mk('div', (a, b), 'R')


def ipow(a, n):
    if FP and a.sort == 'R':
        return _fp('pow', a, const(n))
    return mk('pow', (a, n), a.sort if n >= 0 else 'R')


def idiv(a, b):
    if isconst(a) and isconst(b) and b.args[0] != 0:
        return const(int(a.args[0] // b.args[0]))
    if isconst(b) and b.args[0] == 1:
        return a
    return mk('idiv', (a, b), 'I')


def imod(a, b):
    if isconst(a) and isconst(b) and b.args[0] != 0:
        return const(int(a.args[0] % b.args[0]))
    if isconst(b) and b.args[0] == 1:
        return ZERO
    return mk('imod', (a, b), 'I')


def fn(name, *args):
    """Interpreted real functions: exp log sqrt tanh abs floor ceil max min sign."""
    if FP and 'R' in [a.sort for a in args] and name not in ('floor', 'ceil'):
        return _fp(name, *args)
    if name == 'abs' and isconst(args[0]):
        return const(abs(args[0].args[0]), args[0].sort)
    if name in ('max', 'min') and all(isconst(a) for a in args):
        return const((max if name == 'max' else min)(a.args[0] for a in args), _num(*args))
    s = 'R'
    if name in ('floor', 'ceil'):
        s = 'I'
    if name in ('max', 'min'):
        if args[0] is args[1]:
            return args[0]
        s = _num(*args)
    if name in ('abs', 'sign'):
        s = args[0].sort
    return mk('fn', (name,) + args, s)


def app(name, sort, *args):
    return mk('app', (name,) + args, sort)


def lt(a, b):
    if FP and 'R' in (a.sort, b.sort):
        return mk('app', ('fp.lt', a, b), 'B')
    if isconst(a) and isconst(b):
        return const(bool(a.args[0] < b.args[0]))
    if a is b and a.sort == 'I':
        return FALSE
    return mk('lt', (a, b), 'B')


def le(a, b):
    if FP and 'R' in (a.sort, b.sort):
        return mk('app', ('fp.le', a, b), 'B')
    if isconst(a) and isconst(b):
        return const(bool(a.args[0] <= b.args[0]))
    if a is b and a.sort == 'I':
        return TRUE
    return mk('le', (a, b), 'B')


def eq(a, b):
    if a.sort == 'B' or b.sort == 'B':
        if isconst(a):
            return b if a.args[0] else not_(b)
        if isconst(b):
            return a if b.args[0] else not_(a)
        if a is b:
            return TRUE
        if b.id < a.id:
            a, b = b, a
        return mk('iff', (a, b), 'B')
    if FP and 'R' in (a.sort, b.sort):
        return mk('app', ('fp.eq', a, b), 'B')
    if isconst(a) and isconst(b):
        return const(bool(a.args[0] == b.args[0]))
    if a is b and a.sort != 'R':
        return TRUE
    if b.id < a.id:
        a, b = b, a
    return mk('eq', (a, b), 'B')


def not_(a):
    if isconst(a):
        return const(not a.args[0])
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


def and_(*xs):
    out = []
    for x in xs:
        if x.op == 'and':
            ys = x.args
        else:
            ys = (x,)
        for y in ys:
            if y is FALSE:
                return FALSE
            if y is TRUE or y in out:
                continue
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'B')


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return not_(and_(a, not_(b)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if FP and 'R' in (a.sort, b.sort):
        return _fp('ite', c, a, b)
    if a.sort != b.sort:
        if 'B' in (a.sort, b.sort):
            a = b2n(a) if a.sort == 'B' else a
            b = b2n(b) if b.sort == 'B' else b
        if {a.sort, b.sort} == {'R', 'I'}:
            return mk('ite', (c, a, b), 'R')
    if a.sort == 'B' and isconst(a) and isconst(b):
        return c if a.args[0] else not_(c)
    return mk('ite', (c, a, b), a.sort)


def b2n(c):
    if isconst(c):
        return const(1 if c.args[0] else 0)
    return mk('b2n', (c,), 'I')


def special(t):
    return t.op == 'special'


# ---------------------------------------------------------------- binders
def _binder(op, vs, dims, body, sort):
    h = body.height
    for d in dims:
        h = max(h, d.height)
    m = {v: bv(h + i, 'I') for i, v in enumerate(vs)}
    body2 = subst_raw(body, m)
    return mk(op, (len(vs), h) + tuple(dims) + (body2,), sort)


def sum_(v, n, body):
    if isconst(n) and n.args[0] <= 0:
        return const(0, body.sort)
    if isconst(n) and n.args[0] == 1:
        return subst(body, {v: ZERO})
    if v not in body.fv and body.sort in 'RI' and not (FP and body.sort == 'R'):
        return mul(n, body)
    return _binder('sum', (v,), (n,), body, body.sort)


def all_(v, n, body):
    if v not in body.fv:
        return or_(body, le(n, ZERO))
    return _binder('all', (v,), (n,), body, 'B')


def any_(v, n, body):
    return not_(all_(v, n, not_(body)))


def lam(vs, dims, body):
    for v, n in zip(vs, dims):
        if isconst(n) and n.args[0] == 1 and v in body.fv:
            body = subst(body, {v: ZERO})
    return _binder('lam', tuple(vs), tuple(dims), body, 'L')


def open_binder(t, names=None):
    """-> (fresh vars, dims, body)"""
    k, h = t.args[0], t.args[1]
    dims = t.args[2:-1]
    vs = tuple(fresh('b') for _ in range(k))
    m = {bv(h + i, 'I'): vs[i] for i in range(k)}
    if on_open is not None:
        for v, d in zip(vs, dims):
            on_open(v, d)
    return vs, dims, subst_raw(t.args[-1], m)


def open_at(t, depth):
    """open a binder with variables named by nesting depth and dimension (deterministic)"""
    k, h = t.args[0], t.args[1]
    dims = t.args[2:-1]
    vs = tuple(var('b@%d.%d:%d' % (depth, i, dims[i].id), 'I') for i in range(k))
    m = {bv(h + i, 'I'): vs[i] for i in range(k)}
    if on_open is not None:
        for v, d in zip(vs, dims):
            on_open(v, d)
    return vs, dims, subst_raw(t.args[-1], m)


on_open = None

_sh = {}


def shash(t):
    """structural hash that does not see the names of bound / opened variables"""
    r = _sh.get(t)
    if r is None:
        if t.op == 'bv' or (t.op == 'var' and t.args[0][:2] in ('b@', 'b!')):
            r = 7
        else:
            x = zlib.crc32(t.op.encode()) * 31 + ord(t.sort)
            for a in (t.args[2:] if t.op in ('sum', 'all', 'lam') else t.args):
                x = (x * 1000003 + (shash(a) if isinstance(a, T) else zlib.crc32(str(a).encode()))) & 0xFFFFFFFFFFFFFFF
            r = x
        _sh[t] = r
    return r


def okey(t):
    return (shash(t), t.id)


def apply_binder(t, idx):
    k, h = t.args[0], t.args[1]
    m = {bv(h + i, 'I'): idx[i] for i in range(k)}
    return subst_b(t.args[-1], m)


def subst_b(t, m):
    return _subst(t, m, {})


def subst_raw(t, m):
    return _subst(t, m, {})


def subst(t, m):
    return _subst(t, m, {})


def rebuild(t, args):
    if FP:
        with fp_mode(False):      # a node keeps the arithmetic it was built in
            return rebuild(t, args)
    op = t.op
    if op == 'add': return add(*args)
    if op == 'sub': return sub(*args)
    if op == 'neg': return neg(*args)
    if op == 'mul': return mul(*args)
    if op == 'div': return div(*args)
    if op == 'pow': return ipow(*args)
    if op == 'idiv': return idiv(*args)
    if op == 'imod': return imod(*args)
    if op == 'fn': return fn(*args)
    if op == 'lt': return lt(*args)
    if op == 'le': return le(*args)
    if op in ('eq', 'iff'): return eq(*args)
    if op == 'not': return not_(*args)
    if op == 'and': return and_(*args)
    if op == 'ite': return ite(*args)
    if op == 'b2n': return b2n(*args)
    if op == 'app':
        if args[0] == 'fp.ite':
            if args[1] is TRUE or args[2] is args[3]:
                return args[2]
            if args[1] is FALSE:
                return args[3]
        return mk('app', tuple(args), t.sort)
    return mk(op, tuple(args), t.sort)


def _subst(t, m, memo):
    if not t.fv:
        return t
    hit = False
    for v in m:
        if v in t.fv:
            hit = True
            break
    if not hit:
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ('sum', 'all', 'lam'):
        k, h = t.args[0], t.args[1]
        dims = [_subst(d, m, memo) for d in t.args[2:-1]]
        vs = tuple(fresh('b') for _ in range(k))
        mb = dict(m)
        for i in range(k):
            mb[bv(h + i, 'I')] = vs[i]
        body = _subst(t.args[-1], mb, {})
        if t.op == 'sum':
            r = sum_(vs[0], dims[0], body)
        elif t.op == 'all':
            r = all_(vs[0], dims[0], body)
        else:
            r = lam(vs, dims, body)
    else:
        args = [(_subst(a, m, memo) if isinstance(a, T) else a) for a in t.args]
        r = rebuild(t, args)
    memo[t] = r
    return r


def replace(t, m, memo=None):
    """Replace sub-terms (any node, outside binders only if closed) by others."""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ('sum', 'all', 'lam'):
        vs, dims, body = open_binder(t)
        dims = [replace(d, m, memo) for d in dims]
        nb = replace(body, m, {})
        if nb is body and all(x is y for x, y in zip(dims, t.args[2:-1])):
            r = t
        elif t.op == 'sum':
            r = sum_(vs[0], dims[0], nb)
        elif t.op == 'all':
            r = all_(vs[0], dims[0], nb)
        else:
            r = lam(vs, dims, nb)
    elif any(isinstance(a, T) for a in t.args):
        args = [(replace(a, m, memo) if isinstance(a, T) else a) for a in t.args]
        r = t if all(x is y for x, y in zip(args, t.args)) else rebuild(t, args)
    else:
        r = t
    memo[t] = r
    return r


def subterms(t, seen=None, into_binders=True):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('sum', 'all', 'lam') and not into_binders:
            continue
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    return seen


def show(t, d=0):
    if d > 40:
        return '…'
    o = t.op
    f = lambda a: show(a, d + 1) if isinstance(a, T) else str(a)
    if o == 'const':
        return str(t.args[0])
    if o in ('var',):
        return t.args[0]
    if o == 'bv':
        return '_%d' % t.args[0]
    if o in ('add', 'sub', 'mul', 'div', 'lt', 'le', 'eq', 'iff', 'idiv', 'imod', 'pow'):
        s = dict(add='+', sub='-', mul='*', div='/', lt='<', le='<=', eq='==', iff='<=>', idiv='//', imod='%', pow='**')[o]
        return '(%s %s %s)' % (f(t.args[0]), s, f(t.args[1]))
    if o == 'neg':
        return '-%s' % f(t.args[0])
    if o in ('fn', 'app'):
        return '%s(%s)' % (t.args[0], ', '.join(f(a) for a in t.args[1:]))
    if o in ('sum', 'all', 'lam'):
        k, h = t.args[0], t.args[1]
        return '%s[%s](%s)' % (o, ', '.join('_%d<%s' % (h + i, f(t.args[2 + i])) for i in range(k)), f(t.args[-1]))
    return '%s(%s)' % (o, ', '.join(f(a) for a in t.args))
