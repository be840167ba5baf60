"""Symbolic arrays: a shape (ints / integer terms) and an element function idx -> term."""
import math
from fractions import Fraction
from . import ir
from .ir import T, const, TRUE, FALSE, ZERO, ONE
from . import ctx as _ctx
from .ctx import Unsupported

UNROLL = 8


def C():
    return _ctx.C


def D(d):
    """dimension -> python int when concrete, else integer term"""
    if isinstance(d, bool):
        return int(d)
    if isinstance(d, int):
        return d
    if isinstance(d, Arr):
        d = d.term()
    if isinstance(d, T):
        if d.op == 'const' and d.args[0].denominator == 1:
            return int(d.args[0])
        return simp(d)
    if hasattr(d, '__index__'):
        return d.__index__()
    raise Unsupported('dimension %r' % (d,))


_simp_cache = {}


def simp(t):
    """light normalisation of integer terms (shape arithmetic)"""
    from . import prove
    k = (prove._key(), t.id)
    r = _simp_cache.get(k)
    if r is None:
        if len(_simp_cache) > 20000:
            _simp_cache.clear()
        n = prove.Prover().norm([])
        r = n.canon(t)
        _simp_cache[k] = r
    return r


def dT(d):
    if isinstance(d, Arr):
        return d.term()
    return d if isinstance(d, T) else const(int(d))


def dmul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return D(ir.mul(dT(a), dT(b)))


def dadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return D(ir.add(dT(a), dT(b)))


def dsub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return D(ir.sub(dT(a), dT(b)))


def wrapdim(d):
    if isinstance(d, int):
        return d
    return Arr((), lambda: d, 'i')


class Shape(tuple):
    pass


SORT = {'f': 'R', 'i': 'I', 'b': 'B', 'k': 'K', 'u': 'U'}
DT = {v: k for k, v in SORT.items()}


def q(c):
    from . import prove
    return prove.quick(c)


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a is b:
        return True
    return C().decide(ir.eq(dT(a), dT(b)))


def castT(t, dt):
    s = SORT[dt]
    if t.sort == s:
        return t
    if s in 'RI' and t.sort == 'B':
        t = ir.b2n(t)
        if s == 'I':
            return t
        return t
    if s == 'R' and t.sort == 'I':
        return t
    if s == 'I' and t.sort == 'R':
        if t.op == 'const':
            return const(int(t.args[0]))
        # truncation towards zero
        return ir.ite(ir.le(const(0), t), ir.fn('floor', t), ir.fn('ceil', t))
    if s == 'B':
        if t.sort in 'RI':
            return ir.not_(ir.eq(t, const(0, t.sort)))
    raise Unsupported('cast %s to %s' % (t.sort, dt))


class _At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        return _AtIdx(self.a, k)


class _AtIdx:
    def __init__(self, a, k):
        self.a, self.k = a, k

    def _upd(self, v, f):
        a = self.a
        view = resolve_index(a.shape, self.k)
        sh, fwd, hit = view
        v = asarr(v)
        if v.dt == 'f' and a.dt in 'ib':
            a = a.astype('f') if a.dt == 'i' else a
        vb = broadcast_to(v, sh)

        def fn(*idx):
            cond, pos = hit(idx)
            old = a.fn(*idx)
            if cond is FALSE:
                return old
            return ir.ite(cond, f(old, castT(vb.fn(*pos), a.dt)), old)
        return Arr(a.shape, fn, a.dt)

    def set(self, v, **kw):
        return self._upd(v, lambda o, n: n)

    def add(self, v, **kw):
        return self._upd(v, lambda o, n: ir.add(o, n))

    def multiply(self, v, **kw):
        return self._upd(v, lambda o, n: ir.mul(o, n))

    mul = multiply

    def min(self, v, **kw):
        return self._upd(v, lambda o, n: ir.fn('min', o, n))

    def max(self, v, **kw):
        return self._upd(v, lambda o, n: ir.fn('max', o, n))

    def divide(self, v, **kw):
        return self._upd(v, lambda o, n: ir.div(o, n))

    def get(self, **kw):
        return self.a[self.k]


class Meta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x)


class Arr:
    def __init__(self, shape, fn, dt='f'):
        self._shape = tuple(D(d) for d in shape)
        self._fn = fn
        self.dt = dt
        self._memo = {}

    # ---- basics
    def fn(self, *idx):
        c = _ctx.C
        k = (idx, tuple(c.path), len(c.facts))
        r = self._memo.get(k)
        if r is None:
            if len(idx) != len(self._shape):
                raise Unsupported('rank mismatch')
            r = self._fn(*idx)
            if len(self._memo) < 512:
                self._memo[k] = r
        return r

    @property
    def sh(self):
        return self._shape

    @property
    def shape(self):
        return Shape(wrapdim(d) for d in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for d in self._shape:
            r = dmul(r, d)
        return wrapdim(r)

    @property
    def dtype(self):
        return DType(self.dt)

    @property
    def T(self):
        return transpose(self)

    @property
    def at(self):
        return _At(self)

    @property
    def real(self):
        return self

    def term(self):
        if self._shape:
            if all(d == 1 for d in self._shape):
                return self.fn(*[ZERO] * len(self._shape))
            raise Unsupported('scalar expected')
        return self.fn()

    def __repr__(self):
        if not self._shape:
            return 'S<%s>' % ir.show(self.fn())
        return 'Arr%s' % (tuple(self._shape),)

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return id(self)

    def __len__(self):
        d = self._shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported('len of symbolic dimension outside the hook')

    def __bool__(self):
        if self._shape and not all(d == 1 for d in self._shape):
            raise ValueError('truth value of an array')
        t = self.term()
        return C().decide(castT(t, 'b'))

    def __index__(self):
        t = self.term() if not self._shape else None
        if t is not None and t.op == 'const' and t.sort == 'I':
            return int(t.args[0])
        t = simp(t)
        if t.op == 'const':
            return int(t.args[0])
        raise Unsupported('symbolic value used as a python index: %s' % ir.show(t))

    def __int__(self):
        return self.__index__()

    def __float__(self):
        t = self.term()
        if t.op == 'const':
            return float(t.args[0])
        raise Unsupported('float() of a symbolic value')

    def item(self):
        return Arr((), lambda: self.term(), self.dt)

    def __iter__(self):
        d = self._shape[0]
        if not isinstance(d, int):
            raise Unsupported('iteration over a symbolic dimension')
        for i in range(d):
            yield self[i]

    def __getitem__(self, k):
        return getitem(self, k)

    def astype(self, dt):
        dt = asdtype(dt)
        if dt == self.dt:
            return self
        return Arr(self._shape, lambda *i: castT(self.fn(*i), dt), dt)

    def copy(self):
        return self

    # ---- arithmetic
    def _b(self, o, f, dt=None, r=False):
        o = asarr(o)
        a, b = (o, self) if r else (self, o)
        return binop(f, a, b, dt)

    def __add__(self, o): return self._b(o, ir.add)
    def __radd__(self, o): return self._b(o, ir.add, r=True)
    def __sub__(self, o): return self._b(o, ir.sub)
    def __rsub__(self, o): return self._b(o, ir.sub, r=True)
    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return NotImplemented
        return self._b(o, ir.mul)
    def __rmul__(self, o):
        if isinstance(o, (list, tuple, SymList)):
            return SymList.repeat(o, self)
        return self._b(o, ir.mul, r=True)
    def __truediv__(self, o): return self._b(o, ir.div, 'f')
    def __rtruediv__(self, o): return self._b(o, ir.div, 'f', r=True)
    def __floordiv__(self, o): return self._b(o, floordiv)
    def __rfloordiv__(self, o): return self._b(o, floordiv, r=True)
    def __mod__(self, o): return self._b(o, ir.imod)
    def __rmod__(self, o): return self._b(o, ir.imod, r=True)
    def __divmod__(self, o): return self // o, self % o
    def __neg__(self): return Arr(self._shape, lambda *i: ir.neg(num(self.fn(*i))), 'i' if self.dt == 'b' else self.dt)
    def __pos__(self): return self
    def __abs__(self): return Arr(self._shape, lambda *i: ir.fn('abs', self.fn(*i)), self.dt)
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(asarr(o), self)
    def __matmul__(self, o): return dot(self, asarr(o), matmul=True)
    def __rmatmul__(self, o): return dot(asarr(o), self, matmul=True)
    def __lt__(self, o): return self._b(o, ir.lt, 'b')
    def __le__(self, o): return self._b(o, ir.le, 'b')
    def __gt__(self, o): return self._b(o, lambda a, b: ir.lt(b, a), 'b')
    def __ge__(self, o): return self._b(o, lambda a, b: ir.le(b, a), 'b')
    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._b(o, eqT, 'b')
    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._b(o, lambda a, b: ir.not_(eqT(a, b)), 'b')
    def __and__(self, o): return self._b(o, boolop(ir.and_), 'b')
    __rand__ = __and__
    def __or__(self, o): return self._b(o, boolop(ir.or_), 'b')
    __ror__ = __or__
    def __xor__(self, o): return self._b(o, boolop(lambda a, b: ir.not_(ir.eq(a, b))), 'b')
    def __invert__(self): return Arr(self._shape, lambda *i: ir.not_(castT(self.fn(*i), 'b')), 'b')

    # ---- reductions etc.
    def sum(self, *a, **kw): return red_sum(self, *a, **kw)
    def mean(self, *a, **kw): return red_mean(self, *a, **kw)
    def prod(self, *a, **kw): return red_prod(self, *a, **kw)
    def all(self, *a, **kw): return red_all(self, *a, **kw)
    def any(self, *a, **kw): return red_any(self, *a, **kw)
    def max(self, *a, **kw): return red_max(self, *a, **kw)
    def min(self, *a, **kw): return red_min(self, *a, **kw)
    def argmax(self, *a, **kw): return argext(self, 'argmax', *a, **kw)
    def argmin(self, *a, **kw): return argext(self, 'argmin', *a, **kw)
    def std(self, *a, **kw): return unop(lambda t: ir.fn('sqrt', t), variance(self, *a, **kw))
    def var(self, *a, **kw): return variance(self, *a, **kw)
    def cumsum(self, axis=None, dtype=None): return cumsum(self, axis)
    def dot(self, o): return dot(self, asarr(o))
    def flatten(self, *a): return reshape(self, (-1,))
    def ravel(self, *a): return reshape(self, (-1,))
    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        return transpose(self, ax or None)
    def squeeze(self, axis=None): return squeeze(self, axis)
    def swapaxes(self, a, b): return swapaxes(self, a, b)
    def reshape(self, *s, **kw):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return reshape(self, s)
    def repeat(self, n, axis=None, **kw): return repeat(self, n, axis)
    def take(self, i, axis=None, **kw): return take(self, i, axis)
    def diagonal(self): return diag(self)
    def trace(self): return trace(self)
    def clip(self, a=None, b=None): return clip(self, a, b)
    def block_until_ready(self): return self
    def tolist(self): return [x.tolist() if x.ndim else x for x in self]


class DType:
    def __init__(self, dt):
        self.dt = dt

    def __eq__(self, o):
        try:
            return asdtype(o) == self.dt
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.dt)

    def __repr__(self):
        return 'dtype(%s)' % self.dt

    def __call__(self, x):
        return asarr(x).astype(self.dt)


def asdtype(d):
    if isinstance(d, DType):
        return d.dt
    d = getattr(d, 'real', d) if isinstance(d, type) and hasattr(d, 'impl') else d
    d = {'h_float': float, 'h_int': int, 'h_bool': bool}.get(getattr(d, '__name__', None), d)
    if d in ('f', 'i', 'b', 'k'):
        return d
    if d is float:
        return 'f'
    if d is int:
        return 'i'
    if d is bool:
        return 'b'
    if d is None:
        return 'f'
    if isinstance(d, str):
        if d.startswith('float') or d.startswith('bfloat'):
            return 'f'
        if d.startswith('int') or d.startswith('uint'):
            return 'i'
        if d.startswith('bool'):
            return 'b'
    if callable(d) and getattr(d, '_dt', None):
        return d._dt
    raise Unsupported('dtype %r' % (d,))


def num(t):
    return ir.b2n(t) if t.sort == 'B' else t


def eqT(a, b):
    if a.sort == 'B' and b.sort != 'B':
        a = ir.b2n(a)
    if b.sort == 'B' and a.sort != 'B':
        b = ir.b2n(b)
    return ir.eq(a, b)


def boolop(f):
    return lambda a, b: f(castT(a, 'b'), castT(b, 'b'))


def floordiv(a, b):
    if 'R' in (a.sort, b.sort):
        return ir.fn('floor', ir.div(a, b))
    return ir.idiv(a, b)


def asarr(x, dt=None):
    if isinstance(x, Arr):
        return x.astype(dt) if dt else x
    if isinstance(x, T):
        r = Arr((), lambda: x, DT[x.sort])
        return r.astype(dt) if dt else r
    if isinstance(x, bool):
        c = const(x)
        r = Arr((), lambda: c, 'b')
    elif isinstance(x, int):
        c = const(x)
        r = Arr((), lambda: c, 'i')
    elif isinstance(x, float):
        c = const(x)
        r = Arr((), lambda: c, 'f')
    elif isinstance(x, (list, tuple)):
        if len(x) == 0:
            return Arr((0,), lambda i: const(0, 'R'), 'f')
        r = stack([asarr(y) for y in x])
    elif isinstance(x, SymList):
        return x.stack()
    elif hasattr(x, '_as_arr'):
        return x._as_arr()
    else:
        raise Unsupported('array from %r' % (type(x),))
    return r.astype(dt) if dt else r


def result_dt(a, b):
    for k in ('u', 'k', 'f', 'i', 'b'):
        if k in (a, b):
            return k


def broadcast_shapes(*shs):
    n = max(len(s) for s in shs)
    out = []
    for i in range(n):
        d = 1
        for s in shs:
            k = i - (n - len(s))
            if k < 0:
                continue
            e = s[k]
            if e == 1 and isinstance(e, int):
                continue
            if d == 1 and isinstance(d, int):
                d = e
                continue
            if e is d or (isinstance(e, int) and isinstance(d, int) and e == d):
                continue
            if same_dim(d, e):
                if isinstance(e, int):
                    d = e
                continue
            # maybe one of the symbolic dimensions is 1
            if isinstance(e, T) and C().decide(ir.eq(e, ONE)):
                continue
            if isinstance(d, T) and C().decide(ir.eq(d, ONE)):
                d = e
                continue
            raise ValueError('incompatible shapes for broadcasting %s' % (shs,))
        out.append(d)
    return tuple(out)


def _is1(d):
    return (isinstance(d, int) and d == 1) or (isinstance(d, T) and q(ir.eq(d, ONE)) is True)


def bidx(a, idx):
    k = len(idx) - len(a.sh)
    return tuple(ZERO if _is1c(d) else i for d, i in zip(a.sh, idx[k:]))


def _is1c(d):
    return isinstance(d, int) and d == 1


def norm1(a, sh):
    """replace symbolic dims known (by path) to be 1 by literal 1 when the target differs"""
    k = len(sh) - len(a.sh)
    new = []
    ch = False
    for i, d in enumerate(a.sh):
        t = sh[k + i]
        if isinstance(d, T) and not (t is d) and q(ir.eq(d, ONE)) is True and not (isinstance(t, T) and q(ir.eq(t, d)) is True):
            new.append(1)
            ch = True
        else:
            new.append(d)
    if not ch:
        return a
    return Arr(tuple(new), a.fn, a.dt)


def broadcast_to(a, shape):
    a = asarr(a)
    shape = tuple(D(d) for d in shape)
    sh = broadcast_shapes(a.sh, shape)
    if len(sh) != len(shape) or not all(same_dim(x, y) for x, y in zip(sh, shape)):
        raise ValueError('incompatible shapes for broadcasting: %s to %s' % (a.sh, shape))
    a = norm1(a, shape)
    return Arr(shape, lambda *i: a.fn(*bidx(a, i)), a.dt)


def binop(f, a, b, dt=None):
    sh = broadcast_shapes(a.sh, b.sh)
    a, b = norm1(a, sh), norm1(b, sh)
    rdt = dt or result_dt(a.dt, b.dt)
    arith = dt != 'b'
    if arith and rdt == 'b':
        rdt = 'i'

    def g(*i):
        x, y = a.fn(*bidx(a, i)), b.fn(*bidx(b, i))
        if arith:
            x, y = num(x), num(y)
        elif x.sort == 'B' and y.sort in 'RI' or y.sort == 'B' and x.sort in 'RI':
            if f is not eqT:
                x, y = num(x), num(y)
        r = f(x, y)
        return r
    return Arr(sh, g, rdt)


def unop(f, a, dt='f'):
    a = asarr(a)
    return Arr(a.sh, lambda *i: f(num(a.fn(*i))), dt or a.dt)


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported('one-argument where')
    c, a, b = asarr(c), asarr(a), asarr(b)
    sh = broadcast_shapes(c.sh, a.sh, b.sh)
    dt = result_dt(a.dt, b.dt)
    c, a, b = norm1(c, sh), norm1(a, sh), norm1(b, sh)
    return Arr(sh, lambda *i: ir.ite(castT(c.fn(*bidx(c, i)), 'b'), castT(a.fn(*bidx(a, i)), dt), castT(b.fn(*bidx(b, i)), dt)), dt)


def power(a, b):
    a, b = asarr(a), asarr(b)
    if b.ndim == 0:
        t = b.term()
        if t.op == 'const':
            v = t.args[0]
            if v.denominator == 1 and abs(v) <= 6:
                n = int(v)
                if n == 0:
                    return Arr(a.sh, lambda *i: const(1, SORT[a.dt]), a.dt)
                return Arr(a.sh, lambda *i: ir.ipow(num(a.fn(*i)), n), a.dt if n > 0 else 'f')
            if v == Fraction(1, 2):
                return unop(lambda x: ir.fn('sqrt', x), a)
            if v == Fraction(-1, 2):
                return unop(lambda x: ir.div(const(1), ir.fn('sqrt', x)), a)
    return binop(lambda x, y: ir.fn('pow', x, y), a, b, 'f')


# ---------------------------------------------------------------- indexing
def wrap_index(t, n):
    """jax semantics of an integer index that is written to: wrap negatives once; outside the array nothing is written."""
    n = dT(n)
    lo = q(ir.lt(t, ZERO))
    if lo is True:
        return ir.add(n, t)
    if lo is not False and q(ir.le(ZERO, t)) is not True:
        return ir.ite(ir.lt(t, ZERO), ir.add(t, n), t)
    return t


def int_index(t, n):
    """jax semantics of an integer index that is read: wrap negatives, clamp."""
    n = dT(n)
    if ir.isconst(t):
        v = int(t.args[0])
        if v < 0:
            return clampT(ir.add(n, t), n)
        if ir.isconst(n):
            return const(min(v, int(n.args[0]) - 1))
        return clampT(t, n)
    if q(ir.lt(t, ZERO)) is True:
        t = ir.add(n, t)
    elif q(ir.le(ZERO, t)) is not True:
        t = ir.ite(ir.lt(t, ZERO), ir.add(t, n), t)
    return clampT(t, n)


def clampT(t, n):
    last = ir.sub(n, ONE)
    if q(ir.le(ZERO, t)) is not True:
        t = ir.fn('max', t, ZERO)
    if q(ir.lt(t, n)) is not True:
        t = ir.fn('min', t, last)
    return t


def slice_bounds(s, n):
    """-> (start T, length D, step int/T)"""
    step = s.step
    if step is None:
        step = 1
    if isinstance(step, Arr):
        st = step.term()
        step = int(st.args[0]) if ir.isconst(st) else st
    nT = dT(n)
    if isinstance(step, int) and step < 0:
        if step != -1 or s.start is not None or s.stop is not None:
            raise Unsupported('negative slice step')
        return ir.sub(nT, ONE), n, -1
    if isinstance(step, T) and q(ir.lt(ZERO, step)) is not True:
        raise Unsupported('slice step of unknown sign')

    def bound(v, default):
        if v is None:
            return default
        t = v.term() if isinstance(v, Arr) else const(int(v))
        if t.sort != 'I':
            raise TypeError('slice indices must be integers')
        if t is nT:
            return t
        if ir.isconst(t) and t.args[0] < 0:
            t = simp(ir.add(nT, t))
            return t if q(ir.le(ZERO, t)) is True else ir.fn('max', t, ZERO)
        if not ir.isconst(t):
            e = q(ir.lt(t, ZERO))
            if e is None:
                e = C().decide(ir.lt(t, ZERO))
            if e:
                t = simp(ir.add(nT, t))
                return t if q(ir.le(ZERO, t)) is True else ir.fn('max', t, ZERO)
        if q(ir.le(t, nT)) is True:
            return t
        return ir.fn('min', t, nT)
    lo = bound(s.start, ZERO)
    hi = bound(s.stop, nT)
    if lo is ZERO and hi is nT:
        ln = n
    else:
        d = simp(ir.sub(hi, lo))
        if q(ir.le(ZERO, d)) is not True:
            d = ir.fn('max', d, ZERO)
        ln = D(d)
    if step != 1 or isinstance(step, T):
        sT = dT(step)
        # ceil(len/step)
        ln = D(ir.neg(ir.idiv(ir.neg(dT(ln)), sT)))
    return lo, ln, step


def resolve_index(shape, k):
    """-> (result shape, fwd(idx_out)->idx_in, hit(idx_in)->(cond, idx_out)) for basic indexing"""
    if not isinstance(k, tuple):
        k = (k,)
    k = list(k)
    nreal = sum(1 for x in k if x is not None and x is not Ellipsis)
    if Ellipsis in [x for x in k if not isinstance(x, Arr)]:
        p = [i for i, x in enumerate(k) if x is Ellipsis][0]
        k[p:p + 1] = [slice(None)] * (len(shape) - nreal)
    else:
        k += [slice(None)] * (len(shape) - nreal)
    if nreal > len(shape):
        raise IndexError('too many indices')
    out = []
    spec = []
    ax = 0
    for x in k:
        if x is None:
            out.append(1)
            spec.append(('new',))
            continue
        n = shape[ax]
        if isinstance(x, slice):
            lo, ln, st = slice_bounds(x, n)
            out.append(ln)
            spec.append(('slice', lo, ln, st, n))
        else:
            t = x.term() if isinstance(x, Arr) and x.ndim == 0 else x
            if isinstance(t, int):
                t = const(t)
            if not isinstance(t, T):
                raise Unsupported('index %r' % (x,))
            if t.sort == 'R':
                raise TypeError('non-integer index')
            if isinstance(n, int) and n == 0:
                raise IndexError('index into an empty axis')
            spec.append(('int', int_index(t, n), wrap_index(t, n)))
        ax += 1

    def fwd(idx):
        res = []
        p = 0
        for s in spec:
            if s[0] == 'new':
                p += 1
            elif s[0] == 'slice':
                i = idx[p]
                p += 1
                lo, st = s[1], s[3]
                if st == -1 and isinstance(st, int):
                    res.append(ir.sub(lo, i))
                else:
                    v = i if (isinstance(st, int) and st == 1) else ir.mul(dT(st), i)
                    res.append(ir.add(lo, v))
            else:
                res.append(s[1])
        return tuple(res)

    def hit(idx):
        conds = []
        pos = []
        p = 0
        for s in spec:
            if s[0] == 'new':
                pos.append(ZERO)
            elif s[0] == 'slice':
                i = idx[p]
                p += 1
                lo, ln, st = s[1], s[2], s[3]
                n = s[4]
                if lo is ZERO and dT(ln) is dT(n) and st == 1:
                    pos.append(i)
                elif isinstance(st, int) and st == 1:
                    o = ir.sub(i, lo)
                    conds.append(ir.and_(ir.le(lo, i), ir.lt(i, ir.add(lo, dT(ln)))))
                    pos.append(o)
                elif st == -1 and isinstance(st, int):
                    pos.append(ir.sub(lo, i))
                else:
                    o = ir.sub(i, lo)
                    conds.append(ir.and_(ir.le(lo, i), ir.eq(ir.imod(o, dT(st)), ZERO), ir.lt(ir.idiv(o, dT(st)), dT(ln))))
                    pos.append(ir.idiv(o, dT(st)))
            else:
                conds.append(ir.eq(idx[p], s[2]))
                p += 1
        return ir.and_(*conds), tuple(pos)
    return tuple(out), fwd, hit


def getitem(a, k):
    kk = k if isinstance(k, tuple) else (k,)
    adv = [x for x in kk if isinstance(x, (Arr, list)) and (isinstance(x, list) or x.ndim > 0)]
    if adv:
        return adv_index(a, kk)
    sh, fwd, hit = resolve_index(a.sh, k)
    return Arr(sh, lambda *i: a.fn(*fwd(i)), a.dt)


def adv_index(a, kk):
    kk = [asarr(x) if isinstance(x, list) else x for x in kk]
    masks = [x for x in kk if isinstance(x, Arr) and x.dt == 'b' and x.ndim > 0]
    if masks:
        if len(kk) == 1:
            return mask_select(a, kk[0])
        if len(masks) == 1 and kk[0] is masks[0] and all(isinstance(x, slice) and x == slice(None) or x is Ellipsis for x in kk[1:]):
            return mask_select(a, kk[0])
        raise Unsupported('boolean mask mixed index')
    # integer arrays: expand Ellipsis
    nreal = sum(1 for x in kk if x is not None and x is not Ellipsis)
    if any(x is Ellipsis for x in kk):
        p = [i for i, x in enumerate(kk) if x is Ellipsis][0]
        kk[p:p + 1] = [slice(None)] * (a.ndim - nreal)
    else:
        kk += [slice(None)] * (a.ndim - nreal)
    if any(x is None for x in kk):
        raise Unsupported('newaxis with advanced index')
    isadv = [isinstance(x, Arr) and x.ndim > 0 or (isinstance(x, (int, Arr)) and not isinstance(x, slice)) for x in kk]
    arrs = [asarr(x) for x, f in zip(kk, isadv) if f]
    bsh = broadcast_shapes(*[x.sh for x in arrs])
    pos = [i for i, f in enumerate(isadv) if f]
    contiguous = pos == list(range(pos[0], pos[0] + len(pos)))
    first = pos[0] if contiguous else 0
    sl = {}
    outdims = []
    for i, x in enumerate(kk):
        if not isadv[i]:
            sl[i] = slice_bounds(x, a.sh[i])
    pre = [i for i in range(len(kk)) if not isadv[i] and i < first]
    post = [i for i in range(len(kk)) if not isadv[i] and i >= first]
    sh = tuple(sl[i][1] for i in pre) + tuple(bsh) + tuple(sl[i][1] for i in post)
    nb = len(bsh)

    def fn(*idx):
        ipre = dict(zip(pre, idx[:len(pre)]))
        ib = idx[len(pre):len(pre) + nb]
        ipost = dict(zip(post, idx[len(pre) + nb:]))
        res = []
        ai = iter(arrs)
        for i in range(len(kk)):
            if isadv[i]:
                x = next(ai)
                t = x.fn(*bidx(x, ib))
                res.append(int_index(t, a.sh[i]))
            else:
                lo, ln, st = sl[i]
                v = ipre.get(i, ipost.get(i))
                if isinstance(st, int) and st == -1:
                    res.append(ir.sub(lo, v))
                else:
                    res.append(ir.add(lo, ir.mul(dT(st), v)))
        return a.fn(*res)
    return Arr(sh, fn, a.dt)


def mask_select(a, m):
    """a[mask]: rows where the mask holds, in row-major order (numpy contract).

    count = app('mask.count'), r-th selected flat position = app('mask.sel', r)."""
    m = asarr(m)
    if m.ndim > a.ndim:
        raise IndexError('mask rank')
    for d1, d2 in zip(m.sh, a.sh):
        if not same_dim(d1, d2):
            raise IndexError('boolean index did not match')
    lm = lam_of(m)
    cnt = ir.app('mask.count', 'I', lm)
    rest = a.sh[m.ndim:]

    def fn(r, *i):
        pos = []
        for ax in range(m.ndim):
            pos.append(ir.app('mask.sel', 'I', ax, r, lm))
        return a.fn(*pos, *i)
    out = Arr((cnt,) + tuple(rest), fn, a.dt)
    out._mask = (m, lm, a)
    return out


def lam_of(a, n=None):
    """the whole array as a binder term"""
    a = asarr(a)
    if a.ndim == 0:
        return a.term()
    vs = tuple(ir.fresh('l') for _ in a.sh)
    for v, d in zip(vs, a.sh):
        C().ranges[v] = (ZERO, dT(d))
    return ir.lam(vs, [dT(d) for d in a.sh], a.fn(*vs))


def from_lam(l, dt='f'):
    if l.sort != 'L':
        return asarr(l)
    if l.op == 'lam':
        k = l.args[0]
        return Arr(l.args[2:2 + k], lambda *i: ir.apply_binder(l, i), dt)
    raise Unsupported('from_lam')


# ---------------------------------------------------------------- construction
def shape_arg(s):
    if isinstance(s, (list, tuple)):
        return tuple(D(x) for x in s)
    return (D(s),)


def full(shape, v, dtype=None):
    v = asarr(v)
    dt = asdtype(dtype) if dtype is not None else v.dt
    sh = shape_arg(shape)
    v = v.astype(dt)
    if v.ndim == 0:
        return Arr(sh, lambda *i: v.term(), dt)
    return broadcast_to(v, sh)


def zeros(shape, dtype=None):
    dt = asdtype(dtype)
    return full(shape, {'f': const(0, 'R'), 'i': ZERO, 'b': FALSE}[dt], DType(dt))


def ones(shape, dtype=None):
    dt = asdtype(dtype)
    return full(shape, {'f': const(1, 'R'), 'i': ONE, 'b': TRUE}[dt], DType(dt))


def eye(n, m=None, k=0, dtype=None):
    n = D(n)
    m = n if m is None else D(m)
    kT = asarr(k).term()
    r = Arr((n, m), lambda i, j: ir.b2n(ir.eq(ir.add(i, kT), j) if kT is not ZERO else ir.eq(i, j)), 'f')
    return r if dtype is None else r.astype(asdtype(dtype))


def arange(a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    a, b, st = [x.term() if isinstance(x, Arr) else (x if isinstance(x, T) else const(x)) for x in (a, b, step)]
    if 'R' in (a.sort, b.sort, st.sort):
        raise Unsupported('float arange')
    if st is ONE:
        n = simp(ir.sub(b, a))
    else:
        n = simp(ir.neg(ir.idiv(ir.sub(a, b), st)))
    if q(ir.le(ZERO, n)) is not True:
        n = ir.fn('max', n, ZERO)
    return Arr((D(n),), lambda i: ir.add(a, ir.mul(st, i)), 'i')


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if retstep or asarr(a).ndim or asarr(b).ndim:
        raise Unsupported('linspace form')
    a, b = asarr(a).term(), asarr(b).term()
    n = dT(D(num))
    den = ir.sub(n, ONE) if endpoint else n
    return Arr((D(n),), lambda i: ir.add(a, ir.div(ir.mul(i, ir.sub(b, a)), den)), 'f')


def stack(xs, axis=0):
    if isinstance(xs, SymList):
        return xs.stack(axis)
    if isinstance(xs, Arr):
        xs = list(xs)
    xs = [asarr(x) for x in xs]
    sh = xs[0].sh
    for x in xs[1:]:
        if x.ndim != len(sh):
            raise ValueError('stack: shapes differ')
        for a, b in zip(sh, x.sh):
            if not same_dim(a, b):
                raise ValueError('stack: shapes differ')
    dt = xs[0].dt
    for x in xs[1:]:
        dt = result_dt(dt, x.dt)
    axis = axis % (len(sh) + 1)

    def fn(*i):
        k = i[axis]
        rest = i[:axis] + i[axis + 1:]
        vs = None
        if ir.isconst(k):
            return castT(xs[int(k.args[0])].fn(*rest), dt)
        r = castT(xs[-1].fn(*rest), dt)
        for m in range(len(xs) - 2, -1, -1):
            r = ir.ite(ir.eq(k, const(m)), castT(xs[m].fn(*rest), dt), r)
        return r
    return Arr(sh[:axis] + (len(xs),) + sh[axis:], fn, dt)


def concatenate(xs, axis=0):
    if isinstance(xs, SymList):
        return xs.concat(axis)
    xs = [asarr(x) for x in xs]
    nd = xs[0].ndim
    axis = axis % nd
    dt = xs[0].dt
    for x in xs[1:]:
        if x.ndim != nd:
            raise ValueError('concatenate: rank')
        for k in range(nd):
            if k != axis and not same_dim(x.sh[k], xs[0].sh[k]):
                raise ValueError('concatenate: shapes differ')
        dt = result_dt(dt, x.dt)
    offs = [0]
    for x in xs:
        offs.append(dadd(offs[-1], x.sh[axis]))

    def fn(*i):
        k = i[axis]
        r = None
        for m in range(len(xs) - 1, -1, -1):
            kk = k if offs[m] == 0 and isinstance(offs[m], int) else ir.sub(k, dT(offs[m]))
            if r is not None and q(ir.lt(k, dT(offs[m + 1]))) is False:
                continue
            if isinstance(xs[m].sh[axis], int) and xs[m].sh[axis] == 0:
                continue
            if m > 0 and q(ir.le(dT(offs[m]), k)) is False:
                # this piece is never hit
                if r is None:
                    continue
                continue
            v = castT(xs[m].fn(*(i[:axis] + (kk,) + i[axis + 1:])), dt)
            if r is None:
                r = v
            else:
                r = ir.ite(ir.lt(k, dT(offs[m + 1])), v, r)
        return r
    sh = list(xs[0].sh)
    sh[axis] = offs[-1]
    return Arr(sh, fn, dt)


# ---------------------------------------------------------------- shape manipulation
def axes_of(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if not isinstance(axis, (tuple, list)):
        axis = (axis,)
    return tuple(int(x) % a.ndim for x in axis)


def prodd(ds):
    r = 1
    for d in ds:
        r = dmul(r, d)
    return r


def reshape(a, shape):
    shape = tuple(shape)
    if len(shape) == 1 and isinstance(shape[0], (list, tuple)):
        shape = tuple(shape[0])
    sh = []
    unk = None
    for i, s in enumerate(shape):
        d = D(s)
        if isinstance(d, int) and d == -1:
            unk = i
            sh.append(None)
        else:
            sh.append(d)
    tot = prodd(a.sh)
    if unk is not None:
        known = prodd([d for d in sh if d is not None])
        if isinstance(tot, int) and isinstance(known, int):
            sh[unk] = tot // known if known else 0
        else:
            sh[unk] = D(exact_div(dT(tot), dT(known)))
    else:
        if not same_dim(tot, prodd(sh)):
            raise ValueError('cannot reshape %s to %s' % (a.sh, sh))
    src = a.sh
    if len(src) == len(sh) and all(x is y or x == y for x, y in zip(map(dT, src), map(dT, sh))):
        return Arr(sh, a.fn, a.dt)

    def fn(*i):
        # common prefix of equal dimensions is passed through
        p = 0
        while p < len(src) and p < len(sh) and dT(src[p]) is dT(sh[p]):
            p += 1
        # and so is a common suffix
        e = 0
        while e < len(src) - p - 1 and e < len(sh) - p - 1 and dT(src[len(src) - 1 - e]) is dT(sh[len(sh) - 1 - e]):
            e += 1
        s2, o2 = src[p:len(src) - e], sh[p:len(sh) - e]
        tail = i[len(i) - e:] if e else ()
        flat = ZERO
        for d, x in zip(o2, i[p:len(i) - e]):
            flat = ir.add(ir.mul(flat, dT(d)), x)
        res = []
        rem = flat
        for k in range(len(s2)):
            st = prodd(s2[k + 1:])
            if k == len(s2) - 1:
                res.append(rem)
            else:
                qd = simp(ir.idiv(rem, dT(st)))
                res.append(qd)
                rem = simp(ir.sub(rem, ir.mul(qd, dT(st))))
        if not s2 and o2:
            pass
        return a.fn(*i[:p], *res, *tail)
    return Arr(sh, fn, a.dt)


def exact_div(a, b):
    if ir.isconst(b) and b.args[0] == 1:
        return a
    r = simp(ir.idiv(a, b))
    if q(ir.eq(ir.mul(r, b), a)) is True:
        return r
    # assumed exact (the reshape raises otherwise)
    C().asserts.append(('reshape', ir.eq(ir.mul(r, b), a)))
    return r


def transpose(a, axes=None):
    a = asarr(a)
    n = a.ndim
    axes = tuple(range(n))[::-1] if axes is None else tuple(int(x) % n for x in axes)

    def fn(*i):
        src = [None] * n
        for k, ax in enumerate(axes):
            src[ax] = i[k]
        return a.fn(*src)
    return Arr(tuple(a.sh[x] for x in axes), fn, a.dt)


def swapaxes(a, x, y):
    ax = list(range(a.ndim))
    ax[x], ax[y] = ax[y], ax[x]
    return transpose(a, ax)


def moveaxis(a, s, d):
    a = asarr(a)
    ax = list(range(a.ndim))
    s, d = s % a.ndim, d % a.ndim
    ax.remove(s)
    ax.insert(d, s)
    return transpose(a, ax)


def squeeze(a, axis=None):
    a = asarr(a)
    ax = [k for k, d in enumerate(a.sh) if _is1c(d)] if axis is None else axes_of(a, axis)
    keep = [k for k in range(a.ndim) if k not in ax]

    def fn(*i):
        src = [ZERO] * a.ndim
        for k, v in zip(keep, i):
            src[k] = v
        return a.fn(*src)
    return Arr(tuple(a.sh[k] for k in keep), fn, a.dt)


def expand_dims(a, axis):
    a = asarr(a)
    axs = axis if isinstance(axis, (tuple, list)) else (axis,)
    n = a.ndim + len(axs)
    axs = [x % n for x in axs]

    def fn(*i):
        return a.fn(*[v for k, v in enumerate(i) if k not in axs])
    it = iter(a.sh)
    return Arr(tuple(1 if k in axs else next(it) for k in range(n)), fn, a.dt)


def atleast_nd(a, n):
    a = asarr(a)
    while a.ndim < n:
        a = expand_dims(a, 0)
    return a


def flip(a, axis=None):
    a = asarr(a)
    ax = axes_of(a, axis)
    return Arr(a.sh, lambda *i: a.fn(*[ir.sub(ir.sub(dT(a.sh[k]), ONE), v) if k in ax else v for k, v in enumerate(i)]), a.dt)


def repeat(a, n, axis=None):
    a = asarr(a)
    if axis is None:
        a = reshape(a, (-1,))
        axis = 0
    axis = axis % a.ndim
    n = D(n)
    sh = list(a.sh)
    sh[axis] = dmul(sh[axis], n)

    def fn(*i):
        k = i[axis]
        kk = ZERO if _is1c(a.sh[axis]) else ir.idiv(k, dT(n))
        return a.fn(*i[:axis], kk, *i[axis + 1:])
    return Arr(sh, fn, a.dt)


def tile(a, reps):
    a = asarr(a)
    reps = shape_arg(reps)
    n = max(len(reps), a.ndim)
    a = atleast_nd(a, n)
    reps = (1,) * (n - len(reps)) + tuple(reps)
    return Arr(tuple(dmul(d, r) for d, r in zip(a.sh, reps)),
               lambda *i: a.fn(*[v if _is1c(r) else (ZERO if _is1c(d) else ir.imod(v, dT(d))) for v, d, r in zip(i, a.sh, reps)]), a.dt)


def take(a, i, axis=None):
    a = asarr(a)
    if axis is None:
        a = reshape(a, (-1,))
        axis = 0
    axis %= a.ndim
    return a[(slice(None),) * axis + (asarr(i),)]


def roll(a, k, axis=None):
    a = asarr(a)
    if axis is None:
        if a.ndim != 1:
            return reshape(roll(reshape(a, (-1,)), k), a.sh)
        axis = 0
    if not isinstance(axis, int) or asarr(k).ndim:
        raise Unsupported('roll over several axes')
    kT = asarr(k).term()
    return Arr(a.sh, lambda *i: a.fn(*[ir.imod(ir.sub(v, kT), dT(a.sh[m])) if m == axis % a.ndim else v for m, v in enumerate(i)]), a.dt)


# ---------------------------------------------------------------- reductions
def _reduce(a, axis, one, dt, keepdims=False):
    a = asarr(a)
    ax = axes_of(a, axis)
    for k in sorted(ax, reverse=True):
        a = one(a, k)
    if keepdims:
        a = expand_dims(a, tuple(sorted(ax)))
    return a


def reduce_sum(a, axis=None, keepdims=False):
    def one(a, k):
        n = a.sh[k]
        dt = 'i' if a.dt == 'b' else a.dt

        def fn(*i):
            g = lambda v: num(a.fn(*i[:k], v, *i[k:]))
            if isinstance(n, int) and n <= UNROLL:
                r = const(0, SORT[dt])
                for m in range(n):
                    r = g(const(m)) if m == 0 else ir.add(r, g(const(m)))
                return r
            v = C().gen('s', ZERO, dT(n))
            return ir.sum_(v, dT(n), g(v))
        return Arr(a.sh[:k] + a.sh[k + 1:], fn, dt)
    return _reduce(a, axis, one, None, keepdims)


def mean(a, axis=None, keepdims=False):
    a = asarr(a)
    n = prodd([a.sh[k] for k in axes_of(a, axis)])
    s = reduce_sum(a, axis, keepdims)
    return s / asarr(n if isinstance(n, int) else n).astype('f')


def reduce_all(a, axis=None, keepdims=False):
    a = asarr(a).astype('b')

    def one(a, k):
        n = a.sh[k]

        def fn(*i):
            g = lambda v: a.fn(*i[:k], v, *i[k:])
            if isinstance(n, int) and n <= UNROLL:
                return ir.and_(*[g(const(m)) for m in range(n)])
            v = C().gen('q', ZERO, dT(n))
            return ir.all_(v, dT(n), g(v))
        return Arr(a.sh[:k] + a.sh[k + 1:], fn, 'b')
    return _reduce(a, axis, one, None, keepdims)


def reduce_prod(a, axis=None, keepdims=False):
    a = asarr(a)
    a = a.astype('i') if a.dt == 'b' else a

    def one(a, k):
        n = a.sh[k]
        if not (isinstance(n, int) and n <= UNROLL):
            raise Unsupported('product over a symbolic dimension')

        def fn(*i):
            r = const(1, SORT[a.dt])
            for m in range(n):
                r = ir.mul(r, a.fn(*i[:k], const(m), *i[k:]))
            return r
        return Arr(a.sh[:k] + a.sh[k + 1:], fn, a.dt)
    return _reduce(a, axis, one, None, keepdims)


def reduce_minmax(a, axis, which, keepdims=False):
    def one(a, k):
        n = a.sh[k]

        def fn(*i):
            if isinstance(n, int) and n <= UNROLL:
                r = a.fn(*i[:k], ZERO, *i[k:])
                for m in range(1, n):
                    r = ir.fn(which, r, a.fn(*i[:k], const(m), *i[k:]))
                return r
            v = C().gen('m', ZERO, dT(n))
            return ir.app('red' + which, SORT[a.dt], ir.lam((v,), (dT(n),), a.fn(*i[:k], v, *i[k:])))
        return Arr(a.sh[:k] + a.sh[k + 1:], fn, a.dt)
    return _reduce(a, axis, one, None, keepdims)


# the library's reductions with all their options
def _dtype(r, dtype):
    return r if dtype is None else r.astype(asdtype(dtype))


def _noout(out):
    if out is not None:
        raise Unsupported('out argument')


def red_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, promote_integers=True):
    _noout(out)
    a = _dtype(asarr(a), dtype)
    if where is not None:
        a = globals()['where'](where, a, 0.0 if a.dt == 'f' else 0)
    r = reduce_sum(a, axis, keepdims)
    return r if initial is None else r + initial


def red_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None):
    _noout(out)
    a = asarr(a)
    if where is None:
        return _dtype(mean(a, axis, keepdims), dtype)
    w = broadcast_to(asarr(where), a.sh)
    n = reduce_sum(w.astype('b').astype('i'), axis, keepdims)
    return _dtype(red_sum(a, axis, keepdims=keepdims, where=where) / n.astype('f'), dtype)


def red_prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, promote_integers=True):
    _noout(out)
    a = asarr(a)
    if where is not None:
        a = globals()['where'](where, a, 1.0 if a.dt == 'f' else 1)
    r = reduce_prod(a, axis, keepdims)
    return _dtype(r if initial is None else r * initial, dtype)


def red_all(a, axis=None, out=None, keepdims=False, where=None):
    _noout(out)
    a = asarr(a).astype('b')
    return reduce_all(a if where is None else a | ~asarr(where), axis, keepdims)


def red_any(a, axis=None, out=None, keepdims=False, where=None):
    _noout(out)
    a = asarr(a).astype('b')
    return ~reduce_all(~(a if where is None else a & asarr(where)), axis, keepdims)


def _ext(which):
    def f(a, axis=None, out=None, keepdims=False, initial=None, where=None):
        _noout(out)
        a = asarr(a)
        if where is not None:
            if initial is None:
                raise ValueError('max/min: where needs initial')
            a = globals()['where'](where, a, initial)
        r = reduce_minmax(a, axis, which, keepdims)
        return r if initial is None else binop(lambda x, y: ir.fn(which, x, y), r, asarr(initial))
    return f


red_max, red_min = _ext('max'), _ext('min')


def argext(a, which, axis=None, out=None, keepdims=None):
    _noout(out)
    a = asarr(a)
    if axis is None:
        if a.ndim != 1:
            if keepdims:
                raise Unsupported('argmax of a flattened array with keepdims')
            a = reshape(a, (-1,))
        k = 0
    else:
        k = axis % a.ndim
    n = dT(a.sh[k])

    def fn(*i):
        v = C().gen('m', ZERO, n)
        return ir.app(which, 'I', ir.lam((v,), (n,), num(a.fn(*i[:k], v, *i[k:]))))
    r = Arr(a.sh[:k] + a.sh[k + 1:], fn, 'i')
    return expand_dims(r, k) if keepdims else r


def variance(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=None):
    _noout(out)
    if where is not None:
        raise Unsupported('variance with where')
    a = asarr(a)
    d = a - mean(a, axis, True)
    n = prodd([a.sh[k] for k in axes_of(a, axis)])
    return reduce_sum(d * d, axis, keepdims) / (asarr(n).astype('f') - ddof)


def cumsum(a, axis=None):
    a = asarr(a)
    if axis is None:
        a = reshape(a, (-1,))
        axis = 0
    axis %= a.ndim

    def fn(*i):
        v = C().gen('s', ZERO, ir.add(i[axis], ONE))
        return ir.sum_(v, ir.add(i[axis], ONE), num(a.fn(*i[:axis], v, *i[axis + 1:])))
    return Arr(a.sh, fn, 'i' if a.dt == 'b' else a.dt)


def dot(a, b, matmul=False):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        if matmul:
            raise ValueError('matmul of scalar')
        return a * b
    if a.ndim > 2 or b.ndim > 2:
        if not matmul:
            raise Unsupported('dot of rank > 2')
        return batched_matmul(a, b)
    n, m = a.sh[-1], b.sh[0]
    if not same_dim(n, m):
        raise ValueError('dot: shapes %s %s' % (a.sh, b.sh))

    def fn(*i):
        ia = i[:a.ndim - 1]
        ib = i[a.ndim - 1:]
        g = lambda v: ir.mul(num(a.fn(*ia, v)), num(b.fn(v, *ib)))
        if isinstance(n, int) and n <= UNROLL:
            r = g(ZERO)
            for k in range(1, n):
                r = ir.add(r, g(const(k)))
            return r
        v = C().gen('s', ZERO, dT(n))
        return ir.sum_(v, dT(n), g(v))
    return Arr(a.sh[:-1] + b.sh[1:], fn, result_dt(a.dt, b.dt))


def batched_matmul(a, b):
    va, vb = a.ndim == 1, b.ndim == 1
    a2 = expand_dims(a, 0) if va else a
    b2 = expand_dims(b, -1) if vb else b
    sh = broadcast_shapes(a2.sh[:-2], b2.sh[:-2])
    a3, b3 = broadcast_to(a2, sh + a2.sh[-2:]), broadcast_to(b2, sh + b2.sh[-2:])
    n = a3.sh[-1]
    if not same_dim(n, b3.sh[-2]):
        raise ValueError('matmul: shapes %s %s' % (a.sh, b.sh))

    def fn(*i):
        g = lambda v: ir.mul(num(a3.fn(*i[:-1], v)), num(b3.fn(*i[:-2], v, i[-1])))
        if isinstance(n, int) and n <= UNROLL:
            r = g(ZERO)
            for k in range(1, n):
                r = ir.add(r, g(const(k)))
            return r
        v = C().gen('s', ZERO, dT(n))
        return ir.sum_(v, dT(n), g(v))
    r = Arr(tuple(sh) + (a3.sh[-2], b3.sh[-1]), fn, result_dt(a.dt, b.dt))
    if va:
        r = squeeze(r, r.ndim - 2)
    return squeeze(r, r.ndim - 1) if vb else r


def diag(a, k=0):
    a = asarr(a)
    if k != 0:
        raise Unsupported('off-diagonal')
    if a.ndim > 2:
        raise Unsupported('diag rank')
    if a.ndim == 1:
        return Arr((a.sh[0], a.sh[0]), lambda i, j: ir.ite(ir.eq(i, j), a.fn(i), const(0, SORT[a.dt])), a.dt)
    n, m = a.sh
    if not same_dim(n, m) and not q_le(n, m):
        n = m
    return Arr((n,), lambda i: a.fn(i, i), a.dt)


def q_le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return C().decide(ir.le(dT(a), dT(b)))


def trace(a):
    return reduce_sum(diag(a))


def clip(a, lo=None, hi=None, **kw):
    a = asarr(a)
    lo = kw.get('min', kw.get('a_min', lo))
    hi = kw.get('max', kw.get('a_max', hi))
    if lo is not None:
        a = binop(lambda x, y: ir.fn('max', x, y), a, asarr(lo))
    if hi is not None:
        a = binop(lambda x, y: ir.fn('min', x, y), a, asarr(hi))
    return a


# ---------------------------------------------------------------- symbolic python lists
class SymList:
    """A python list with segments; each segment is a concrete element or (n, elem(k)) repeated."""

    def __init__(self, segs=()):
        self.segs = list(segs)

    @staticmethod
    def of(x):
        if isinstance(x, SymList):
            return x
        return SymList([('one', e) for e in x])

    @staticmethod
    def repeat(x, n):
        x = SymList.of(x)
        return SymList([('rep', D(n), lambda k, x=x: SymList(x.segs))])

    def append(self, x):
        self.segs.append(('one', x))

    def extend(self, x):
        self.segs.extend(SymList.of(x).segs)

    def __add__(self, o):
        return SymList(self.segs + SymList.of(o).segs)

    def __radd__(self, o):
        return SymList(SymList.of(o).segs + self.segs)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def copy(self):
        return SymList(self.segs)

    def __iter__(self):
        for s in self.segs:
            if s[0] == 'one':
                yield s[1]
            else:
                raise Unsupported('iteration over a list of symbolic length')

    def __len__(self):
        if all(s[0] == 'one' for s in self.segs):
            return len(self.segs)
        raise Unsupported('len of symbolic list')

    def __getitem__(self, k):
        if isinstance(k, int) and all(s[0] == 'one' for s in self.segs):
            return self.segs[k][1]
        if isinstance(k, int) and k == 0 and self.segs and self.segs[0][0] == 'one':
            return self.segs[0][1]
        if isinstance(k, int) and k == -1 and self.segs and self.segs[-1][0] == 'one':
            return self.segs[-1][1]
        if isinstance(k, (int, Arr)) and not isinstance(k, bool) and len(self.segs) == 1 and self.segs[0][0] == 'rep':
            n, f = self.elem_single()
            t = const(k) if isinstance(k, int) else k.term()
            if ir.isconst(t) and t.args[0] < 0 or not ir.isconst(t) and q(ir.le(ZERO, t)) is not True:
                t = simp(ir.ite(ir.lt(t, ZERO), ir.add(dT(n), t), t))
            if q(ir.and_(ir.le(ZERO, t), ir.lt(t, dT(n)))) is not True:
                raise Unsupported('list index not known to be in range')
            return f(t)
        raise Unsupported('index of symbolic list')

    def sym_len(self):
        n = 0
        for s in self.segs:
            if s[0] == 'one':
                n = dadd(n, 1)
            else:
                sub = s[2](ZERO)
                n = dadd(n, dmul(s[1], D(sub.sym_len()) if isinstance(sub, SymList) else 1))
        return wrapdim(n)

    def elem_single(self):
        """(n, fn(k)->Arr) when the list is one repeated segment of single elements"""
        segs = [s for s in self.segs]
        if len(segs) == 1 and segs[0][0] == 'rep':
            n, f = segs[0][1], segs[0][2]

            def g(k):
                x = f(k)
                if isinstance(x, SymList):
                    if len(x.segs) != 1 or x.segs[0][0] != 'one':
                        raise Unsupported('nested symbolic list')
                    return x.segs[0][1]
                return x
            return n, g
        raise Unsupported('symbolic list shape')

    def stack(self, axis=0):
        n, f = self.elem_single()
        k = C().gen('k', ZERO, dT(n))
        e = asarr(f(k))
        if axis % (e.ndim + 1) != 0:
            raise Unsupported('stack axis')
        return Arr((n,) + tuple(e.sh), lambda i0, *i: ir.subst(e.fn(*i), {k: i0}), e.dt)

    def concat(self, axis=0):
        n, f = self.elem_single()
        k = C().gen('k', ZERO, dT(n))
        e = asarr(f(k))
        axis %= e.ndim
        L = dT(e.sh[axis])
        first = simp(ir.subst(L, {k: ZERO}))
        C().ranges[k] = (ZERO, dT(n))
        # all pieces but the last have length `first`
        from . import prove
        k2 = C().gen('k', ZERO, ir.sub(dT(n), ONE))
        L2 = ir.subst(L, {k: k2})
        if not prove.prove(ir.eq(L2, first), budget=6):
            raise Unsupported('concatenation of pieces of unequal symbolic lengths')
        last = simp(ir.subst(L, {k: ir.sub(dT(n), ONE)}))
        tot = D(ir.add(ir.mul(ir.sub(dT(n), ONE), first), last))
        sh = list(e.sh)
        sh[axis] = tot

        def fn(*i):
            r = i[axis]
            kk = ir.idiv(r, first)
            o = ir.imod(r, first)
            # the last piece may be longer than the others
            if q(ir.le(last, first)) is not True:
                kk = ir.fn('min', kk, ir.sub(dT(n), ONE))
                o = ir.sub(r, ir.mul(kk, first))
            return ir.subst(e.fn(*(i[:axis] + (o,) + i[axis + 1:])), {k: kk})
        return Arr(sh, fn, e.dt)


class SymRange:
    def __init__(self, a, b, step):
        self.a, self.b, self.step = a, b, step

    def n(self):
        if self.step is ONE:
            n = simp(ir.sub(self.b, self.a))
        else:
            n = simp(ir.neg(ir.idiv(ir.sub(self.a, self.b), self.step)))
        if q(ir.le(ZERO, n)) is not True:
            if C().decide(ir.le(ZERO, n)) is False:
                n = ZERO
        return D(n)

    def elem(self, k):
        return asarr(simp(ir.add(self.a, ir.mul(self.step, k))))

    def __iter__(self):
        raise Unsupported('iteration over a symbolic range outside the hook')
