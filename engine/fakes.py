"""Stand-in modules: the assumed contracts on jax, equinox, optax, diffrax, numpy, ..."""
import builtins
import functools
import math as _math
import types
import typing
from fractions import Fraction
from . import ir, arr, tree
from .ir import T, const, TRUE, FALSE, ZERO, ONE
from .arr import Arr, asarr, D, dT, SymList, SymRange, q, DType, asdtype, Unsupported
from .tree import UNDEF, Partial, flatten, tmap, merge_outs, ite_tree
from .fakes_eqx import Module, _Sub
from . import ctx as _ctx


def C():
    return _ctx.C


class FakeModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        full = self.__name__ + '.' + k

        def missing(*a, **kw):
            raise Unsupported('no contract for ' + full)
        missing._missing = full
        return missing


def mod(name, **kw):
    m = FakeModule(name)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


# ================================================================ vmap / scan / loops
def _leafnum(x):
    return isinstance(x, (Arr, int, float, SymList)) and not isinstance(x, str)


def axes_tree(ax, x, filt):
    """expand an axes prefix to a list aligned with flatten(x) leaves"""
    leaves, _ = flatten(x)
    if ax is None or isinstance(ax, int) or callable(ax):
        return [ax] * len(leaves)
    ch = tree.children(ax)
    cx = tree.children(x)
    if ch is None or cx is None or len(ch[0]) != len(cx[0]):
        raise ValueError('vmap in_axes does not match the argument structure')
    out = []
    for a, y in zip(ch[0], cx[0]):
        out += axes_tree(a, y, filt)
    return out


def make_vmap(filt):
    def vmap(fun=None, in_axes=0, out_axes=0, **kw):
        if fun is None:
            return lambda f: vmap(f, in_axes, out_axes, **kw)
        if filt and in_axes == 0 and not isinstance(in_axes, tuple):
            in_axes = 'array'

        def mapped(*args):
            axes = in_axes
            if isinstance(axes, list):
                axes = tuple(axes)
            if axes == 'array':
                axl = []
                for x in flatten(args)[0]:
                    axl.append(0 if isinstance(x, Arr) else None)
            else:
                if isinstance(axes, tuple) and len(axes) != len(args):
                    raise ValueError('vmap in_axes must match the number of arguments')
                axl = axes_tree(axes if not isinstance(axes, tuple) else tuple(axes), args, filt)
            leaves, rb = flatten(args)
            n = None
            for x, a in zip(leaves, axl):
                if a is None:
                    continue
                if not isinstance(x, Arr):
                    if filt:
                        continue
                    x = asarr(x)
                if x.ndim == 0:
                    raise ValueError('vmap over a scalar')
                d = x.sh[a]
                if n is None:
                    n = d
                elif not arr.same_dim(n, d):
                    raise ValueError('vmap got inconsistent sizes')
            if n is None:
                n = kw.get('axis_size')
                if n is None:
                    raise ValueError('vmap must have at least one non-None value in in_axes')
                n = D(n)
            c = C()
            b = c.gen('v', ZERO, dT(n))

            def sl(x, a):
                if a is None or (filt and not isinstance(x, Arr)):
                    return x
                x = asarr(x)
                a = a % x.ndim
                return Arr(x.sh[:a] + x.sh[a + 1:], lambda *i: x.fn(*i[:a], b, *i[a:]), x.dt)
            inner = rb([sl(x, a) for x, a in zip(leaves, axl)])
            c.gens.append(b)
            try:
                out = _ctx.merged([b], lambda: fun(*inner), merge_outs)
            finally:
                c.gens.pop()
            ol, orb = flatten(out)
            oax = out_axes if isinstance(out_axes, int) else 0
            if not isinstance(out_axes, int):
                oaxl = axes_tree(out_axes, out, filt)
            else:
                oaxl = [oax] * len(ol)

            def up(x, a):
                if not isinstance(x, Arr):
                    if filt and not isinstance(x, (int, float)):
                        return x
                    if filt:
                        return x
                    x = asarr(x)
                if a is None:
                    return x
                r = Arr((n,) + tuple(x.sh), lambda i0, *i: subst1(x, i, b, i0), x.dt)
                return r if a == 0 else arr.moveaxis(r, 0, a)
            return orb([up(x, a) for x, a in zip(ol, oaxl)])
        return mapped
    return vmap


def subst1(x, i, b, i0):
    """element i of x with generic variable b replaced by i0 (capture-free)"""
    if i0 is b:
        return x.fn(*i)
    if any(b in k.fv for k in i):
        fs = tuple(ir.fresh('f') for _ in i)
        for f, k in zip(fs, i):
            pass
        return ir.subst(x.fn(*fs), dict(list(zip(fs, i)) + [(b, i0)]))
    return ir.subst(x.fn(*i), {b: i0})


vmap = make_vmap(False)
filter_vmap = make_vmap(True)


def seq_term(sym, sort, t, idx, gens):
    return ir.app(sym, sort, t, *idx, *gens)


class Rec:
    """Symbolic recurrence over carried leaves."""

    def __init__(self, kind, n):
        c = C()
        self.kind = kind
        self.n = n
        self.name = c.name(kind)
        self.gens = tuple(c.gens)
        self.j = c.gen('j', ZERO, dT(n))
        self.sd = _ctx.ScanDef(self.name, dT(n), self.gens, self.j)
        c.scan_list.append(self.sd)

    def run(self, init_leaves, body, labels=None):
        """init_leaves: list of Arr; body(list of Arr at j) -> (new leaves, extra)"""
        c = C()
        known = {}
        nl = len(init_leaves)
        inits = [asarr(x) for x in init_leaves]
        dts = [x.dt for x in inits]
        labels = labels or [str(k) for k in range(nl)]
        for rnd in range(6):
            cnt0 = dict(c.counter)
            dc0 = dict(c.drawcount)
            sc0 = dict(c.scans)
            sl0 = list(c.scan_list)
            carry = []
            for k, x in enumerate(inits):
                if k in known:
                    kf = known[k]
                    carry.append(Arr(x.sh, lambda *i, kf=kf: kf(self.j, i), dts[k]))
                else:
                    sym = self.name + '.' + labels[k]
                    carry.append(Arr(x.sh, lambda *i, sym=sym, k=k: seq_term(sym, arr.SORT[dts[k]], self.j, i, self.gens), dts[k]))
            c.gens.append(self.j)
            try:
                new, extra = _ctx.merged([self.j], lambda: body(carry), merge_outs)
            finally:
                c.gens.pop()
            new = [asarr(x) for x in new]
            changed = False
            for k in range(nl):
                if new[k].ndim != inits[k].ndim:
                    raise TypeError('scan carry changed rank')
                for d, e in zip(new[k].sh, inits[k].sh):
                    if not arr.same_dim(d, e):
                        raise TypeError('scan carry changed shape')
                if k in known:
                    continue
                r = arr.result_dt(new[k].dt, dts[k])
                if r != dts[k]:
                    dts[k] = r
                    changed = True
                    continue
                ii = tuple(ir.fresh('f') for _ in inits[k].sh)
                for v, d in zip(ii, inits[k].sh):
                    c.ranges[v] = (ZERO, dT(d))
                a, b = new[k].fn(*ii), carry[k].fn(*ii)
                if a is b:
                    known[k] = lambda t, i, x=inits[k]: x.fn(*i)
                    changed = True
                    continue
                if inits[k].ndim == 0 and a.sort == 'I' and b.sort == 'I':
                    d = arr.simp(ir.sub(a, b))
                    if ir.isconst(d):
                        known[k] = lambda t, i, x=inits[k], d=d: ir.add(x.fn(), ir.mul(d, t))
                        changed = True
                if c.accsum and k not in known and dts[k] == 'f':
                    # carry + something not depending on the carry: a sum over the passes so far
                    d = prove_canon(ir.sub(a, b))
                    own = self.name + '.' + labels[k]
                    if not any(u.op == 'app' and u.args[0] == own for u in ir.subterms(d, set(), into_binders=True)):
                        known[k] = lambda t, i, x=inits[k], d=d, ii=ii: acc_sum(x, ii, d, self.j, t, i)
                        changed = True
            if not changed:
                break
            # run again with the simplified carry
            c.counter = cnt0
            c.drawcount = dc0
            c.scans = sc0
            c.scan_list = sl0
        for k in range(nl):
            if k not in known:
                sym = self.name + '.' + labels[k]
                s = arr.SORT[dts[k]]
                self.sd.add(sym, inits[k].ndim,
                            lambda *i, k=k: arr.castT(inits[k].fn(*i), dts[k]),
                            lambda *i, k=k: arr.castT(new[k].fn(*i), dts[k]))
                c.scans[sym] = self.sd
        self.known = known
        self.inits = inits
        self.new = new
        self.dts = dts
        self.labels = labels

        def at(t):
            out = []
            for k, x in enumerate(inits):
                if k in known:
                    out.append(Arr(x.sh, lambda *i, kf=known[k], t=t: kf(t, i), dts[k]))
                else:
                    sym = self.name + '.' + labels[k]
                    out.append(Arr(x.sh, lambda *i, sym=sym, k=k, t=t: seq_term(sym, arr.SORT[dts[k]], t, i, self.gens), dts[k]))
            return out
        return at, extra


def prove_canon(t):
    from . import prove
    return prove.Prover([]).norm([]).canon(t)


def acc_sum(x, ii, d, j, t, i):
    v = ir.fresh('s')
    C().ranges[v] = (ZERO, t)
    return ir.add(arr.num(x.fn(*i)), ir.sum_(v, t, ir.subst(d, dict(list(zip(ii, i)) + [(j, v)]))))


def tracerize(x):
    return asarr(x) if isinstance(x, (int, float)) else x


def scan(f, init, xs=None, length=None, reverse=False, unroll=1, **kw):
    il, irb = flatten(init)
    xl, xrb = flatten(xs)
    n = None
    for x in xl:
        d = asarr(x).sh[0]
        if n is None:
            n = d
        elif not arr.same_dim(n, d):
            raise ValueError('scan got values with different leading axis sizes')
    if length is not None:
        ln = D(length)
        if n is None:
            n = ln
        elif not arr.same_dim(n, ln):
            raise ValueError('scan length mismatch')
    if n is None:
        raise ValueError('scan needs xs or length')
    xl = [asarr(x) for x in xl]

    def xat(t):
        if xs is None:
            return None
        return xrb([Arr(x.sh[1:], lambda *i, x=x: x.fn(t, *i), x.dt) for x in xl])
    il = [tracerize(x) for x in il]
    isarr = [isinstance(x, Arr) for x in il]
    if isinstance(n, int) and n <= arr.UNROLL:
        carry = irb(il)
        ys = [None] * n
        for k in (range(n - 1, -1, -1) if reverse else range(n)):
            carry, y = f(carry, xat(const(k)))
            cl, crb = flatten(carry)
            if len(cl) != len(il):
                raise TypeError('scan carry structure changed')
            carry = crb([tracerize(x) for x in cl])
            ys[k] = y
        if n == 0:
            return carry, None
        yl = [flatten(y)[0] for y in ys]
        yrb = flatten(ys[0])[1]
        return carry, yrb([arr.stack([asarr(yl[k][m]) for k in range(n)]) for m in range(len(yl[0]))])
    rec = Rec('scan', n)
    statics = [x for x, a in zip(il, isarr) if not a]
    box = {}

    def body(cl):
        it = iter(cl)
        st = iter(statics)
        carry = irb([next(it) if a else next(st) for a in isarr])
        t = ir.sub(ir.sub(dT(n), ONE), rec.j) if reverse else rec.j
        c2, y = f(carry, xat(t))
        nl, nrb = flatten(c2)
        if len(nl) != len(il):
            raise TypeError('scan body output must have the same structure as the carry')
        new, nst = [], []
        for a, x, o in zip(isarr, nl, il):
            if a:
                new.append(asarr(x))
            else:
                if not tree.same_static(x, o):
                    raise Unsupported('static carry changed')
        box['nrb'] = nrb
        yl, yrb = flatten(y)
        box['yrb'] = yrb
        return new, [asarr(v) for v in yl]
    at, yl = rec.run([x for x, a in zip(il, isarr) if a], body)
    fin = at(dT(n))
    it = iter(fin)
    st = iter(statics)
    carry = box['nrb']([next(it) if a else next(st) for a in isarr])
    j = rec.j
    rec.sd.info['ys'] = yl
    rec.sd.info['at'] = at
    rec.sd.info['rec'] = rec

    def yarr(y):
        def fn(t, *i):
            tt = ir.sub(ir.sub(dT(n), ONE), t) if reverse else t
            return subst1(y, i, j, tt)
        return Arr((n,) + tuple(y.sh), fn, y.dt)
    ys = box['yrb']([yarr(y) for y in yl])
    return carry, ys


def fori_loop(lo, hi, body, init, **kw):
    lo, hi = asarr(lo), asarr(hi)
    n = D(hi - lo)
    r, _ = scan(lambda c, i: (body(asarr(i) + lo, c), None), init, arr.arange(n))
    return r


def lax_map(f, xs, **kw):
    return vmap(f)(xs)


def cond(pred, true_fun=None, false_fun=None, *ops, **kw):
    if 'operand' in kw:
        ops = (kw['operand'],)
    p = arr.castT(asarr(pred).term(), 'b')
    e = q(p) if not any(b.op == 'bv' for b in p.fv) else None
    if e is True:
        return true_fun(*ops)
    if e is False:
        return false_fun(*ops)
    a, b = true_fun(*ops), false_fun(*ops)
    return ite_tree(p, a, b)


def switch(i, branches, *ops):
    i = asarr(i).term()
    outs = [b(*ops) for b in branches]
    r = outs[-1]
    for k in range(len(outs) - 2, -1, -1):
        r = ite_tree(ir.le(i, const(k)), outs[k], r)
    return r


# python level loops -------------------------------------------------------------
class SymIter:
    def __init__(self, n, elem):
        self.n = n
        self.elem = elem


def as_symiter(it):
    """None when `it` is an ordinary python iterable"""
    if isinstance(it, SymIter):
        return it
    if isinstance(it, tqdm):
        return as_symiter(it.it)
    if isinstance(it, SymRange):
        n = it.n()
        return SymIter(n, it.elem)
    if isinstance(it, Arr):
        if it.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        d = it.sh[0]
        if isinstance(d, int):
            return None
        return SymIter(d, lambda k: Arr(it.sh[1:], lambda *i: it.fn(k, *i), it.dt))
    if isinstance(it, SymList):
        if all(s[0] == 'one' for s in it.segs):
            return None
        n, f = it.elem_single()
        return SymIter(n, f)
    return None


class Collector:
    """stands for a list that the loop body only extends"""

    def __init__(self, base):
        self.base = base
        self.items = []

    def append(self, x):
        self.items.append(x)

    def extend(self, xs):
        if isinstance(xs, SymList) and not all(s[0] == 'one' for s in xs.segs):
            raise Unsupported('extend by a list of symbolic length')
        self.items.extend(xs)

    def _no(self, *a, **k):
        raise Unsupported('list read in the symbolic loop that extends it')
    __len__ = __iter__ = __getitem__ = __contains__ = __add__ = __iadd__ = __bool__ = _no


def loop_iter(it):
    s = as_symiter(it)
    if s is None:
        if isinstance(it, tqdm):
            return False, it.it
        return False, it
    if isinstance(s.n, int) and s.n <= arr.UNROLL:
        return False, [s.elem(const(k)) for k in range(s.n)]
    return True, s


def run_loop(s, body, names, vals, lists, attrs):
    """Generic python `for` loop.

    names/vals: names assigned in the body with their current values (UNDEF when unbound);
    lists: subset of names used as append/extend collectors; attrs: [(obj, attr)]."""
    n = s.n
    rec = Rec('loop', n)
    cur = dict(zip(names, vals))
    avals = [getattr(o, a, UNDEF) for o, a in attrs]
    carried = [k for k in names if k not in lists]
    tree0 = [cur[k] for k in carried] + avals
    il, irb = flatten(tree0)
    isarr = [isinstance(x, (Arr, int, float)) and not isinstance(x, bool) or isinstance(x, bool) for x in il]
    il = [asarr(x) if a else x for x, a in zip(il, isarr)]
    statics = [x for x, a in zip(il, isarr) if not a]
    box = {}

    def one(cl):
        it = iter(cl)
        st = iter(statics)
        tv = irb([next(it) if a else next(st) for a in isarr])
        cv = dict(zip(carried, tv[:len(carried)]))
        for (o, a), v in zip(attrs, tv[len(carried):]):
            if v is not UNDEF:
                setattr(o, a, v)
        cols = {k: Collector(cur[k]) for k in lists}
        args = [cols[k] if k in cols else cv[k] for k in names]
        try:
            out = body(s.elem(rec.j), *args)
            aout = [getattr(o, a, UNDEF) for o, a in attrs]
        finally:
            for (o, a), v in zip(attrs, avals):
                if v is not UNDEF:
                    setattr(o, a, v)
        ov = dict(zip(names, out))
        for k in lists:
            if not isinstance(ov[k], Collector):
                raise Unsupported('list rebound in a symbolic loop')
        return [ov[k] for k in carried] + aout, {k: list(ov[k].items) for k in lists}

    # structure discovery: names unbound before the loop
    def body2(cl):
        tv, cols = one(cl)
        new = []
        late = []
        for k, (v0, v1) in enumerate(zip(tree0, tv)):
            if v0 is UNDEF:
                late.append(v1)
                new += [] if not isarr_of(tree0, k) else []
                continue
            l0, _ = flatten(v0)
            l1, r1 = flatten(v1)
            if len(l0) != len(l1):
                raise Unsupported('loop-carried value changes structure')
            for a, b in zip(l0, l1):
                if isinstance(a, (Arr, int, float)):
                    if not isinstance(b, (Arr, int, float)):
                        raise Unsupported('loop-carried value changes type')
                    new.append(asarr(b))
                elif not tree.same_static(a, b):
                    raise Unsupported('loop-carried static value changes')
        return new, (late, cols)

    def isarr_of(t, k):
        return True
    labels = []
    for nme, v in zip(carried + ['@' + a for _, a in attrs], tree0):
        if v is UNDEF:
            continue
        ls = [x for x in flatten(v)[0] if isinstance(x, (Arr, int, float))]
        labels += [nme if len(ls) == 1 else '%s.%d' % (nme, i) for i in range(len(ls))]
    at, (late, cols) = rec.run([x for x, a in zip(il, isarr) if a], body2, labels)
    fin = iter(at(dT(n)))
    st = iter(statics)
    tv = irb([next(fin) if a else next(st) for a in isarr])
    rec.sd.info['at'] = at
    rec.sd.info['rec'] = rec
    last = ir.sub(dT(n), ONE)
    j = rec.j

    def atlast(v):
        return tmap(lambda x: Arr(x.sh, lambda *i: subst1(x, i, j, last), x.dt) if isinstance(x, Arr) else x, v)
    li = iter(late)
    res = {}
    for k, v0, v1 in zip(carried, tree0, tv):
        res[k] = atlast(next(li)) if v0 is UNDEF else v1
    for (o, a), v0, v1 in zip(attrs, tree0[len(carried):], tv[len(carried):]):
        if v0 is UNDEF:
            setattr(o, a, atlast(next(li)))
        else:
            setattr(o, a, v1)
    for k in lists:
        items = cols[k]

        def seg(t, items=items):
            # shapes may depend on the iteration too
            def leaf(x):
                if isinstance(x, Arr):
                    return Arr(tuple(D(ir.subst(d, {j: t})) if isinstance(d, T) else d for d in x.sh),
                               lambda *i: subst1(x, i, j, t), x.dt)
                return x

            def sub2(x):
                return leaf(x) if isinstance(x, Arr) else tmap(leaf, x)
            return SymList([('one', sub2(x)) for x in items])
        base = cur[k]
        sl = SymList.of(base if base is not UNDEF else [])
        sl = SymList(list(sl.segs) + [('rep', n, seg)])
        res[k] = sl
    return [res[k] for k in names]


def list_comp(it, f):
    sym, s = loop_iter(it)
    if not sym:
        return [f(x) for x in s]
    rec_j = C().gen('j', ZERO, dT(s.n))
    return SymList([('rep', s.n, lambda t: SymList([('one', f(s.elem(t)))]))])


def unpack(e, pattern):
    """the leaves of e in the order of a (nested) tuple of names"""
    if pattern is None:
        return [e]
    es = builtins.list(e)
    if len(es) != len(pattern):
        raise ValueError('unpacking %d values into %d names' % (len(es), len(pattern)))
    return [x for y, p in builtins.zip(es, pattern) for x in unpack(y, p)]


def gen_comp(it, f):
    sym, s = loop_iter(it)
    if not sym:
        return (f(x) for x in s)
    return SymList([('rep', s.n, lambda t: SymList([('one', f(s.elem(t)))]))])


def while_end(a, hi, c):
    if not isinstance(a, Arr) and not isinstance(hi, Arr):
        return a + c * builtins.max(0, -((a - hi) // c))
    a, hi = asarr(a).term(), asarr(hi).term()
    if 'R' in (a.sort, hi.sort):
        raise Unsupported('while loop over floats')
    n = ir.neg(ir.idiv(ir.sub(a, hi), const(c)))
    return asarr(ir.add(a, ir.mul(const(c), simp(ir.fn('max', n, ZERO)))))


def loop_get(loc, name):
    return loc.get(name, UNDEF)


def unsupported(msg):
    raise Unsupported(msg)


# ================================================================ differentiation
def subst_tensor(t, name, x, memo=None):
    """replace app(name, *idx) by x.fn(*idx) everywhere"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'app' and t.args[0] == name:
        r = x.fn(*[subst_tensor(a, name, x, memo) for a in t.args[1:]])
    elif t.op in ('sum', 'all', 'lam'):
        vs, dims, body = ir.open_binder(t)
        d2 = [subst_tensor(d, name, x, memo) for d in dims]
        b2 = subst_tensor(body, name, x, {})
        if b2 is body and all(a is b for a, b in zip(d2, dims)):
            r = t
        elif t.op == 'sum':
            r = ir.sum_(vs[0], d2[0], b2)
        elif t.op == 'all':
            r = ir.all_(vs[0], d2[0], b2)
        else:
            r = ir.lam(vs, d2, b2)
    elif any(isinstance(a, T) for a in t.args):
        a2 = [subst_tensor(a, name, x, memo) if isinstance(a, T) else a for a in t.args]
        r = t if all(a is b for a, b in zip(a2, t.args)) else ir.rebuild(t, a2)
    else:
        r = t
    memo[t] = r
    return r


def mentions(t, name, memo=None):
    return any(x.op == 'app' and x.args[0] == name for x in ir.subterms(t))


def diffT(t, name, iv):
    """d t / d name[iv]; real-valued terms"""
    memo = {}

    def d(t):
        r = memo.get(t)
        if r is None:
            r = dd(t)
            memo[t] = r
        return r

    def dd(t):
        o, A = t.op, t.args
        Z = const(0, 'R')
        if not mentions(t, name):
            return Z
        if o == 'app':
            if A[0] == name:
                return ir.and_(*[ir.eq(a, b) for a, b in zip(A[1:], iv)]) and ir.b2n(ir.and_(*[ir.eq(a, b) for a, b in zip(A[1:], iv)]))
            if A[0] in C().scans:
                raise Unsupported('derivative through a recurrence')
            r = Z
            for k, a in enumerate(A[1:]):
                if not isinstance(a, T) or not mentions(a, name):
                    continue
                if a.sort == 'L':
                    vs, dims, body = ir.open_binder(a)
                    g = ir.mul(ir.app('D%d:%s' % (k, A[0]), 'R', *vs, *A[1:]), diffT(body, name, iv))
                    for v, n in zip(reversed(vs), reversed(dims)):
                        g = ir.sum_(v, n, g)
                    r = ir.add(r, g)
                elif a.sort == 'R':
                    r = ir.add(r, ir.mul(ir.app('D%d:%s' % (k, A[0]), 'R', *A[1:]), d(a)))
                else:
                    raise Unsupported('derivative through %s' % a.sort)
            return r
        if o == 'add':
            return ir.add(d(A[0]), d(A[1]))
        if o == 'sub':
            return ir.sub(d(A[0]), d(A[1]))
        if o == 'neg':
            return ir.neg(d(A[0]))
        if o == 'mul':
            return ir.add(ir.mul(d(A[0]), A[1]), ir.mul(A[0], d(A[1])))
        if o == 'div':
            return ir.div(ir.sub(ir.mul(d(A[0]), A[1]), ir.mul(A[0], d(A[1]))), ir.mul(A[1], A[1]))
        if o == 'pow':
            n = A[1]
            return ir.mul(ir.mul(const(n), ir.ipow(A[0], n - 1)), d(A[0])) if n != 1 else d(A[0])
        if o == 'ite':
            return ir.ite(A[0], d(A[1]), d(A[2]))
        if o == 'b2n':
            return Z
        if o == 'sum':
            (v,), (n,), body = ir.open_binder(t)
            return ir.sum_(v, n, diffT(body, name, iv))
        if o == 'fn':
            f = A[0]
            x = A[1]
            if f == 'exp':
                return ir.mul(t, d(x))
            if f == 'log':
                return ir.div(d(x), x)
            if f == 'sqrt':
                return ir.div(d(x), ir.mul(const(2), t))
            if f == 'tanh':
                return ir.mul(ir.sub(ONE, ir.mul(t, t)), d(x))
            if f == 'max':
                return ir.ite(ir.le(A[2], A[1]), d(A[1]), d(A[2]))
            if f == 'min':
                return ir.ite(ir.le(A[1], A[2]), d(A[1]), d(A[2]))
            if f == 'abs':
                return ir.mul(ir.fn('sign', x), d(x))
            if f == 'softplus':
                return ir.mul(ir.div(ONE, ir.add(ONE, ir.fn('exp', ir.neg(x)))), d(x))
            if f in ('sin', 'cos'):
                return ir.mul(ir.fn('cos', x), d(x)) if f == 'sin' else ir.neg(ir.mul(ir.fn('sin', x), d(x)))
            raise Unsupported('derivative of ' + f)
        raise Unsupported('derivative of ' + o)
    return d(t)


_gx = [0]


def make_grad(value, filt=False, jac=False):
    def grad(fun=None, argnums=0, has_aux=False, **kw):
        if fun is None:
            return lambda f: grad(f, argnums, has_aux, **kw)
        if has_aux:
            raise Unsupported('has_aux')

        def g(*args, **kws):
            x = args[argnums]
            if isinstance(x, Module) or (filt and not isinstance(x, Arr)):
                return grad_model(fun, args, kws, value)
            x = asarr(x)
            name = 'gx!%d' % _gx[0]
            _gx[0] += 1
            ph = Arr(x.sh, lambda *i: ir.app(name, 'R', *i), 'f')
            a2 = list(args)
            a2[argnums] = ph
            c = C()
            sc = set(c.scans)
            with ir.fp_mode(False):
                out = fun(*a2, **kws)
            ol, orb = flatten(out)
            if not jac and (len(ol) != 1 or asarr(ol[0]).ndim != 0):
                raise TypeError('Gradient only defined for scalar-output functions')

            def der(o):
                o = asarr(o)

                def fn(*i):
                    with ir.fp_mode(False):   # the derivative is taken in exact arithmetic
                        return fn_(*i)

                def fn_(*i):
                    oi, xi = i[:o.ndim], i[o.ndim:]
                    fs = tuple(ir.fresh('f') for _ in i)
                    for f, dd in zip(fs, tuple(o.sh) + tuple(x.sh)):
                        c.ranges[f] = (ZERO, dT(dd))
                    t = o.fn(*fs[:o.ndim])
                    for y in ir.subterms(t):
                        if y.op == 'app' and y.args[0] in c.scans and y.args[0] not in sc:
                            raise Unsupported('derivative through a recurrence')
                    t = diffT(t, name, fs[o.ndim:])
                    t = subst_tensor(t, name, x)
                    return ir.subst(t, dict(zip(fs, i)))
                return Arr(tuple(o.sh) + tuple(x.sh), fn, 'f')
            gr = orb([der(o) for o in ol])
            if value:
                return fun(*args, **kws), gr
            return gr
        return g
    return grad


def grad_model(fun, args, kws, value):
    """gradient with respect to an abstract model: one opaque leaf"""
    m = args[0]
    leaves, rb = flatten(m)
    us = [k for k, x in enumerate(leaves) if isinstance(x, Arr)]
    val = fun(*args, **kws)
    if len(us) == 1 and leaves[us[0]].dt == 'u':
        u = leaves[us[0]]
        ph = ir.var('model!', 'U')
        l2 = list(leaves)
        l2[us[0]] = Arr((), lambda: ph, 'u')
        loss = asarr(fun(rb(l2), *args[1:], **kws)).term()
        from .prove import Prover
        loss = Prover().norm([]).canon(loss)
        gt = ir.app('grad_wrt', 'U', loss, u.term())
        l3 = list(leaves)
        l3[us[0]] = Arr((), lambda: gt, 'u')
        gr = rb(l3)
    else:
        # every array leaf of the model is a variable of the loss
        l2 = list(leaves)
        cur = []
        for n, k in enumerate(us):
            x = leaves[k]
            cur.append(arr.lam_of(x) if x.ndim else x.term())
            l2[k] = Arr(x.sh, lambda *i, n=n, x=x: ir.app('model!%d' % n, arr.SORT[x.dt], *i), x.dt)
        loss = asarr(fun(rb(l2), *args[1:], **kws)).term()
        from .prove import Prover
        loss = Prover().norm([]).canon(loss)
        gr = UObj(ir.app('grad_wrt', 'U', loss, *cur))
    return (val, gr) if value else gr


# ================================================================ jnp
def _u(name):
    return lambda x, **kw: arr.unop(lambda t: ir.fn(name, t), x)


def j_isfinite(x):
    x = asarr(x)

    def f(t):
        if t.op == 'special' or t.op == 'neg' and t.args[0].op == 'special':
            return FALSE
        if t.op == 'const':
            return TRUE
        return ir.app('isfinite', 'B', t)
    return Arr(x.sh, lambda *i: f(x.fn(*i)), 'b')


def _nonfinite(t, nan):
    if t.op == 'const':
        return FALSE
    if t.op == 'special' or t.op == 'neg' and t.args[0].op == 'special':
        s = t if t.op == 'special' else t.args[0]
        return const((s.args[0] == 'nan') == nan)
    a = ir.app('isnan', 'B', t)
    return ir.and_(ir.not_(ir.app('isfinite', 'B', t)), a if nan else ir.not_(a))


def j_isnan(x):
    x = asarr(x)
    return Arr(x.sh, lambda *i: _nonfinite(x.fn(*i), True), 'b')


def j_isinf(x):
    x = asarr(x)
    return Arr(x.sh, lambda *i: _nonfinite(x.fn(*i), False), 'b')


def j_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = asarr(x)
    big = 3.4028234663852886e38
    a, b, c = (asarr(v).fn() for v in (nan, big if posinf is None else posinf, -big if neginf is None else neginf))

    def f(t):
        inf = ir.ite(_nonfinite(t, False), ir.ite(ir.lt(ZERO, t), b, c), t)
        return ir.ite(_nonfinite(t, True), a, inf)
    return Arr(x.sh, lambda *i: f(x.fn(*i)), 'f')


def j_cov_ddof(m, ddof):
    """by the definition (the usual form, with N-1, is the symbol cov)"""
    if m.ndim == 1:
        return arr.variance(m, ddof=ddof)
    c = m - arr.mean(m, 1, True)
    r = arr.dot(c, c.T) / (asarr(m.sh[1]).astype('f') - ddof)
    return arr.squeeze(r) if isinstance(m.sh[0], int) and m.sh[0] == 1 else r


def j_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None):
    if y is not None or fweights is not None or aweights is not None:
        raise Unsupported('cov options')
    m = asarr(m)
    d_ = (0 if bias else 1) if ddof is None else ddof
    if d_ != 1:
        return j_cov_ddof(m if rowvar or m.ndim < 2 else arr.transpose(m), d_)
    if not rowvar:
        m = arr.transpose(m)
    if m.ndim == 1:
        return Arr((), lambda: ir.app('var1', 'R', arr.lam_of(m)), 'f')
    d = m.sh[0]
    lm = arr.lam_of(m)
    if isinstance(d, int) and d == 1:
        return Arr((), lambda: ir.app('cov', 'R', ZERO, ZERO, lm), 'f')     # the result is squeezed
    return Arr((d, d), lambda i, j: ir.app('cov', 'R', i, j, lm), 'f')


def j_array(x, dtype=None, **kw):
    a = asarr(x)
    return a.astype(asdtype(dtype)) if dtype is not None else a


def j_logical(f):
    return lambda a, b=None: arr.binop(arr.boolop(f), asarr(a), asarr(b), 'b')


def j_diagonal(a, offset=0, axis1=0, axis2=1):
    a = asarr(a)
    if a.ndim < 2:
        raise ValueError('diagonal of a vector')
    if offset != 0:
        raise Unsupported('off-diagonal')
    p, q_ = axis1 % a.ndim, axis2 % a.ndim
    rest = [k for k in range(a.ndim) if k not in (p, q_)]
    b = arr.transpose(a, tuple(rest) + (p, q_))
    if not arr.same_dim(b.sh[-1], b.sh[-2]):
        raise Unsupported('diagonal of a non-square matrix')
    return Arr(b.sh[:-1], lambda *i: b.fn(*i, i[-1]), a.dt)


def j_outer(a, b):
    a, b = asarr(a), asarr(b)
    a, b = a.ravel(), b.ravel()
    return Arr((a.sh[0], b.sh[0]), lambda i, j: ir.mul(a.fn(i), b.fn(j)), arr.result_dt(a.dt, b.dt))


def j_softmax(x, axis=-1, **kw):
    if kw:
        raise Unsupported('softmax options')
    x = asarr(x)
    e = arr.unop(lambda t: ir.fn('exp', t), x)
    return e / arr.reduce_sum(e, axis, True)


def j_vstack(xs):
    return arr.concatenate([arr.atleast_nd(x, 2) for x in xs], 0)


def j_hstack(xs):
    xs = [arr.atleast_nd(x, 1) for x in xs]
    return arr.concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def j_split(a, n, axis=0):
    a = asarr(a)
    if isinstance(n, int):
        d = a.sh[axis]
        if not isinstance(d, int):
            raise Unsupported('split of symbolic axis')
        return [arr.getitem(a, (slice(None),) * (axis % a.ndim) + (slice(k * d // n, (k + 1) * d // n),)) for k in range(n)]
    pts = [0] + list(n) + [None]
    return [arr.getitem(a, (slice(None),) * (axis % a.ndim) + (slice(pts[k], pts[k + 1]),)) for k in range(len(pts) - 1)]


def j_average(a, axis=None, weights=None):
    if weights is not None:
        a, w = asarr(a), asarr(weights)
        if w.ndim != a.ndim:
            if axis is None or w.ndim != 1:
                raise Unsupported('weights')
            w = arr.reshape(w, tuple(w.sh[0] if k == axis % a.ndim else 1 for k in range(a.ndim)))
        return arr.reduce_sum(a * w, axis) / arr.reduce_sum(arr.broadcast_to(w, a.sh), axis)
    return arr.mean(a, axis)


def j_where(c, x=None, y=None, **kw):
    return arr.where(c, x, y)


class _Finfo:
    def __init__(self, *a):
        # exact arithmetic: the smallest positive float is treated as 0
        self.tiny = const_arr(ZERO)
        self.eps = const_arr(ZERO)
        self.max = Arr((), lambda: const(float('inf')), 'f')
        self.min = Arr((), lambda: const(float('-inf')), 'f')


def const_arr(t):
    return Arr((), lambda: t, arr.DT[t.sort])


def _dt(name, d):
    def f(x):
        return asarr(x).astype(d)
    f._dt = d
    f.__name__ = name
    return f


def j_squeeze(a, axis=None):
    return arr.squeeze(a, axis)


jnp = mod(
    'jax.numpy', zeros=lambda s, dtype=None: arr.zeros(s, dtype), ones=lambda s, dtype=None: arr.ones(s, dtype),
    full=arr.full, eye=arr.eye, identity=arr.eye, array=j_array, asarray=j_array, arange=arr.arange, linspace=arr.linspace,
    zeros_like=lambda a, dtype=None: arr.full(asarr(a).sh, const(0, 'R' if asarr(a).dt == 'f' else 'I'), dtype or DType(asarr(a).dt)),
    ones_like=lambda a, dtype=None: arr.full(asarr(a).sh, const(1, 'R' if asarr(a).dt == 'f' else 'I'), dtype or DType(asarr(a).dt)),
    full_like=lambda a, v, dtype=None: arr.full(asarr(a).sh, v, dtype or DType(asarr(a).dt)),
    where=j_where, log=_u('log'), exp=_u('exp'), sqrt=_u('sqrt'), tanh=_u('tanh'), sin=_u('sin'), cos=_u('cos'),
    log1p=lambda x: arr.unop(lambda t: ir.fn('log', ir.add(ONE, t)), x),
    expm1=lambda x: arr.unop(lambda t: ir.sub(ir.fn('exp', t), ONE), x),
    abs=lambda x: abs(asarr(x)), absolute=lambda x: abs(asarr(x)), sign=_u('sign'),
    floor=_u('floor'), ceil=_u('ceil'),
    negative=lambda x: -asarr(x), reciprocal=lambda x: 1.0 / asarr(x),
    square=lambda x: arr.power(asarr(x), 2), power=arr.power,
    add=lambda a, b: asarr(a) + b, subtract=lambda a, b: asarr(a) - b, multiply=lambda a, b: asarr(a) * b,
    divide=lambda a, b: asarr(a) / b, true_divide=lambda a, b: asarr(a) / b, floor_divide=lambda a, b: asarr(a) // b,
    mod=lambda a, b: asarr(a) % b, remainder=lambda a, b: asarr(a) % b,
    maximum=lambda a, b: arr.binop(lambda x, y: ir.fn('max', x, y), asarr(a), asarr(b)),
    minimum=lambda a, b: arr.binop(lambda x, y: ir.fn('min', x, y), asarr(a), asarr(b)),
    clip=arr.clip, sum=arr.red_sum, mean=arr.red_mean, average=j_average, prod=arr.red_prod, all=arr.red_all, any=arr.red_any, max=arr.red_max, min=arr.red_min,
    cumsum=lambda a, axis=None, dtype=None: arr.cumsum(a, axis), dot=lambda a, b, precision=None, preferred_element_type=None: arr.dot(a, b), vdot=lambda a, b: arr.dot(asarr(a).ravel(), asarr(b).ravel()),
    inner=lambda a, b: arr.dot(a, b) if asarr(b).ndim < 2 else arr.dot(a, arr.moveaxis(asarr(b), -1, 0)),
    matmul=lambda a, b, **k: arr.dot(a, b, True), outer=j_outer, diag=arr.diag, diagonal=j_diagonal,
    trace=arr.trace, concatenate=lambda xs, axis=0, **k: arr.concatenate(xs, axis), concat=lambda xs, axis=0: arr.concatenate(xs, axis),
    stack=lambda xs, axis=0, **k: arr.stack(xs, axis), vstack=j_vstack, hstack=j_hstack, split=j_split,
    flip=arr.flip, repeat=lambda a, n, axis=None, **k: arr.repeat(a, n, axis), tile=arr.tile, roll=arr.roll,
    broadcast_to=lambda a, s: arr.broadcast_to(a, arr.shape_arg(s)), reshape=lambda a, s, **k: arr.reshape(asarr(a), arr_shape(s)),
    ravel=lambda a: asarr(a).ravel(), expand_dims=arr.expand_dims, squeeze=j_squeeze,
    transpose=lambda a, axes=None: arr.transpose(a, axes), swapaxes=lambda a, x, y: arr.swapaxes(asarr(a), x, y), moveaxis=arr.moveaxis,
    atleast_1d=lambda a: arr.atleast_nd(a, 1), atleast_2d=lambda a: arr.atleast_nd(a, 2),
    isfinite=j_isfinite, isnan=j_isnan, isinf=j_isinf, nan_to_num=j_nan_to_num, take=lambda a, i, axis=None, **k: arr.take(a, i, axis),
    logical_and=j_logical(ir.and_), logical_or=j_logical(ir.or_), logical_xor=j_logical(lambda a, b: ir.not_(ir.eq(a, b))),
    logical_not=lambda a: ~asarr(a).astype('b'), cov=j_cov,
    less=lambda a, b: asarr(a) < b, less_equal=lambda a, b: asarr(a) <= b, greater=lambda a, b: asarr(a) > b,
    greater_equal=lambda a, b: asarr(a) >= b, equal=lambda a, b: asarr(a) == b, not_equal=lambda a, b: asarr(a) != b,
    argmax=lambda a, *k, **kw: arr.argext(a, 'argmax', *k, **kw), argmin=lambda a, *k, **kw: arr.argext(a, 'argmin', *k, **kw),
    finfo=_Finfo, inf=float('inf'), nan=float('nan'), pi=_math.pi, e=_math.e, newaxis=None, ndarray=Arr,
    float16=_dt('float16', 'f'), bfloat16=_dt('bfloat16', 'f'), float32=_dt('float32', 'f'), float64=_dt('float64', 'f'),
    int32=_dt('int32', 'i'), int64=_dt('int64', 'i'), uint32=_dt('uint32', 'i'), bool_=_dt('bool', 'b'), dtype=DType,
    shape=lambda a: asarr(a).shape, ndim=lambda a: asarr(a).ndim, size=lambda a: asarr(a).size,
)


# further definitional contracts
def j_diff(a, n=1, axis=-1, **kw):
    a = asarr(a)
    if kw:
        raise Unsupported('diff options')
    ax = axis % a.ndim
    for _ in range(n):
        pre = (slice(None),) * ax
        a = arr.getitem(a, pre + (slice(1, None),)) - arr.getitem(a, pre + (slice(None, -1),))
    return a


def j_append(a, b, axis=None):
    if axis is None:
        a, b = asarr(a).ravel(), asarr(b).ravel()
        axis = 0
    return arr.concatenate([a, b], axis)


def j_tri(lower):
    def f(a, k=0):
        a = asarr(a)
        kk = const(k)
        if a.ndim < 2:
            raise Unsupported('tri rank')

        def fn(*i):
            r, c = i[-2:]
            keep = ir.le(c, ir.add(r, kk)) if lower else ir.le(ir.add(r, kk), c)
            return ir.ite(keep, a.fn(*i), const(0, 'R' if a.dt == 'f' else 'I'))
        return Arr(a.sh, fn, a.dt)
    return f


def j_select(conds, choices, default=0):
    r = asarr(default)
    for c, v in zip(reversed(list(conds)), reversed(list(choices))):
        r = arr.where(c, v, r)
    return r


def j_count_nonzero(a, axis=None, keepdims=False):
    a = asarr(a)
    return arr.reduce_sum((a if a.dt == 'b' else a != 0).astype('i'), axis, keepdims)


def j_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarr(a), asarr(b)
    return abs(a - b) <= atol + rtol * abs(b)


def j_einsum(spec, *ops, **kw):
    """explicit or implicit subscripts without ellipses: the sum over the letters absent from the output"""
    if not isinstance(spec, str) or '.' in spec:
        raise Unsupported('einsum form')
    spec = spec.replace(' ', '')
    ops = [asarr(o) for o in ops]
    lhs, _, out = spec.partition('->')
    ins = lhs.split(',')
    if '->' not in spec:
        al = ''.join(ins)
        out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    dims = {}
    for s_, o in zip(ins, ops):
        if len(s_) != o.ndim:
            raise ValueError('einsum: rank')
        for c, d in zip(s_, o.sh):
            if c in dims and not arr.same_dim(dims[c], d):
                raise ValueError('einsum: sizes differ')
            dims.setdefault(c, d)
    summed = sorted(set(''.join(ins)) - set(out))
    letters = list(out) + summed
    dt = 'f' if any(o.dt == 'f' for o in ops) else 'i'

    def fn(*i):
        e = dict(zip(letters, i))
        r = None
        for s_, o in zip(ins, ops):
            t = arr.castT(o.fn(*[e[c] for c in s_]), dt)
            r = t if r is None else ir.mul(r, t)
        return r
    r = Arr(tuple(dims[c] for c in letters), fn, dt)
    return arr.reduce_sum(r, tuple(range(len(out), len(letters)))) if summed else r


def j_tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if not isinstance(axes, int):
        raise Unsupported('tensordot axes')
    la_ = 'abcdefgh'[:a.ndim]
    lb_ = la_[a.ndim - axes:] + 'ijklmnop'[:b.ndim - axes]
    return j_einsum('%s,%s->%s' % (la_, lb_, la_[:a.ndim - axes] + lb_[axes:]), a, b)


def j_logaddexp(a, b):
    return arr.binop(lambda x, y: ir.fn('log', ir.add(ir.fn('exp', x), ir.fn('exp', y))), asarr(a), asarr(b))


def j_logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False, where=None):
    if return_sign or where is not None:
        raise Unsupported('logsumexp options')
    e = arr.unop(lambda t: ir.fn('exp', t), asarr(a))
    return arr.unop(lambda t: ir.fn('log', t), arr.reduce_sum(e if b is None else e * b, axis, keepdims))


def j_log_softmax(x, axis=-1):
    x = asarr(x)
    return x - j_logsumexp(x, axis, keepdims=True)


def j_one_hot(x, num_classes, *, dtype=None, axis=-1):
    if axis != -1:
        raise Unsupported('one_hot axis')
    x = asarr(x)
    return Arr(x.sh + (D(num_classes),), lambda *i: ir.b2n(ir.eq(x.fn(*i[:-1]), i[-1])), 'f')


def j_pad(a, pad_width, mode='constant', constant_values=0, **kw):
    a = asarr(a)
    if mode not in ('constant', 'edge') or kw or asarr(constant_values).ndim:
        raise Unsupported('pad mode')
    pw = pad_width
    if isinstance(pw, (int, Arr)):
        pw = [(pw, pw)] * a.ndim
    pw = list(pw)
    if not isinstance(pw[0], (tuple, list)):
        pw = [tuple(pw)] * a.ndim
    if len(pw) != a.ndim:
        raise Unsupported('pad widths')
    pw = [(asarr(x).term(), asarr(y).term()) for x, y in pw]
    sh = tuple(D(arr.simp(ir.add(ir.add(dT(n), lo), hi))) for n, (lo, hi) in zip(a.sh, pw))
    cv = asarr(constant_values).astype(a.dt).term()

    def fn(*i):
        src = [ir.sub(k, lo) for k, (lo, _) in zip(i, pw)]
        if mode == 'edge':
            return a.fn(*[ir.fn('min', ir.fn('max', s_, ZERO), ir.sub(dT(n), ONE)) for s_, n in zip(src, a.sh)])
        inside = ir.and_(*[ir.and_(ir.le(ZERO, s_), ir.lt(s_, dT(n))) for s_, n, (lo, hi) in zip(src, a.sh, pw) if not (lo is ZERO and hi is ZERO)])
        return ir.ite(inside, a.fn(*src), cv)
    return Arr(sh, fn, a.dt)


def j_take_along_axis(a, idx, axis):
    a, idx = asarr(a), asarr(idx)
    if a.ndim != idx.ndim:
        raise ValueError('take_along_axis rank')
    k = axis % a.ndim
    sh = tuple(idx.sh[p] if p == k else x for p, x in enumerate(arr.broadcast_shapes(tuple(1 if p == k else x for p, x in enumerate(a.sh)), tuple(1 if p == k else x for p, x in enumerate(idx.sh)))))

    def fn(*i):
        t = idx.fn(*arr.bidx(idx, i))
        return a.fn(*[arr.int_index(t, a.sh[k]) if p == k else (ZERO if isinstance(a.sh[p], int) and a.sh[p] == 1 else v) for p, v in enumerate(i)])
    return Arr(sh, fn, a.dt)


def j_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return j_isclose(a, b, rtol, atol).all()


def j_meshgrid(*xs, indexing='xy', **kw):
    xs = [asarr(x) for x in xs]
    if kw or len(xs) != 2:
        raise Unsupported('meshgrid form')
    x, y = xs
    if indexing == 'ij':
        return [Arr((x.sh[0], y.sh[0]), lambda i, j: x.fn(i), x.dt), Arr((x.sh[0], y.sh[0]), lambda i, j: y.fn(j), y.dt)]
    return [Arr((y.sh[0], x.sh[0]), lambda i, j: x.fn(j), x.dt), Arr((y.sh[0], x.sh[0]), lambda i, j: y.fn(i), y.dt)]


_EXTRA = dict(
    diff=j_diff, append=j_append, var=arr.variance, std=lambda a, *k, **kw: asarr(a).std(*k, **kw),
    tril=j_tri(True), triu=j_tri(False), select=j_select, count_nonzero=j_count_nonzero, isclose=j_isclose, einsum=j_einsum, tensordot=j_tensordot,
    pad=j_pad, take_along_axis=j_take_along_axis, allclose=j_allclose, meshgrid=j_meshgrid, ptp=lambda a, axis=None: arr.red_max(a, axis) - arr.red_min(a, axis),
    logaddexp=j_logaddexp, float_power=arr.power, pow=arr.power, positive=lambda a: asarr(a), fabs=lambda a: abs(asarr(a)),
    bitwise_and=lambda a, b: asarr(a) & b, bitwise_or=lambda a, b: asarr(a) | b, invert=lambda a: ~asarr(a), bitwise_not=lambda a: ~asarr(a),
    hypot=lambda a, b: arr.unop(lambda t: ir.fn('sqrt', t), asarr(a) * a + asarr(b) * b), exp2=lambda a: arr.unop(lambda t: ir.fn('exp', t), asarr(a) * _math.log(2)),
    amax=arr.red_max, amin=arr.red_min,
    empty=lambda s, dtype=None: arr.zeros(s, dtype), atleast_3d=lambda a: arr.atleast_nd(a, 3), permute_dims=lambda a, axes: arr.transpose(a, axes),
    fliplr=lambda a: arr.flip(a, 1), flipud=lambda a: arr.flip(a, 0), column_stack=lambda xs: arr.stack([asarr(x) for x in xs], 1) if all(asarr(x).ndim == 1 for x in xs) else arr.concatenate(xs, 1),
    copy=lambda a: asarr(a), multi_dot=None, argwhere=None, intp=_dt('int64', 'i'), int_=_dt('int64', 'i'), float_=_dt('float64', 'f'), int8=_dt('int8', 'i'), int16=_dt('int16', 'i'), uint8=_dt('uint8', 'i'),
    array_equal=lambda a, b: (asarr(a) == asarr(b)).all() if [dT(x) for x in asarr(a).sh] == [dT(x) for x in asarr(b).sh] else asarr(False),
    array_split=lambda a, n, axis=0: j_split(a, n, axis), vsplit=lambda a, n: j_split(a, n, 0), hsplit=lambda a, n: j_split(a, n, 1 if asarr(a).ndim > 1 else 0),
)
for _k, _v in _EXTRA.items():
    if _v is not None:
        setattr(jnp, _k, _v)


def arr_shape(s):
    return tuple(s) if isinstance(s, (list, tuple)) else (s,)


PI = Fraction(repr(_math.pi))


def la(name, rank_out=2):
    def f(a, **kw):
        a = asarr(a)
        lm = arr.lam_of(a)
        return Arr(a.sh, lambda i, j: ir.app(name, 'R', i, j, lm), 'f')
    return f


def la_scalar(name):
    return lambda a: Arr((), lambda: ir.app(name, 'R', arr.lam_of(a)), 'f')


def la_solve(a, b, *args, **kw):
    """inv(a) b"""
    a, b = asarr(a), asarr(b)
    if kw.get('trans') not in (None, 0) or a.ndim != 2 or b.ndim not in (1, 2):
        raise Unsupported('solve')
    return arr.dot(la('inv')(a), b, True)


def _is_chol(a, lower):
    """a is a Cholesky factor, triangular by construction"""
    i, j = C().gen('i', ZERO, dT(a.sh[0])), C().gen('j', ZERO, dT(a.sh[1]))
    t = prove_canon(a.fn(i, j))
    return t.op == 'app' and t.args[0] == 'chol' and list(t.args[1:3]) == ([i, j] if lower else [j, i])


def la_solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **kw):
    a = asarr(a)
    if a.ndim != 2 or unit_diagonal:
        raise Unsupported('solve_triangular')
    if not _is_chol(a, lower):
        a = jnp.tril(a) if lower else jnp.triu(a)
    if trans in (1, 'T', 2, 'C'):
        a = a.T
    return la_solve(a, b)


def la_cho_factor(a, lower=False, **kw):
    c = la('chol')(a)
    return (c if lower else c.T), lower


def la_cho_solve(cl, b, **kw):
    c, lower = cl
    c = asarr(c)
    if not _is_chol(c, lower):
        c = jnp.tril(c) if lower else jnp.triu(c)
    return la_solve(arr.dot(c, c.T, True) if lower else arr.dot(c.T, c, True), b)


def sla_cholesky(a, lower=False, **kw):
    c = la('chol')(a)
    return c if lower else c.T


def la_norm(a, ord=None, axis=None, keepdims=False):
    a = asarr(a)
    if ord == 1 and (a.ndim == 1 or isinstance(axis, int)):
        return arr.reduce_sum(abs(a), axis, keepdims)
    if ord not in (None, 'fro') and not (ord == 2 and (a.ndim == 1 or isinstance(axis, int))):
        raise Unsupported('norm order')
    return arr.unop(lambda t: ir.fn('sqrt', t), arr.reduce_sum(a * a, axis, keepdims))


linalg = mod('jax.numpy.linalg', inv=la('inv'), cholesky=la('chol'), det=la_scalar('det'), solve=la_solve, norm=la_norm,
             slogdet=lambda a: (Arr((), lambda: ir.fn('sign', ir.app('det', 'R', arr.lam_of(a)))), Arr((), lambda: ir.app('logabsdet', 'R', arr.lam_of(a)))))
jnp.linalg = linalg
linalg.multi_dot = lambda xs, **kw: __import__('functools').reduce(lambda a, b: arr.dot(a, b, True), [asarr(x) for x in xs])
linalg.matmul = jnp.matmul
linalg.diagonal = jnp.diagonal
linalg.outer = jnp.outer
linalg.trace = jnp.trace


# ---------------------------------------------------------------- random
def key_term(k):
    k = asarr(k)
    if k.dt != 'k':
        raise TypeError('not a PRNG key')
    if k.ndim != 0:
        raise TypeError('key array of rank %d used as a single key' % k.ndim)
    return k.term()


def use_key(key):
    """the key of a random draw; in tagging mode (C19) marked with the place and context of the draw"""
    k = key_term(key)
    c = C()
    if not c.tag_draws:
        return k
    loc = draw_site()
    n = c.drawcount.get(loc, 0)
    c.drawcount[loc] = n + 1
    return ir.app('use', 'K', k, ir.var('@%s#%d' % (loc, n), 'U'), *c.gens)


def draw_site():
    import sys
    f = sys._getframe(2)
    out = []
    while f is not None:
        fn = f.f_code.co_filename
        if '/flowMC/' in fn:
            out.append('%s:%d' % (fn.split('/')[-1], f.f_lineno))
        f = f.f_back
    return '<'.join(out)


def r_split(key, num=2):
    k = key_term(key)
    n = D(num) if not isinstance(num, tuple) else D(num[0])
    if isinstance(num, tuple) and len(num) != 1:
        raise Unsupported('split shape')
    return Arr((n,), lambda i: ir.app('split', 'K', k, dT(n), i), 'k')


def r_fold_in(key, data):
    k = key_term(key)
    d = asarr(data).term()
    return Arr((), lambda: ir.app('foldin', 'K', k, d), 'k')


def _draw(name, key, shape, sort='R', extra=()):
    k = use_key(key)
    sh = arr.shape_arg(shape)
    return Arr(sh, lambda *i: ir.app(name, sort, k, *extra, *[dT(d) for d in sh], *i), arr.DT[sort])


def r_uniform(key, shape=(), dtype=None, minval=0.0, maxval=1.0):
    u = _draw('uniform', key, shape)
    if minval == 0.0 and maxval == 1.0 and not isinstance(minval, Arr) and not isinstance(maxval, Arr):
        return u
    return asarr(minval) + u * (asarr(maxval) - asarr(minval))


def r_normal(key, shape=(), dtype=None):
    return _draw('normal', key, shape)


def r_permutation(key, x, axis=0, independent=False):
    k = use_key(key)
    x = asarr(x)
    if x.ndim == 0:
        n = x.term()
        return Arr((D(n),), lambda i: ir.app('perm', 'I', k, n, i), 'i')
    n = dT(x.sh[0])
    return Arr(x.sh, lambda i0, *i: x.fn(ir.app('perm', 'I', k, n, i0), *i), x.dt)


def r_choice(key, a, shape=(), replace=True, p=None, axis=0):
    if p is not None:
        raise Unsupported('choice with p')
    k = use_key(key)
    a = asarr(a)
    sh = arr.shape_arg(shape)
    if a.ndim == 0:
        n = a.term()
        g = lambda t: t
        dt = 'i'
        rest = ()
    else:
        n = dT(a.sh[0])
        dt = a.dt
        rest = a.sh[1:]
    nm = 'choice' if replace else 'choice_noreplace'

    def fn(*i):
        t = ir.app(nm, 'I', k, n, *[dT(d) for d in sh], *i[:len(sh)])
        return t if a.ndim == 0 else a.fn(t, *i[len(sh):])
    return Arr(sh + tuple(rest), fn, dt)


def r_mvn(key, mean, cov, shape=None, dtype=None, method='cholesky'):
    """mean + chol(cov) z, z standard normal with the shape of the result (the definition of the library)"""
    mean, cov = asarr(mean), asarr(cov)
    if method not in (None, 'cholesky') or mean.ndim != 1 or cov.ndim != 2:
        raise Unsupported('multivariate_normal')
    sh = () if shape is None else arr.shape_arg(shape)
    z = r_normal(key, sh + tuple(mean.sh))
    L = la('chol')(cov)
    d = mean.sh[0]

    def fn(*i):
        v = ir.fresh('s')
        C().ranges[v] = (ZERO, dT(d))
        return ir.add(arr.num(mean.fn(i[-1])), ir.sum_(v, dT(d), ir.mul(L.fn(i[-1], v), z.fn(*i[:-1], v))))
    return Arr(sh + tuple(mean.sh), fn, 'f')


def r_randint(key, shape, minval, maxval, dtype=None):
    lo, hi = asarr(minval).term(), asarr(maxval).term()
    u = _draw('randint', key, shape, 'I', (lo, hi))
    return u


def r_bernoulli(key, p=0.5, shape=()):
    return r_uniform(key, shape) < p


def r_key(seed):
    s = asarr(seed).term()
    return Arr((), lambda: ir.app('prngkey', 'K', s), 'k')


random = mod('jax.random', split=r_split, fold_in=r_fold_in, uniform=r_uniform, normal=r_normal, permutation=r_permutation,
             choice=r_choice, multivariate_normal=r_mvn, randint=r_randint, bernoulli=r_bernoulli, PRNGKey=r_key, key=r_key)


# ---------------------------------------------------------------- lax
def dyn_start(s, n, size):
    s = asarr(s).term()
    n_, sz = dT(n), dT(size)
    if ir.isconst(s) and s.args[0] < 0:
        s = ir.add(s, n_)
    elif not ir.isconst(s) and q(ir.le(ZERO, s)) is not True:
        s = ir.ite(ir.lt(s, ZERO), ir.add(s, n_), s)
    top = ir.sub(n_, sz)
    if q(ir.le(ZERO, s)) is not True:
        s = ir.fn('max', s, ZERO)
    if q(ir.le(s, top)) is not True:
        s = ir.fn('min', s, top)
    return s


def fits(size, n):
    if not arr.q_le(size, n):
        raise TypeError('slice sizes must be less than or equal to the operand shape: %s, %s' % (size, n))


def dslice_in_dim(a, start, size, axis=0):
    a = asarr(a)
    axis %= a.ndim
    size = D(size)
    fits(size, a.sh[axis])
    s = dyn_start(start, a.sh[axis], size)
    sh = list(a.sh)
    sh[axis] = size
    return Arr(sh, lambda *i: a.fn(*i[:axis], ir.add(s, i[axis]), *i[axis + 1:]), a.dt)


def dslice(a, starts, sizes):
    a = asarr(a)
    sizes = [D(x) for x in sizes]
    for z, n in zip(sizes, a.sh):
        fits(z, n)
    ss = [dyn_start(x, n, z) for x, n, z in zip(starts, a.sh, sizes)]
    return Arr(sizes, lambda *i: a.fn(*[ir.add(s, v) for s, v in zip(ss, i)]), a.dt)


def dupdate(a, u, starts):
    a, u = asarr(a), asarr(u)
    if u.ndim != a.ndim:
        raise TypeError('dynamic_update_slice: update rank %d != operand rank %d' % (u.ndim, a.ndim))
    ss = []
    for s, n, z in zip(starts, a.sh, u.sh):
        if not C().decide(ir.le(dT(z), dT(n))):
            raise TypeError('dynamic_update_slice: update larger than operand')
        if not isinstance(z, int) and z is n and isinstance(s, int) and s == 0:
            ss.append(ZERO)
        else:
            ss.append(dyn_start(s, n, z))

    def fn(*i):
        conds = []
        pos = []
        for s, v, z, n in zip(ss, i, u.sh, a.sh):
            if s is ZERO and (z is n or z == n and isinstance(z, int) or q(ir.eq(dT(z), dT(n))) is True):
                pos.append(v)
                continue
            if s is not ZERO or True:
                conds.append(ir.and_(ir.le(s, v), ir.lt(v, ir.add(s, dT(z)))))
            pos.append(ir.sub(v, s))
        c = ir.and_(*conds)
        return ir.ite(c, arr.castT(u.fn(*pos), a.dt), a.fn(*i))
    return Arr(a.sh, fn, a.dt)


def dupdate_in_dim(a, u, start, axis):
    a, u = asarr(a), asarr(u)
    axis = int(axis) if not isinstance(axis, Arr) else axis.__index__()
    axis %= a.ndim
    if u.ndim == a.ndim - 1:
        raise TypeError('dynamic_update_slice_in_dim: rank')
    starts = [0] * a.ndim
    starts[axis] = start
    return dupdate(a, u, starts)


def dindex(a, i, axis=0, keepdims=True):
    r = dslice_in_dim(a, i, 1, axis)
    return r if keepdims else arr.squeeze(r, axis)


ident = lambda x: x


def stop_gradient(x):
    """the identity; where the parameters of a unit are declared (ctx.C.hold, C24) the parameters below it are those held fixed"""
    names = C().hold
    if names is None:
        return x

    def held(t, memo):
        if t in memo:
            return memo[t]
        if t.op == 'app' and t.args[0] in C().scans:
            r = ir.app('held:', t.sort, t)
        elif t.op in ('lam', 'sum', 'all'):
            vs, dims, body = ir.open_binder(t)
            b = held(body, {})
            r = ir.lam(vs, dims, b) if t.op == 'lam' else ir.sum_(vs[0], dims[0], b) if t.op == 'sum' else ir.all_(vs[0], dims[0], b)
        else:
            a = [held(y, memo) if isinstance(y, ir.T) else y for y in t.args]
            if t.op == 'app' and t.args[0] in names:
                r = ir.app('held:' + t.args[0], t.sort, *a[1:])
            elif t.op == 'var' and t.args[0] in names:
                r = ir.var('held:' + t.args[0], t.sort)
            else:
                r = ir.rebuild(t, a) if any(isinstance(y, ir.T) for y in t.args) else t
        memo[t] = r
        return r

    def leaf(y):
        return Arr(y.sh, lambda *i: held(y.fn(*i), {}), y.dt) if isinstance(y, Arr) else y
    ls, rb = flatten(x)
    return rb([leaf(y) for y in ls])


lax = mod('jax.lax', scan=scan, fori_loop=fori_loop, map=lax_map, cond=cond, switch=switch, stop_gradient=stop_gradient,
          select=lambda p, a, b: arr.where(p, a, b), dynamic_slice_in_dim=dslice_in_dim, dynamic_slice=dslice,
          dynamic_update_slice_in_dim=dupdate_in_dim, dynamic_update_index_in_dim=lambda a, u, i, axis: dupdate_in_dim(a, u if asarr(u).ndim == asarr(a).ndim else arr.expand_dims(asarr(u), axis), i, axis), dynamic_update_slice=dupdate, dynamic_index_in_dim=dindex,
          exp=_u('exp'), log=_u('log'),
          rsqrt=lambda x: 1.0 / arr.unop(lambda t: ir.fn('sqrt', t), x), psum=None)
for _k in ('sin', 'cos', 'tanh', 'sqrt', 'abs', 'sign', 'floor', 'ceil', 'square', 'expm1', 'log1p', 'reshape', 'concatenate', 'full', 'full_like', 'transpose',
           'expand_dims', 'squeeze', 'cumsum'):
    setattr(lax, _k, getattr(jnp, _k))
for _k, _v in dict(add='add', sub='subtract', mul='multiply', div='divide', rem='mod', max='maximum', min='minimum', neg='negative', pow='power', lt='less', le='less_equal',
                   gt='greater', ge='greater_equal', eq='equal', ne='not_equal', dot='dot', is_finite='isfinite', integer_pow='power', bitwise_and='logical_and',
                   bitwise_or='logical_or', bitwise_not='logical_not').items():
    setattr(lax, _k, getattr(jnp, _v))
lax.clamp = lambda lo, x, hi: arr.clip(x, lo, hi)
lax.rev = lambda a, dims: __import__('functools').reduce(lambda b, k: arr.flip(b, k), dims, asarr(a))
lax.iota = lambda dtype, n: arr.arange(n)
lax.slice_in_dim = lambda a, lo, hi, stride=1, axis=0: arr.getitem(asarr(a), (slice(None),) * (axis % asarr(a).ndim) + (slice(lo, hi, stride),))
lax.index_in_dim = lambda a, i, axis=0, keepdims=True: dindex(a, i, axis, keepdims)
lax.convert_element_type = lambda a, dt: asarr(a).astype(asdtype(dt))


# ---------------------------------------------------------------- jax
def jit(fun=None, *a, **kw):
    if fun is None:
        return lambda f: f
    return fun


def register_class(cls):
    tree.REG[cls] = (lambda x: x.tree_flatten(), lambda aux, ch: cls.tree_unflatten(aux, ch))
    return cls


def register_node(cls, fl, un):
    tree.REG[cls] = (fl, un)


def t_map(f, t, *rest, is_leaf=None):
    return tmap(f, t, *rest)


tree_util = mod('jax.tree_util', Partial=Partial, register_pytree_node_class=register_class, register_pytree_node=register_node,
                tree_map=t_map, tree_leaves=lambda t: flatten(t)[0],
                tree_flatten=lambda t: flatten(t))
jtree = mod('jax.tree', map=t_map, leaves=lambda t: flatten(t)[0])


def softplus(x):
    return arr.unop(lambda t: ir.fn('softplus', t), x)


nn = mod('jax.nn', relu=lambda x: arr.unop(lambda t: ir.fn('max', t, ZERO), x), tanh=_u('tanh'), softplus=softplus, softmax=j_softmax,
         sigmoid=lambda x: arr.unop(lambda t: ir.div(ONE, ir.add(ONE, ir.fn('exp', ir.neg(t)))), x),
         swish=lambda x: arr.unop(lambda t: ir.div(t, ir.add(ONE, ir.fn('exp', ir.neg(t)))), x),
         silu=lambda x: arr.unop(lambda t: ir.div(t, ir.add(ONE, ir.fn('exp', ir.neg(t)))), x),
         gelu=_u('gelu'), logsumexp=j_logsumexp, log_softmax=j_log_softmax, one_hot=j_one_hot)


def mvn_logpdf(x, mean, cov, allow_singular=None):
    x, mean, cov = asarr(x), asarr(mean), asarr(cov)
    if mean.ndim == 0:
        y = x - mean
        return -0.5 * (y * y) / cov - 0.5 * (float_log2pi() + jnp.log(cov))
    y = x - mean
    if cov.ndim == 0:
        n = asarr(mean.sh[-1] if isinstance(mean.sh[-1], int) else mean.sh[-1])
        return -0.5 * (y * y).sum(-1) / cov - (n / 2) * (float_log2pi() + jnp.log(cov))
    if y.ndim == 1:
        ly, lc = arr.lam_of(y), arr.lam_of(cov)
        return Arr((), lambda: ir.app('mvn.logpdf', 'R', ly, lc), 'f')
    if y.ndim == 2:
        lc = arr.lam_of(cov)

        def fn(k):
            return ir.app('mvn.logpdf', 'R', arr.lam_of(Arr(y.sh[1:], lambda i: y.fn(k, i), 'f')), lc)
        return Arr(y.sh[:1], fn, 'f')
    raise Unsupported('mvn rank')


def float_log2pi():
    return Arr((), lambda: ir.add(ir.fn('log', const(2)), ir.fn('log', ir.var('pi', 'R'))), 'f')


def norm_logpdf(x, loc=0.0, scale=1.0):
    y = (asarr(x) - loc) / scale
    return -0.5 * y * y - 0.5 * float_log2pi() - jnp.log(asarr(scale).astype('f'))


mvn = mod('jax.scipy.stats.multivariate_normal', logpdf=mvn_logpdf)
stats = mod('jax.scipy.stats', multivariate_normal=mvn, norm=mod('jax.scipy.stats.norm', logpdf=norm_logpdf))
slinalg = mod('jax.scipy.linalg', solve=la_solve, inv=la('inv'), cholesky=sla_cholesky, solve_triangular=la_solve_triangular,
              cho_factor=la_cho_factor, cho_solve=la_cho_solve, det=la_scalar('det'))
scipy = mod('jax.scipy', stats=stats, linalg=slinalg, special=mod('jax.scipy.special', logsumexp=j_logsumexp, expit=nn.sigmoid))

jax = mod('jax', numpy=jnp, lax=lax, random=random, tree_util=tree_util, tree=jtree, nn=nn, scipy=scipy, vmap=vmap, jit=jit,
          grad=make_grad(False), value_and_grad=make_grad(True), jacrev=make_grad(False, jac=True), jacfwd=make_grad(False, jac=True),
          debug=mod('jax.debug', print=lambda *a, **k: None), Array=Arr, checkpoint=jit,
          block_until_ready=ident, device_get=ident)


# ---------------------------------------------------------------- equinox
def partition(t, pred, **kw):
    return (tmap(lambda x: x if pred(x) else None, t), tmap(lambda x: None if pred(x) else x, t))


def combine(*ts):
    def go(a, b):
        if a is None:
            return b
        if b is None:
            return a
        ca, cb = tree.children(a), tree.children(b)
        if ca is None or cb is None:
            return a
        return ca[1]([go(x, y) for x, y in zip(ca[0], cb[0])])
    r = ts[0]
    for t in ts[1:]:
        r = go(r, t)
    return r


def eqx_filter(t, pred, replace=None, inverse=False, **kw):
    return tmap(lambda x: x if bool(pred(x)) != inverse else replace, t)


class _Box:
    def __init__(self, v):
        self.v = v


def tree_at(where, pytree, replace=None, replace_fn=None, is_leaf=None):
    if hasattr(pytree, '_tree_at'):
        return pytree._tree_at(where, replace)

    def clone(x):
        if x is None:
            return _Box(None)
        ch = tree.children(x)
        if ch is None:
            return _Box(x)
        y = ch[1]([clone(c) for c in ch[0]])
        if hasattr(x, '_tree_at'):
            return x
        return y
    cl = clone(pytree)
    tgt = where(_Unbox(cl))
    tgts = tgt if isinstance(tgt, (tuple, list)) and not any(tgt is z for z in [cl]) and isinstance(tgt, tuple) else (tgt,)
    reps = replace if isinstance(tgt, tuple) and isinstance(replace, (tuple, list)) else (replace,)
    tgts = [t._node if isinstance(t, _Unbox) else t for t in tgts]
    hitc = [0]

    def back(x):
        for t, r in zip(tgts, reps):
            if x is t:
                hitc[0] += 1
                if replace_fn is not None:
                    return replace_fn(unbox(x))
                return r
        if isinstance(x, _Box):
            return x.v
        ch = tree.children(x)
        if ch is None:
            return x
        return ch[1]([back(c) for c in ch[0]])

    def unbox(x):
        if isinstance(x, _Box):
            return x.v
        ch = tree.children(x)
        return x if ch is None else ch[1]([unbox(c) for c in ch[0]])
    res = back(cl)
    if not hitc[0]:
        raise ValueError('tree_at: where did not return an element of the tree')
    return res


class _Unbox:
    """attribute/index view of a cloned tree that keeps node identity"""

    def __init__(self, node):
        object.__setattr__(self, '_node', node)

    def __getattr__(self, k):
        v = getattr(self._node, k)
        return _Unbox(v)

    def __getitem__(self, k):
        return _Unbox(self._node[k])


class Linear(Module):
    def __init__(self, in_features, out_features, use_bias=True, *, key, dtype=None):
        i, o = D(in_features), D(out_features)
        k = use_key(key)
        self.weight = Arr((o, i), lambda a, b: ir.app('linit', 'R', k, a, b), 'f')
        self.bias = Arr((o,), lambda a: ir.app('linitb', 'R', k, a), 'f') if use_bias else None
        self.in_features = arr.wrapdim(i)
        self.out_features = arr.wrapdim(o)
        self.use_bias = use_bias

    def __call__(self, x, *, key=None):
        y = arr.dot(self.weight, x)
        return y if self.bias is None else y + self.bias


class Sequential(Module):
    def __init__(self, layers):
        self.layers = tuple(layers)

    def __call__(self, x, *, key=None):
        for l in self.layers:
            x = l(x)
        return x

    def __getitem__(self, k):
        return self.layers[k]

    def __len__(self):
        return len(self.layers)

    def __iter__(self):
        return iter(self.layers)


def fvg(value):
    def deco(fun=None, **kw):
        if fun is None:
            return lambda f: deco(f)
        g = make_grad(value, True)(fun)

        def wrapper(*a, **k):
            return g(*a, **k)
        wrapper.__wrapped__ = fun
        return wrapper
    return deco


def apply_updates(model, updates):
    if hasattr(model, '_apply_updates'):
        return model._apply_updates(updates)
    if isinstance(model, Arr) and isinstance(updates, Arr):
        return model + updates
    ml, mrb = flatten(model)
    if isinstance(updates, UObj):
        out = []
        for n, x in enumerate(ml):
            if not isinstance(x, Arr):
                out.append(x)
            else:
                lx = arr.lam_of(x) if x.ndim else x.term()
                out.append(Arr(x.sh, lambda *i, n=n, x=x, lx=lx: ir.app('upd%d' % n, arr.SORT[x.dt], *i, lx, updates.t), x.dt))
        return mrb(out)
    if isinstance(updates, (Module, dict, list, tuple)):
        ul, _ = flatten(updates)
        if len(ul) == len(ml):
            return mrb([m + u if isinstance(m, Arr) and isinstance(u, Arr) else m for m, u in zip(ml, ul)])
    raise Unsupported('apply_updates')


def serialise(path, t, **kw):
    C().events.append(('serialise', path, t))


def deserialise(path, like, **kw):
    C().events.append(('deserialise', path, like))
    for e in reversed(C().events[:-1]):
        if e[0] == 'serialise' and e[1] == path:
            return like_with(like, e[2])
    raise FileNotFoundError(path)


def like_with(like, src):
    """arrays and numbers are read from the file in order, every other leaf is that of `like`"""
    a, rb = flatten(like)
    b, _ = flatten(src)
    st = lambda x: isinstance(x, (Arr, int, float, bool))
    bs = [x for x in b if st(x)]
    if len(bs) != len([x for x in a if st(x)]):
        raise RuntimeError('file does not match the model')
    it = iter(bs)
    out = []
    for x in a:
        if not st(x):
            out.append(x)
            continue
        y = next(it)
        if isinstance(x, Arr) != isinstance(y, Arr):
            raise RuntimeError('file does not match the model')
        if isinstance(x, Arr) and (x.ndim != y.ndim or any(arr.q(ir.eq(dT(d), dT(e))) is not True for d, e in zip(x.sh, y.sh))):
            raise RuntimeError('shapes differ')
        out.append(y)
    return rb(out)


def filter_jit(fun=None, **kw):
    return fun if fun is not None else (lambda f: f)


eqx = mod('equinox', Module=Module, filter_jit=filter_jit, filter_vmap=filter_vmap, partition=partition, combine=combine,
          is_array=lambda x: isinstance(x, Arr), is_inexact_array=lambda x: isinstance(x, Arr) and x.dt in 'fu',
          is_array_like=lambda x: isinstance(x, (Arr, int, float)),
          filter=eqx_filter, tree_at=tree_at, nn=mod('equinox.nn', Linear=Linear, Sequential=Sequential),
          filter_value_and_grad=fvg(True), filter_grad=fvg(False), apply_updates=apply_updates,
          tree_serialise_leaves=serialise, tree_deserialise_leaves=deserialise, field=lambda *a, **k: k.get('default'),
          AbstractVar=_Sub(), filter_checkpoint=filter_jit)


# ---------------------------------------------------------------- optax
class GT:
    """An abstract gradient transformation: update is a function of (config, grads, state, params)."""

    def __init__(self, name, *cfg):
        self.name = name
        self.cfg = cfg

    def key(self):
        out = []
        for c in self.cfg:
            if isinstance(c, GT):
                out.append(c.key())
            elif isinstance(c, Arr):
                out.append(ir.show(c.term()))
            else:
                out.append(repr(c))
        return self.name + '(' + ','.join(out) + ')'

    def init(self, params):
        C().events.append(('optim.init', self.key(), params))
        u = ir.app('opt.init:' + self.key(), 'U', fingerprint(params))
        return Arr((), lambda: u, 'u')

    def update(self, grads, state, params=None, **kw):
        C().events.append(('optim.update', self.key(), grads, state, params))
        s = asarr(state).term()
        fg, fp = fingerprint(grads), fingerprint(params)
        ns = ir.app('opt.state:' + self.key(), 'U', fg, s, fp)
        new = Arr((), lambda: ns, 'u')
        if isinstance(grads, Arr) and grads.dt != 'u':
            up = Arr(grads.sh, lambda *i: ir.app('opt.upd:' + self.key(), 'R', *i, fg, s, fp), 'f')
        else:
            ut = ir.app('opt.upd:' + self.key(), 'U', fg, s, fp)
            up = UObj(ut)
        return up, new


class UObj:
    def __init__(self, t):
        self.t = t

    def _as_arr(self):
        return Arr((), lambda: self.t, 'u')


def fingerprint(x):
    if x is None:
        return ir.var('none!', 'U')
    if isinstance(x, UObj):
        return x.t
    if isinstance(x, Arr):
        return arr.lam_of(x) if x.ndim else x.term()
    if isinstance(x, bool) or isinstance(x, (int, float)):
        return asarr(x).term()
    if isinstance(x, str):
        return ir.var('str:' + x, 'U')
    if isinstance(x, dict):
        if not all(isinstance(k, str) for k in x):
            raise Unsupported('data dictionary with keys that are not strings')
        return ir.app('dict', 'U', *[u for k in sorted(x) for u in (ir.var('key:' + k, 'U'), fingerprint(x[k]))])
    if isinstance(x, (list, tuple)):
        return ir.app('seq', 'U', *[fingerprint(v) for v in x])
    ls = [l for l in flatten(x)[0] if isinstance(l, Arr)]
    return ir.app('tree', 'U', *[fingerprint(l) for l in ls])


def opt_chain(*ts):
    if len(ts) == 1:
        return ts[0]
    return GT('chain', *ts)


def _gt(name):
    def f(*a, **k):
        return GT(name, *a, *['%s=%s' % (x, (ir.show(v.term()) if isinstance(v, Arr) else v)) for x, v in sorted(k.items())])
    return f


def opt_apply(params, updates):
    return apply_updates(params, updates)


optax = mod('optax', chain=opt_chain, adamw=_gt('adamw'), adam=_gt('adam'), sgd=_gt('sgd'), clip_by_global_norm=_gt('clip_by_global_norm'),
            clip=_gt('clip'), apply_updates=opt_apply, GradientTransformation=GT, OptState=object,
            projections=mod('optax.projections', projection_box=lambda p, lo, hi: arr.clip(p, lo, hi),
                            projection_hypercube=lambda p, scale=1.0: arr.clip(p, 0.0, scale)))


# ---------------------------------------------------------------- diffrax
class ODETerm:
    def __init__(self, f):
        self.f = f


class AbstractSolver:
    pass


class Dopri5(AbstractSolver):
    pass


class _Sol:
    pass


def fakes_replace(t, old, new, memo=None):
    """rename an uninterpreted symbol"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        if t.op == 'app':
            r = ir.app(new if t.args[0] == old else t.args[0], t.sort, *[fakes_replace(a, old, new, memo) if isinstance(a, T) else a for a in t.args[1:]])
        elif t.op in ('sum', 'all', 'lam'):
            vs, dims, body = ir.open_binder(t)
            b2 = fakes_replace(body, old, new, memo)
            d2 = [fakes_replace(d, old, new, memo) for d in dims]
            r = ir.sum_(vs[0], d2[0], b2) if t.op == 'sum' else ir.all_(vs[0], d2[0], b2) if t.op == 'all' else ir.lam(vs, d2, b2)
        elif any(isinstance(a, T) for a in t.args):
            r = ir.rebuild(t, [fakes_replace(a, old, new, memo) if isinstance(a, T) else a for a in t.args])
        else:
            r = t
        memo[t] = r
    return r


def lead(t):
    """t = c * t' with a constant c"""
    if t.op == 'neg':
        c, u = lead(t.args[0])
        return ir.neg(c), u
    if t.op == 'mul' and ir.isconst(t.args[0]):
        c, u = lead(t.args[1])
        return ir.mul(t.args[0], c), u
    if t.op == 'add' and t.sort == 'R':
        c, u = lead(t.args[0])
        if c.op == 'const' and c.args[0] != 1:
            from . import prove
            return c, prove.Prover().norm([]).canon(ir.div(t, c))
        return const(1, 'R'), t
    if t.op == 'sum' and t.sort == 'R':
        (v,), (n,), b = ir.open_binder(t)
        c, u = lead(b)
        return c, ir.sum_(v, n, u)
    return const(1, 'R'), t


def diffeqsolve(terms, solver, t0, t1, dt0=None, y0=None, args=None, **kw):
    """Contract: the value at t1 of the exact solution of dy/dt = f(t, y) with y(t0) = y0 (a function of
    the field, t0, t1, y0; the step size and the method do not matter: the integrator is assumed exact)."""
    t0, t1 = asarr(t0).astype('f'), asarr(t1).astype('f')
    extra = {k: v for k, v in kw.items()}
    if 'saveat' in extra or 'args' in extra:
        raise Unsupported('diffeqsolve options')
    leaves, rb = flatten(y0)
    leaves = [asarr(x) for x in leaves]
    tph = Arr((), lambda: ir.var('odeT', 'R'), 'f')
    ph = [Arr(x.sh, lambda *i, k=k: ir.app('odeY%d' % k, 'R', *i), 'f') for k, x in enumerate(leaves)]
    field = terms.f(tph, rb(ph), args)
    fl = [asarr(x) for x in flatten(field)[0]]
    if len(fl) != len(leaves):
        raise ValueError('ODE field structure')
    for x, y in zip(fl, leaves):
        if x.ndim != y.ndim:
            raise ValueError('ODE field rank')
        for d, e in zip(x.sh, y.sh):
            if not arr.same_dim(d, e):
                raise ValueError('ODE field shape')
    C().events.append(('ode', rb(ph), field, t0.term(), t1.term(), y0, dt0))
    # leaves whose derivative does not depend on the quadrature leaves are integrals along the others
    ft = []
    for x in fl:
        ii = tuple(ir.fresh('o') for _ in x.sh)
        for v, d in zip(ii, x.sh):
            C().ranges[v] = (ZERO, dT(d))
        from . import prove
        ft.append((ii, prove.Prover().norm([]).canon(x.fn(*ii))))
    ment = [[any(z.op == 'app' and z.args[0] == 'odeY%d' % k for z in ir.subterms(t)) for k in range(len(fl))] for _, t in ft]
    quad = [k for k in range(len(fl)) if not any(ment[j][k] for j in range(len(fl)))]
    dyn = [k for k in range(len(fl)) if k not in quad]

    def renamed(k):
        """field of leaf k as a lambda, dynamic leaves numbered by rank of occurrence"""
        ii, t = ft[k]
        for n, j in enumerate(dyn):
            t = fakes_replace(t, 'odeY%d' % j, 'odeY.%d' % n)
        return ii, t

    def lamk(k):
        ii, t = renamed(k)
        return ir.lam(ii, tuple(dT(d) for d in fl[k].sh), t) if ii else t
    F = [lamk(k) for k in dyn]
    Y = [arr.lam_of(leaves[k]) for k in dyn]
    T0, T1 = t0.term(), t1.term()

    def out(k, x):
        if k in dyn:
            n = dyn.index(k)
            return Arr((1,) + tuple(x.sh), lambda z, *i: ir.app('ode%d' % n, 'R', *i, *F, *Y, T0, T1), 'f')
        ii, t = renamed(k)
        c, t = lead(t)
        G = ir.lam(ii, tuple(dT(d) for d in fl[k].sh), t) if ii else t
        return Arr((1,) + tuple(x.sh), lambda z, *i: ir.add(x.fn(*i), ir.mul(c, ir.app('odeint', 'R', *i, G, *F, *Y, T0, T1))), 'f')
    s = _Sol()
    s.ys = rb([out(k, x) for k, x in enumerate(leaves)])
    s.ts = None
    return s


diffrax = mod('diffrax', ODETerm=ODETerm, Dopri5=Dopri5, AbstractSolver=AbstractSolver, diffeqsolve=diffeqsolve, Tsit5=Dopri5)


# ---------------------------------------------------------------- misc modules
class tqdm:
    def __init__(self, it=None, *a, **k):
        self.it = it

    def set_description(self, *a, **k):
        pass

    set_postfix = update = close = set_description

    def __iter__(self):
        if as_symiter(self.it) is not None:
            raise Unsupported('symbolic iteration')
        return iter(self.it)


def trange(*a, **k):
    return tqdm(h_range(*a))


def h_range(*a):
    vals = [x.term() if isinstance(x, Arr) else x for x in a]
    if all(isinstance(v, int) for v in vals):
        return range(*vals)
    vals = [v if isinstance(v, T) else const(int(v)) for v in vals]
    if any(v.sort != 'I' for v in vals):
        raise TypeError('range of non-integer')
    if len(vals) == 1:
        a0, b0, s0 = ZERO, vals[0], ONE
    elif len(vals) == 2:
        a0, b0, s0 = vals[0], vals[1], ONE
    else:
        a0, b0, s0 = vals
    if ir.isconst(a0) and ir.isconst(b0) and ir.isconst(s0):
        return range(int(a0.args[0]), int(b0.args[0]), int(s0.args[0]))
    if s0 is not ONE and q(ir.lt(ZERO, s0)) is not True:
        raise Unsupported('range step of unknown sign')
    return SymRange(a0, b0, s0)


def h_len(x):
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise TypeError('len() of unsized object')
        return arr.wrapdim(x.sh[0])
    if isinstance(x, SymList):
        n = x.sym_len()
        return n
    if isinstance(x, SymRange):
        return arr.wrapdim(x.n())
    return len(x)


def _ratio(t):
    """integer/integer quotient inside ceil/floor/int"""
    if t.op == 'div' and t.args[0].sort == 'I' and t.args[1].sort == 'I':
        return t.args
    return None


def m_ceil(x):
    if not isinstance(x, Arr):
        return _math.ceil(x)
    t = x.term()
    if t.sort == 'I':
        return asarr(t)
    r = _ratio(t)
    if r:
        return asarr(ir.neg(ir.idiv(ir.neg(r[0]), r[1])))
    return asarr(ir.fn('ceil', t))


def m_floor(x):
    if not isinstance(x, Arr):
        return _math.floor(x)
    t = x.term()
    if t.sort == 'I':
        return asarr(t)
    r = _ratio(t)
    if r:
        return asarr(ir.idiv(*r))
    return asarr(ir.fn('floor', t))


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)


def h_int(x=0, *a):
    if isinstance(x, Stored):
        return h_int(x.v)
    if not isinstance(x, Arr):
        return builtins.int(x, *a)
    t = x.term()
    if t.sort == 'I':
        return x
    if t.sort == 'B':
        return asarr(ir.b2n(t))
    t = split_affine_ratio(t)
    if t.sort == 'I':
        return asarr(t)
    r = _ratio(t)
    if r and q(ir.le(ZERO, r[0])) is True and q(ir.lt(ZERO, r[1])) is True:
        return asarr(ir.idiv(*r))
    if ir.isconst(t):
        return asarr(const(int(t.args[0])))
    return asarr(ir.ite(ir.le(ZERO, t), ir.fn('floor', t), ir.fn('ceil', t)))


def split_affine_ratio(t):
    """a/b + c with integers -> (a + c b)/b"""
    if t.op in ('add', 'sub') and t.sort == 'R':
        x, y = t.args
        r = _ratio(x)
        if r and y.sort == 'I':
            num = ir.add(r[0], ir.mul(y, r[1])) if t.op == 'add' else ir.sub(r[0], ir.mul(y, r[1]))
            n2 = arr.simp(num)
            return mk_div(n2, r[1])
    r = _ratio(t)
    if r:
        return mk_div(arr.simp(r[0]), r[1])
    return t


def mk_div(a, b):
    qd = arr.simp(ir.idiv(a, b))
    if q(ir.eq(ir.mul(qd, b), a)) is True:
        return qd
    return ir.mk('div', (a, b), 'R')


def h_float(x=0.0):
    if isinstance(x, Arr):
        return x.astype('f')
    return builtins.float(x)


def h_bool(x=False):
    if isinstance(x, Arr):
        return x.astype('b')
    return builtins.bool(x)


def h_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(isinstance(x, Arr) for x in xs):
        return builtins.min(*a, **k)
    r = asarr(xs[0])
    for x in xs[1:]:
        r = arr.binop(lambda p, s: ir.fn('min', p, s), r, asarr(x))
    return r


def h_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(isinstance(x, Arr) for x in xs):
        return builtins.max(*a, **k)
    r = asarr(xs[0])
    for x in xs[1:]:
        r = arr.binop(lambda p, s: ir.fn('max', p, s), r, asarr(x))
    return r


def h_abs(x):
    return builtins.abs(x)


def h_sum(x, start=0):
    if isinstance(x, Arr):
        return x.sum()
    if isinstance(x, SymList) and not builtins.all(g[0] == 'one' for g in x.segs):
        n, f = x.elem_single()
        v = C().gen('s', ZERO, dT(n))
        e = asarr(f(v))
        return start + Arr(e.sh, lambda *i: ir.sum_(v, dT(n), arr.num(e.fn(*i))), 'i' if e.dt == 'b' else e.dt)
    return builtins.sum(x, start)


def h_zip(*xs):
    ss = [as_symiter(x) for x in xs]
    if all(s is None for s in ss):
        return builtins.zip(*xs)
    if any(s is None for s in ss):
        raise Unsupported('zip of symbolic and concrete')
    n = ss[0].n
    for s in ss[1:]:
        if not arr.same_dim(n, s.n):
            raise Unsupported('zip of different lengths')
    return SymIter(n, lambda k: tuple(s.elem(k) for s in ss))


def h_enumerate(x, start=0):
    s = as_symiter(x)
    if s is None:
        return builtins.enumerate(x, start)
    return SymIter(s.n, lambda k: (asarr(ir.add(const(start), k)), s.elem(k)))


def h_list(x=()):
    if isinstance(x, SymList):
        return SymList(x.segs)
    s = as_symiter(x)
    if s is not None:
        return SymList([('rep', s.n, lambda k: SymList([('one', s.elem(k))]))])
    return builtins.list(x)


def h_print(*a, **k):
    pass


def h_isinstance(x, cls):
    def norm(c):
        if c is h_int:
            return int
        if c is h_float:
            return float
        if c is h_bool:
            return bool
        if c is h_list:
            return list
        if c is h_str:
            return str
        return c
    cs = tuple(norm(c) for c in cls) if isinstance(cls, tuple) else (norm(cls),)
    if int in cs and isinstance(x, Arr) and x.ndim == 0 and x.dt == 'i':
        return True
    if list in cs and isinstance(x, SymList):
        return True
    if str in cs and isinstance(x, SymStr):
        return True
    return builtins.isinstance(x, cs)


def h_str(x=''):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, Stored):
        return x._str()
    return str(x)


BUILTIN_HOOKS = dict(str=h_str, len=h_len, range=h_range, int=h_int, float=h_float, min=h_min, max=h_max, sum=h_sum, zip=h_zip,
                     enumerate=h_enumerate, list=h_list, print=h_print, isinstance=h_isinstance, bool=h_bool, abs=h_abs)

fmath = mod('math', **{k: getattr(_math, k) for k in dir(_math) if not k.startswith('_')})
fmath.ceil = m_ceil
fmath.floor = m_floor


class NpzFile(dict):
    pass


class SymStr:
    """an arbitrary string: concatenation of opaque parts"""

    def __init__(self, *parts):
        self.parts = tuple(parts)

    def __add__(self, o):
        return SymStr(*self.parts, *(o.parts if isinstance(o, SymStr) else (o,)))

    def __radd__(self, o):
        return SymStr(o, *self.parts)

    def norm(self):
        out = []
        for p in self.parts:
            if out and isinstance(p, str) and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        return tuple(out)

    def __eq__(self, o):
        return isinstance(o, (SymStr, str)) and self.norm() == (o if isinstance(o, SymStr) else SymStr(o)).norm()

    def __hash__(self):
        return hash(self.norm())

    def __repr__(self):
        return 'SymStr%r' % (self.parts,)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('string operation %s on an arbitrary string' % k)


def npz_name(p):
    """numpy appends .npz unless the name already has it (an arbitrary name is taken not to)"""
    if isinstance(p, str):
        return p if p.endswith('.npz') else p + '.npz'
    return p + '.npz'


def snapshot(v):
    if isinstance(v, dict):
        return {k: snapshot(x) for k, x in v.items()}
    if isinstance(v, list):
        return [snapshot(x) for x in v]
    if isinstance(v, Arr):
        return Arr(v.sh, v.fn, v.dt)
    return v


def np_savez(path, *a, **kw):
    if a:
        raise Unsupported('positional arrays in savez')
    C().events.append(('savez', path, kw, {k: snapshot(v) for k, v in kw.items()}))


class Stored:
    """A value read back from an npz file: numpy array holding what was saved."""

    def __init__(self, v):
        self.v = v

    def item(self):
        return self.v

    def tolist(self):
        return self.v

    def __str__(self):
        if isinstance(self.v, str):
            return self.v
        raise Unsupported('str of stored value')

    def _str(self):
        return self.v if isinstance(self.v, SymStr) else str(self)

    def __int__(self):
        return int(self.v)

    def __index__(self):
        return int(self.v)

    @property
    def shape(self):
        return asarr(self.v).shape

    def __getitem__(self, k):
        if k == ():
            return self.v
        raise Unsupported('index of stored value')

    def _as_arr(self):
        return asarr(self.v)


def np_load(path, allow_pickle=False, **kw):
    C().events.append(('load', path))
    for e in reversed(C().events[:-1]):
        if e[0] == 'savez' and npz_name(e[1]) == path:
            out = NpzFile()
            for k, v in e[3].items():
                if isinstance(v, dict) and not allow_pickle:
                    out[k] = PickleErr()
                elif isinstance(v, (dict, list)):
                    out[k] = Stored(snapshot(v))
                elif isinstance(v, Arr) and v.ndim > 0:
                    out[k] = v
                else:
                    out[k] = Stored(v)
            return out
    raise FileNotFoundError(path)


class PickleErr:
    def __getattr__(self, k):
        raise ValueError('Object arrays cannot be loaded when allow_pickle=False')


numpy = mod('numpy', savez=np_savez, load=np_load, **{k: getattr(jnp, k) for k in vars(jnp) if not k.startswith('_') and k not in ('linalg',)})
numpy.linalg = linalg

jaxtyping = mod('jaxtyping', Array=Arr, Float=_Sub(), Int=_Sub(), Bool=_Sub(), PyTree=_Sub(), PRNGKeyArray=object, Shaped=_Sub(), Key=_Sub(),
                Scalar=object, ArrayLike=object, Num=_Sub(), Integer=_Sub())


class _FloatAnn:
    def __getitem__(self, k):
        return object

    def __or__(self, o):
        return object

    __ror__ = __or__


typing_ext = types.ModuleType('typing_extensions')
typing_ext.Self = typing.Self
typing_ext.TypeVar = typing.TypeVar
typing_ext.override = lambda f: f

MODULES = {
    'jax': jax, 'jax.numpy': jnp, 'jax.lax': lax, 'jax.random': random, 'jax.tree_util': tree_util, 'jax.tree': jtree, 'jax.nn': nn,
    'jax.scipy': scipy, 'jax.scipy.linalg': slinalg, 'jax.scipy.stats': stats, 'jax.scipy.stats.multivariate_normal': mvn, 'jax.numpy.linalg': linalg,
    'equinox': eqx, 'equinox.nn': eqx.nn, 'optax': optax, 'diffrax': diffrax, 'jaxtyping': jaxtyping, 'numpy': numpy,
    'tqdm': mod('tqdm', tqdm=tqdm, trange=trange), 'math': fmath, 'typing_extensions': typing_ext,
}
MODULES['tqdm.auto'] = MODULES['tqdm']
REAL_OK = {'typing', 'abc', 'dataclasses', 'functools', 'itertools', 'collections', 'collections.abc', 'copy', 'operator', 'warnings',
           'logging', 'enum', 'os', 'sys', 'types', '__future__', 'contextlib', 'numbers', 'pathlib', 'json', 'time', 'inspect', 'string', 're'}
