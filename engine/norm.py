"""Canonical forms: multivariate polynomials over atoms with indicator (0/1) atoms,
sums of products, exp/log rules, Kronecker collapse, integer div/mod elimination.

All rewriting is over exact reals/integers.  Divisors are assumed non-zero (every
divisor met is recorded in Norm.divisors and reported)."""
from fractions import Fraction
from math import gcd
from . import ir
from .ir import T, const, mk, TRUE, FALSE, ZERO, ONE


def _k0(x):
    return ir.okey(x[0])


_k0w = _k0


class TooBig(Exception):
    pass


LIMIT = 4000


def _sym(t):
    """entries of symmetric matrices"""
    from . import ctx
    if len(t.args) == 3 and ctx.C is not None and t.args[0] in ctx.C.symmetric and ir.okey(t.args[2]) < ir.okey(t.args[1]):
        return mk('app', (t.args[0], t.args[2], t.args[1]), t.sort)
    return t


def padd(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pconst(c):
    return {(): Fraction(c)} if c else {}


def pvar(a, e=1):
    return {((a, e),): Fraction(1)}


def pscale(p, c):
    return {m: k * c for m, k in p.items()} if c else {}


class Norm:
    def __init__(self, entails=None, idem=None, positive=None, rules=()):
        self.memo = {}
        self.cmemo = {}
        self.entails = entails or (lambda c: None)
        self.idem = idem or (lambda a: False)
        self.pos = positive or (lambda a: False)
        self.rules = list(rules)
        self.divisors = set()
        self.ne_memo = {}
        self.depth = 0

    # ------------------------------------------------------------ monomials
    def mmul(self, m1, m2):
        """product of monomials -> poly (because of sqrt/indicator reduction)"""
        if not m1:
            return {m2: Fraction(1)}
        if not m2:
            return {m1: Fraction(1)}
        d = {}
        for a, e in m1:
            d[a] = e
        extra = None
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        out = []
        for a, e in d.items():
            if e == 0:
                continue
            if a.op == 'b2n' or self.idem(a):
                if e > 0:
                    e = 1
            elif a.op == 'fn' and a.args[0] == 'sqrt' and abs(e) >= 2:
                h, e2 = divmod(e, 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
                q = self.ppow(self.num(a.args[1]), h)
                extra = q if extra is None else self.pmul(extra, q)
                e = e2
                if e == 0:
                    continue
            elif a.op == 'fn' and a.args[0] == 'sign' and e > 1 and e % 2 == 1:
                e = 1
            out.append((a, e))
        # [0 < n] sum_{v<n} f = sum_{v<n} f   and   [n <= 0] sum_{v<n} f = 0
        ss = [a for a, e in out if a.op == 'sum' and e > 0]
        if ss and any(a.op == 'b2n' for a, e in out):
            for a in ss:
                b, keep = self._nonempty(a.args[2])
                for x, e in out:
                    if x is b:
                        if not keep:
                            return {}
                        out.remove((x, e))
                        break
        out.sort(key=_k0)
        r = {tuple(out): Fraction(1)}
        # mutually exclusive indicators  [i==a][i==b] with a-b a non-zero constant
        if extra is not None:
            r = self.pmul(r, extra)
        return r

    def _nonempty(self, n):
        """(indicator atom, keep): the atom is [0 < n] (keep) or [n <= 0]"""
        r = self.ne_memo.get(n)
        if r is None:
            p = self.ind(ir.lt(ZERO, n))
            r = (None, True)
            ms = [m for m in p if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][0].op == 'b2n':
                b = ms[0][0][0]
                if p == {ms[0]: 1}:
                    r = (b, True)
                elif p == {ms[0]: -1, (): 1}:
                    r = (b, False)
            self.ne_memo[n] = r
        return r

    def pmul(self, p, q):
        if len(p) * len(q) > LIMIT * 4:
            raise TooBig()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                for m, c in self.mmul(m1, m2).items():
                    v = r.get(m, 0) + c * c1 * c2
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        if len(r) > LIMIT:
            raise TooBig()
        return r

    def ppow(self, p, n):
        if n < 0:
            return self.ppow(self.pinv(p), -n)
        r = pconst(1)
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    def pinv(self, p):
        if not p:
            return pvar(mk('inv0', (), 'R'))
        if len(p) == 1:
            (m, c), = p.items()
            for a, e in m:
                if a.op == 'b2n':
                    self.divisors.add(a)
                self.divisors.add(a)
            return {tuple((a, -e) for a, e in m): 1 / c}
        # content: pull out common monomial factors and leading coefficient
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: min(e, d[a]) for a, e in common.items() if a in d and (e > 0) == (d[a] > 0)}
        lead = self.lead(p)
        c = p[lead]
        com = tuple(sorted(((a, e) for a, e in (common or {}).items()), key=_k0))
        q = self.pmul(p, {tuple((a, -e) for a, e in com): 1 / c})
        if len(q) == 1:
            return self.pmul(self.pinv(q), {tuple((a, -e) for a, e in com): 1 / c})
        t = self.to_term(q, 'R')
        self.divisors.add(t)
        r = {((t, -1),): 1 / c}
        return self.pmul(r, {tuple((a, -e) for a, e in com): Fraction(1)}) if com else r

    @staticmethod
    def mkey(m):
        return (-sum(abs(e) for _, e in m), tuple((ir.okey(a), e) for a, e in m))

    def lead(self, p):
        return min(p, key=self.mkey)

    # ------------------------------------------------------------ to term
    def mono_term(self, m):
        t = None
        for a, e in m:
            x = a if e == 1 else mk('pow', (a, e), a.sort if e > 0 else 'R')
            t = x if t is None else ir.mul(t, x)
        return t if t is not None else ONE

    def to_term(self, p, sort=None):
        if not p:
            return const(0, sort or 'I')
        t = None
        for m in sorted(p, key=self.mkey):
            c = p[m]
            mt = self.mono_term(m)
            if not m:
                x = const(c, 'I' if c.denominator == 1 else 'R')
            elif c == 1:
                x = mt
            else:
                x = ir.mul(const(c, 'I' if c.denominator == 1 else 'R'), mt)
            t = x if t is None else ir.add(t, x)
        return t

    # ------------------------------------------------------------ numeric terms
    def num(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._num(t)
            self.memo[t] = r
        return r

    def _num(self, t):
        o = t.op
        A = t.args
        if o == 'const':
            if t.sort == 'B':
                return pconst(1 if A[0] else 0)
            return pconst(A[0])
        if o in ('var', 'bv', 'special'):
            return pvar(t)
        if o == 'add':
            return padd(self.num(A[0]), self.num(A[1]))
        if o == 'sub':
            return padd(self.num(A[0]), self.num(A[1]), -1)
        if o == 'neg':
            return pscale(self.num(A[0]), -1)
        if o == 'mul':
            return self.pmul(self.num(A[0]), self.num(A[1]))
        if o == 'div':
            return self.pmul(self.num(A[0]), self.pinv(self.num(A[1])))
        if o == 'pow':
            return self.ppow(self.num(A[0]), A[1])
        if o == 'ite':
            c = self.ind(A[0])
            a, b = self.num(A[1]), self.num(A[2])
            if c == pconst(1):
                return a
            if not c:
                return b
            return padd(b, self.pmul(c, padd(a, b, -1)))
        if o == 'b2n':
            return self.ind(A[0])
        if o == 'sum':
            return self._sum(t)
        if o in ('idiv', 'imod'):
            return self._divmod(o, A[0], A[1])
        if o == 'fn':
            return self._fn(t)
        if o == 'app':
            return self._rules(_sym(mk('app', (A[0],) + tuple(self.canon(a) if isinstance(a, T) else a for a in A[1:]), t.sort)))
        return pvar(t)

    def _rules(self, a):
        for r in self.rules:
            x = r(a, self)
            if x is not None:
                return self.num(x)
        return pvar(a)

    def _fn(self, t):
        name = t.args[0]
        ps = [self.num(a) for a in t.args[1:]]
        if len(ps) == 1 and name in ('exp', 'tanh', 'log', 'sqrt', 'softplus', 'sin', 'cos'):
            r = self._fn_ind(name, ps[0], t)
            if r is not None:
                return r
        if name == 'tanh' and not ps[0]:
            return {}
        if name == 'exp':
            r = pconst(1)
            for m, c in ps[0].items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].args[0] == 'log' and c.denominator == 1:
                    r = self.pmul(r, self.ppow(self.num(m[0][0].args[1]), int(c)))
                    continue
                if c.denominator <= 1000 and abs(c.numerator) <= 1000:
                    base, e = {m: Fraction(1, c.denominator)}, c.numerator
                else:       # a decimal constant: kept whole (the power would lose all precision when evaluated)
                    base, e = {m: abs(c)}, (1 if c > 0 else -1)
                at = mk('fn', ('exp', self.to_term(base, 'R')), 'R')
                r = self.pmul(r, pvar(at, e))
            return r
        if name == 'log':
            p = ps[0]
            if len(p) == 1:
                (m, c), = p.items()
                if c > 0 and all(self.positive(a) for a, e in m):
                    r = {}
                    if c != 1:
                        r = padd(r, self._logconst(c))
                    for a, e in m:
                        if a.op == 'fn' and a.args[0] == 'exp':
                            r = padd(r, pscale(self.num(a.args[1]), e))
                        elif a.op == 'fn' and a.args[0] == 'sqrt':
                            r = padd(r, pscale(self._fn(mk('fn', ('log', a.args[1]), 'R')), Fraction(e, 2)))
                        else:
                            r = padd(r, pvar(mk('fn', ('log', a), 'R')), e)
                    return r
            return pvar(mk('fn', ('log', self.to_term(p, 'R')), 'R'))
        if name == 'sqrt':
            p = ps[0]
            if p == pconst(1):
                return p
            if not p:
                return {}
            return pvar(mk('fn', ('sqrt', self.to_term(p, 'R')), 'R'))
        if name in ('max', 'min'):
            a, b = [self.canon(x) for x in t.args[1:]]
            if a is b:
                return ps[0]
            c = self.bool(ir.le(a, b))
            e = True if c is TRUE else (False if c is FALSE else None)
            if e is None:
                e2 = self.bool(ir.le(b, a))
                e = False if e2 is TRUE else None
            if e is not None:
                return ps[1] if (e == (name == 'max')) else ps[0]
            if ir.okey(b) < ir.okey(a):
                a, b = b, a
            return pvar(mk('fn', (name, a, b), t.sort))
        if name == 'abs':
            p = ps[0]
            if not p:
                return p
            if p[self.lead(p)] < 0:
                p = pscale(p, -1)
            if len(p) == 1:
                (m, c), = p.items()
                if all(self.positive(a) for a, e in m):
                    return p
            return pvar(mk('fn', ('abs', self.to_term(p, t.sort)), t.sort))
        if name in ('floor', 'ceil'):
            p = ps[0]
            if all(self._intmono(m) and c.denominator == 1 for m, c in p.items()):
                return p
        return pvar(mk('fn', (name,) + tuple(self.to_term(p, 'R') for p in ps), t.sort))

    def _fn_ind(self, name, p, t):
        """f(c + [b] q) = [b] f(c + q) + (1 - [b]) f(c)"""
        common = None
        for m, c in p.items():
            if m:
                s = {a for a, e in m if a.op == 'b2n' and e > 0}
                common = s if common is None else common & s
                if not common:
                    return None
        if not common:
            return None
        a = min(common, key=ir.okey)
        q = {}
        for m, c in p.items():
            m2 = tuple((x, e) for x, e in m if x is not a)
            q = padd(q, {m2: c})
        rest = {m: c for m, c in p.items() if not m}
        f1 = self.num(mk('fn', (name, self.to_term(q, 'R')), 'R'))
        f0 = self.num(mk('fn', (name, self.to_term(rest, 'R')), 'R'))
        return padd(f0, self.pmul(pvar(a), padd(f1, f0, -1)))

    def _intmono(self, m):
        return all(a.sort == 'I' and e > 0 for a, e in m)

    def _logconst(self, c):
        r = {}
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            d = 2
            while n > 1 and d < 10000:
                while n % d == 0:
                    r = padd(r, pvar(mk('fn', ('log', const(d, 'I')), 'R')), s)
                    n //= d
                d += 1
            if n > 1:
                r = padd(r, pvar(mk('fn', ('log', const(n, 'I')), 'R')), s)
        return r

    def positive(self, a):
        if a.op == 'fn' and a.args[0] == 'exp':
            return True
        if a.op == 'fn' and a.args[0] == 'sqrt':
            return self.positive_poly(self.num(a.args[1]))
        if a.op == 'const':
            return a.args[0] > 0
        if a.op in ('add', 'mul', 'pow'):
            return self.positive_poly(self.num(a))
        if self.pos(a):
            return True
        if a.op == 'sum':
            vs, dims, body = self.open(a)
            r = self.positive_poly(self.num(body))
            self.depth -= 1
            return r
        if a.op == 'fn' and a.args[0] == 'softplus':
            return True
        return self.entails(ir.lt(ZERO, a)) is True

    def positive_poly(self, p):
        if not p:
            return False
        strict = False
        for m, c in p.items():
            if c <= 0:
                return False
            if all(self.positive(a) for a, e in m):
                strict = True
            elif not all(e % 2 == 0 or self.positive(a) for a, e in m):
                return False
        return strict

    def _sum(self, t):
        nn = self.canon(t.args[2])
        (v,), (n,), body = self.open(t)
        try:
            if nn.op != 'const':
                pn = self.num(nn)
                k = pn.get((), 0)
                if 0 < k <= 2 and k.denominator == 1:
                    base = self.to_term(padd(pn, pconst(-k)), 'I')
                    if self.entails(ir.le(ZERO, base)) is True:
                        # the last k terms on their own
                        r = self._sum1(t, v, base, base, body)
                        for j in range(int(k)):
                            r = padd(r, self.num(ir.subst(body, {v: ir.add(base, const(j))})))
                        return r
            return self._sum1(t, v, n, nn, body)
        finally:
            self.depth -= 1

    def open(self, t):
        d = self.depth
        while True:
            vs, dims, body = ir.open_at(t, d)
            if not any(v in t.fv for v in vs):
                break
            d += 1
        self.depth += 1
        return vs, dims, body

    def _sum1(self, t, v, n, nn, body):
        pb = self.num(body)
        r = {}
        for m, c in pb.items():
            free = tuple((a, e) for a, e in m if v not in a.fv)
            dep = tuple((a, e) for a, e in m if v in a.fv)
            if not dep:
                r = padd(r, self.pmul({free: c}, self.num(nn)))
                continue
            # Kronecker collapse
            hit = None
            for a, e in dep:
                if a.op == 'b2n' and a.args[0].op == 'eq0':
                    s = self.solve(a.args[0].args[0], v)
                    if s is not None:
                        hit = (a, s)
                        break
            if hit is not None:
                a0, s = hit
                rest = tuple((a, e) for a, e in m if a is not a0)
                rt = ir.mul(const(c, 'R') if c.denominator != 1 else const(c), self.mono_term(rest))
                rt = ir.subst(rt, {v: s})
                g = ir.and_(ir.le(ZERO, s), ir.lt(s, nn))
                r = padd(r, self.pmul(self.ind(g), self.num(rt)))
                continue
            s = ir.sum_(v, nn, self.mono_term(dep))
            if s.op == 'sum':
                p = None
                for rule in self.rules:
                    x = rule(s, self)
                    if x is not None:
                        p = self.num(x)
                        break
                if p is None:
                    p = pvar(s)
            else:
                p = self.num(s)
            r = padd(r, self.pmul({free: c}, p))
        return r

    def solve(self, pt, v):
        """pt == 0 linear in v with coefficient +-1 -> value of v"""
        p = self.num(pt)
        cv = None
        rest = {}
        for m, c in p.items():
            if len(m) == 1 and m[0][0] is v and m[0][1] == 1:
                cv = c
            else:
                for a, e in m:
                    if v in a.fv:
                        return None
                rest[m] = c
        if cv is None or abs(cv) != 1:
            return None
        return self.to_term(pscale(rest, -1 / cv), 'I')

    def _divmod(self, o, a, b):
        pa, pb = self.num(a), self.num(b)
        if o == 'imod':
            q = self._divmod('idiv', a, b)
            return padd(pa, self.pmul(pb, q), -1)
        q = {}
        r = dict(pa)
        if len(pb) == 1:
            (mb, cb), = pb.items()
            db = dict(mb)
            for m, c in list(pa.items()):
                d = dict(m)
                if all(d.get(x, 0) >= e for x, e in db.items()) and (c / cb).denominator == 1:
                    for x, e in db.items():
                        d[x] -= e
                    mm = tuple(sorted(((x, e) for x, e in d.items() if e), key=_k0))
                    q[mm] = q.get(mm, 0) + c / cb
                    del r[m]
        if not r:
            return q
        rt, bt = self.to_term(r, 'I'), self.to_term(pb, 'I')
        if bt is ONE:
            return padd(q, r)
        if ir.isconst(rt) and ir.isconst(bt) and bt.args[0] != 0:
            return padd(q, pconst(rt.args[0] // bt.args[0]))
        if self.entails(ir.and_(ir.le(ZERO, rt), ir.lt(rt, bt))) is True:
            return q
        if r[self.lead(r)] < 0 and self.entails(ir.lt(ZERO, bt)) is True:
            # floor(-m / t) = -1 - floor((m - 1) / t) for t > 0
            r2 = padd(pscale(r, -1), pconst(-1))
            d = self._divmod('idiv', self.to_term(r2, 'I'), bt)
            return padd(padd(q, pconst(-1)), d, -1)
        return padd(q, pvar(mk('idiv', (rt, bt), 'I')))

    # ------------------------------------------------------------ booleans
    def ind(self, c):
        """indicator polynomial of a boolean term"""
        c = self.bool(c)
        return self._ind(c)

    def _ind(self, c):
        if c is TRUE:
            return pconst(1)
        if c is FALSE:
            return {}
        if c.op == 'not':
            return padd(pconst(1), self._ind(c.args[0]), -1)
        if c.op == 'and':
            r = pconst(1)
            for x in c.args:
                r = self.pmul(r, self._ind(x))
            return r
        return pvar(mk('b2n', (c,), 'I'))

    def bool(self, c):
        r = self.cmemo.get(c)
        if r is None:
            r = self._bool(c)
            self.cmemo[c] = r
        return r

    def _bool(self, c):
        o = c.op
        A = c.args
        if o == 'const' or o in ('var', 'bv'):
            if o == 'var':
                e = self.entails(c)
                if e is not None:
                    return const(e)
            return c
        if o == 'lt':
            return self._cmp('lt0', padd(self.num(A[0]), self.num(A[1]), -1), A)
        if o == 'le':
            return ir.not_(self._cmp('lt0', padd(self.num(A[1]), self.num(A[0]), -1), A))
        if o == 'eq':
            if A[0].sort in 'KU':
                a, b = self.canon(A[0]), self.canon(A[1])
                return ir.eq(a, b)
            return self._cmp('eq0', padd(self.num(A[0]), self.num(A[1]), -1), A)
        if o == 'lt0':
            return self._cmp('lt0', self.num(A[0]), A)
        if o == 'eq0':
            return self._cmp('eq0', self.num(A[0]), A)
        if o == 'iff':
            a, b = self.bool(A[0]), self.bool(A[1])
            return ir.eq(a, b)
        if o == 'not':
            return ir.not_(self.bool(A[0]))
        if o == 'and':
            return ir.and_(*sorted([self.bool(x) for x in A], key=ir.okey))
        if o == 'ite':
            k, a, b = [self.bool(x) for x in A]
            return ir.and_(ir.implies(k, a), ir.implies(ir.not_(k), b))
        if o == 'all':
            cn = self.canon(c.args[2])
            (v,), (n,), body = self.open(c)
            b = self.bool(body)
            self.depth -= 1
            return ir.all_(v, cn, b)
        if o == 'app':
            r = mk('app', (A[0],) + tuple(self.canon(a) if isinstance(a, T) else a for a in A[1:]), 'B')
            e = self.entails(r)
            return const(e) if e is not None else r
        return c

    def _cmp(self, kind, p, A):
        if not p or (len(p) == 1 and () in p):
            c = p.get((), Fraction(0))
            return const(bool(c < 0 if kind == 'lt0' else c == 0))
        allint = all(self._intmono(m) or not m for m in p)
        # scale
        cs = list(p.values())
        g = abs(p[self.lead(p)])
        if allint:
            den = 1
            for c in cs:
                den = den * c.denominator // gcd(den, c.denominator)
            p = pscale(p, den)
            gg = 0
            for m, c in p.items():
                if m:
                    gg = gcd(gg, int(c))
            if kind == 'eq0':
                if gg > 1:
                    if int(p.get((), 0)) % gg:
                        return FALSE
                    p = pscale(p, Fraction(1, gg))
            elif gg > 1:
                # p < 0 : sum gg*x + c < 0  <=> x <= floor((-c-1)/gg)
                c = int(p.get((), 0))
                k = (-c - 1) // gg
                q = {m: v / gg for m, v in p.items() if m}
                p = padd(q, pconst(-k - 1))
        elif g != 1:
            p = pscale(p, 1 / g)
        if kind == 'eq0' and p[self.lead(p)] < 0:
            p = pscale(p, -1)
        flip = False
        if kind == 'lt0' and allint and p[self.lead(p)] < 0:
            # p<0 <=> not (p>=0) <=> not(-p-1 < 0)   (integers): canonical positive lead
            p = padd(pscale(p, -1), pconst(-1))
            flip = True
        t = mk(kind, (self.to_term(p, 'I' if allint else 'R'),), 'B')
        e = self.entails(t)
        if e is not None:
            return const(e if not flip else not e)
        return ir.not_(t) if flip else t

    # ------------------------------------------------------------ canonical terms
    def canon(self, t):
        if t.sort in ('R', 'I'):
            return self.to_term(self.num(t), t.sort)
        if t.sort == 'B':
            return self.bool(t)
        r = self.cmemo.get(t)
        if r is not None:
            return r
        if t.op == 'lam':
            cd = [self.canon(d) for d in t.args[2:-1]]
            vs, dims, body = self.open(t)
            r = ir.lam(vs, cd, self.canon(body))
            self.depth -= 1
        elif t.op == 'ite':
            c = self.bool(t.args[0])
            r = ir.ite(c, self.canon(t.args[1]), self.canon(t.args[2]))
        elif t.op == 'app':
            r = _sym(mk('app', (t.args[0],) + tuple(self.canon(a) if isinstance(a, T) else a for a in t.args[1:]), t.sort))
            for rule in self.rules:
                x = rule(r, self)
                if x is not None:
                    r = self.canon(x)
                    break
        else:
            r = t
        self.cmemo[t] = r
        return r

    # ------------------------------------------------------------ zero test with denominators
    def clear(self, p):
        """multiply out polynomial denominators; returns poly zero iff p zero (divisors != 0)"""
        for _ in range(12):
            worst = {}
            for m in p:
                for a, e in m:
                    if e < 0 and a.op in ('add', 'mul'):
                        worst[a] = min(worst.get(a, 0), e)
            if not worst:
                return p
            a, e = min(worst.items(), key=_k0w)
            r = {}
            pa = self.num(a)
            for m, c in p.items():
                d = dict(m)
                k = d.pop(a, 0)
                q = {tuple(sorted(d.items(), key=_k0)): c}
                q = self.pmul(q, self.ppow(pa, k - e))
                r = padd(r, q)
            p = r
        return p

    def is_zero(self, t):
        try:
            p = self.num(t)
            if not p:
                return True
            return not self.clear(p)
        except TooBig:
            return False
