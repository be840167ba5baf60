"""Numeric interpretation of terms: searches counter-valuations of obligations (refutation only;
never used to discharge anything)."""
import hashlib
import math
import random
from fractions import Fraction
from . import ir
from .ir import T

INF = float('inf')


class NoEval(Exception):
    pass


def _h(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), 'big')


def _u(*parts):
    return (_h(*parts) % (1 << 52)) / float(1 << 52)


def rnd(x):
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            return x
        return float('%.7g' % x) if abs(x) > 1e-9 else 0.0
    return x


class Val:
    """Interpretation with a seed.

    env: var -> value (by term); interp: name -> function(values...) ; dims default 2..4."""

    def __init__(self, seed, interp=None, ints=None, reals=None, limit=400000, scale=1):
        from .ctx import C
        self.scale = scale        # above one: larger values, with every intermediate value kept below 1e9 (rounding stays below the tolerance)
        self.C = C
        self.seed = seed
        self.rng = random.Random(seed)
        self.interp = interp or {}
        self.ints = ints or {}
        self.reals = reals or {}
        self.env = {}
        self.memo = {}
        self.draws = {}           # chosen values of uniform draws
        self.spread = 0           # integers without an upper bound reach this far
        self.budget = limit
        self.depth = 0

    # -------------------------------------------------------------- variables
    def setvar(self, v):
        if v.sort == 'I':
            r = self.C.ranges.get(v)
            lo, hi = 0, 4
            if r is not None:
                lo = self.ev(r[0], {}) if r[0] is not None else -3
                hi = self.ev(r[1], {}) if r[1] is not None else lo + 4
            nm = v.args[0]
            if self.spread and r is not None and r[1] is None and self.rng.random() < 0.6:
                return int(lo) + self.rng.randrange(self.spread)
            if nm in self.ints:
                f = self.ints[nm]
                return f(self) if callable(f) else f
            if hi <= lo:
                raise NoEval('empty range')
            return self.rng.randrange(int(lo), int(hi))
        if v.sort == 'R':
            f = self.reals.get(v.args[0])
            if f is not None:
                return f(self) if callable(f) else f
            if v.args[0] == 'pi':
                return math.pi
            return round(self.rng.uniform(-2, 2) * self.scale, 3)
        if v.sort == 'B':
            return self.rng.random() < 0.5
        return ('var', v.args[0])

    def value(self, v):
        if v not in self.env:
            self.env[v] = None
            self.env[v] = self.setvar(v)
        return self.env[v]

    # -------------------------------------------------------------- evaluation
    def ev(self, t, b=None):
        b = b or {}
        return self._ev(t, b)

    def _ev(self, t, b):
        if t.op == 'const':
            c = t.args[0]
            return c if isinstance(c, bool) else (int(c) if t.sort == 'I' and c.denominator == 1 else float(c))
        k = None
        if not t.fv:
            k = (t.id,)
        else:
            k = (t.id,) + tuple(b[v] for v in sorted(t.fv, key=lambda z: z.id) if v in b) if len(t.fv) < 12 else None
        if k is not None:
            r = self.memo.get(k, self)
            if r is not self:
                return r
        self.budget -= 1
        if self.budget < 0:
            raise NoEval('budget')
        self.depth += 1
        if self.depth > 3000:
            raise NoEval('depth')
        r = self._e(t, b)
        self.depth -= 1
        if k is not None:
            self.memo[k] = r
        return r

    def _e(self, t, b):
        o, A = t.op, t.args
        ev = lambda x: self._ev(x, b)
        if o in ('var', 'bv'):
            if t in b:
                return b[t]
            if o == 'bv':
                raise NoEval('free bound variable')
            return self.value(t)
        if o == 'special':
            return float(A[0])
        if o in ('add', 'sub', 'mul'):
            x, y = ev(A[0]), ev(A[1])
            x, y = _n(x), _n(y)
            return self.cap(x + y if o == 'add' else x - y if o == 'sub' else x * y)
        if o == 'neg':
            return -_n(ev(A[0]))
        if o == 'div':
            x, y = _n(ev(A[0])), _n(ev(A[1]))
            if y == 0:
                raise NoEval('division by zero')
            return self.cap(x / y)
        if o == 'pow':
            x = _n(ev(A[0]))
            if x == 0 and A[1] < 0:
                raise NoEval('division by zero')
            return self.cap(x ** A[1])
        if o in ('idiv', 'imod'):
            x, y = ev(A[0]), ev(A[1])
            if y == 0:
                raise NoEval('division by zero')
            return x // y if o == 'idiv' else x % y
        if o in ('lt', 'le'):
            x, y = _n(ev(A[0])), _n(ev(A[1]))
            return x < y if o == 'lt' else x <= y
        if o in ('eq', 'iff'):
            x, y = ev(A[0]), ev(A[1])
            return eqv(x, y)
        if o == 'lt0':
            return ev(A[0]) < 0
        if o == 'eq0':
            return eqv(ev(A[0]), 0)
        if o == 'not':
            return not ev(A[0])
        if o == 'and':
            return all(ev(x) for x in A)
        if o == 'ite':
            return ev(A[1]) if ev(A[0]) else ev(A[2])
        if o == 'b2n':
            return 1 if ev(A[0]) else 0
        if o == 'inv0':
            raise NoEval('1/0')
        if o in ('sum', 'all'):
            k, h = A[0], A[1]
            n = ev(A[2])
            v = ir.bv(h, 'I')
            b2 = dict(b)
            if o == 'sum':
                s = 0
                for i in range(int(n)):
                    b2[v] = i
                    s = s + _n(self._ev(A[-1], dict(b2)))
                return s
            for i in range(int(n)):
                b2[v] = i
                if not self._ev(A[-1], dict(b2)):
                    return False
            return True
        if o == 'lam':
            k, h = A[0], A[1]
            dims = [int(ev(d)) for d in A[2:-1]]
            out = []

            def go(p, b2):
                if p == k:
                    out.append(self._ev(A[-1], dict(b2)))
                    return
                for i in range(dims[p]):
                    b2[ir.bv(h + p, 'I')] = i
                    go(p + 1, b2)
            go(0, dict(b))
            return ('lam', tuple(dims), tuple(out))
        if o == 'fn':
            return self._fn(A[0], [_n(ev(x)) for x in A[1:]])
        if o == 'app':
            return self._app(t, b)
        raise NoEval(o)

    def cap(self, x):
        if self.scale != 1 and not abs(x) < 1e9:
            raise NoEval('too large')
        return x

    def _fn(self, f, x):
        try:
            if self.scale != 1 and f in ('exp', 'tanh', 'softplus') and abs(x[0]) > 12:
                raise NoEval('too large')
            if f == 'exp': return math.exp(x[0]) if x[0] < 700 else INF
            if f == 'log':
                if x[0] <= 0:
                    raise NoEval('log of non-positive')
                return math.log(x[0])
            if f == 'sqrt':
                if x[0] < 0:
                    raise NoEval('sqrt of negative')
                return math.sqrt(x[0])
            if f == 'tanh': return math.tanh(x[0])
            if f == 'sin': return math.sin(x[0])
            if f == 'cos': return math.cos(x[0])
            if f == 'abs': return abs(x[0])
            if f == 'sign': return (x[0] > 0) - (x[0] < 0)
            if f == 'floor': return math.floor(x[0])
            if f == 'ceil': return math.ceil(x[0])
            if f == 'max': return max(x)
            if f == 'min': return min(x)
            if f == 'softplus': return math.log1p(math.exp(-abs(x[0]))) + max(x[0], 0)
        except (OverflowError, ValueError):
            raise NoEval(f)
        raise NoEval(f)

    def _app(self, t, b):
        A = t.args
        name = A[0]
        sd = self.C.scans.get(name)
        if sd is not None:
            args = [self._ev(a, b) for a in A[1:]]
            return self._scan(sd, name, args)
        f = self.interp.get(name)
        args = [self._ev(a, b) if isinstance(a, T) else a for a in A[1:]]
        if f is not None:
            return f(self, *args)
        s = t.sort
        if name == 'split':
            return ('split', args[0], args[1], args[2])
        if s == 'K':
            return (name,) + tuple(args)
        if name == 'uniform':
            u = self.draws.get(tuple(map(rndt, args)))
            if u is not None:
                return u
            return 0.001 + 0.998 * _u(self.seed, name, tuple(map(rndt, args)))
        if name == 'normal' or name == 'mvn':
            return 2.4 * _u(self.seed, name, tuple(map(rndt, args))) - 1.2
        if name == 'perm':
            key, n, i = args
            p = list(range(int(n)))
            random.Random(_h(self.seed, key)).shuffle(p)
            return p[int(i)] if 0 <= i < n else 0
        if name in ('choice',):
            return _h(self.seed, name, tuple(map(rndt, args))) % max(1, int(args[1]))
        if name == 'choice_noreplace':
            key, n, m, i = args[:4]
            p = list(range(int(n)))
            random.Random(_h(self.seed, key)).shuffle(p)
            return p[int(i)] if 0 <= i < n else 0
        if name == 'isfinite':
            return math.isfinite(args[0])
        if name == 'isnan':
            return math.isnan(args[0])
        if name == 'isinf':
            return math.isinf(args[0])
        if name in LINALG:
            return LINALG[name](*args)
        if s == 'U':
            return (name,) + tuple(rndt(a) for a in args)
        return self.smooth(name, args, s)

    def _scan(self, sd, name, args):
        key = ('scan', name, tuple(args))
        r = self.memo.get(key, self)
        if r is not self:
            return r
        fv, init, step = sd.parts(name)[0], sd.parts(name)[3], sd.parts(name)[4]
        tt = int(args[0])
        idx, g = args[1:1 + len(fv)], args[1 + len(fv):]
        m = dict(zip(fv, idx))
        m.update(zip(sd.gens, g))
        if tt <= 0:
            r = self._ev(init, m)
        else:
            # values at earlier times are memoised bottom-up to keep the recursion shallow
            for s in range(max(0, tt - 3), tt - 1):
                pass
            m[sd.j] = tt - 1
            r = self._ev(step, m)
        self.memo[key] = r
        return r

    def smooth(self, name, args, sort):
        """a fixed smooth function of the real arguments, arbitrary in the discrete ones"""
        flat = []
        disc = [name, self.seed]

        def go(a):
            if isinstance(a, bool):
                disc.append(a)
            elif isinstance(a, int):
                disc.append(a)
            elif isinstance(a, float):
                flat.append(a)
            elif isinstance(a, tuple) and a and a[0] == 'lam':
                disc.append(a[1])
                for x in a[2]:
                    # integral values inside tensors behave like reals
                    flat.append(float(x)) if isinstance(x, (int, float)) and not isinstance(x, bool) else go(x)
            else:
                disc.append(rndt(a))
        for a in args:
            go(a)
        key = tuple(disc)
        if any(not math.isfinite(x) for x in flat):
            raise NoEval('non-finite argument')
        v = 4 * _u('c', key) - 2
        for k, x in enumerate(flat):
            w = 2 * _u('w', key, k) - 1
            v += w * math.sin(x * (0.5 + _u('f', key, k)) + k) + 0.25 * w * x
        for k in range(len(flat) - 1):
            v += 0.3 * math.sin(flat[k] * flat[k + 1] + _u('x', key, k))
        if sort == 'B':
            return v > 0
        if sort == 'I':
            return int(math.floor(v * 3))
        if self.C.positive_syms and name in self.C.positive_syms:
            return abs(v) + 0.1
        return v * self.scale if sort == 'R' else v


def rndt(x):
    if isinstance(x, tuple):
        return tuple(rndt(y) for y in x)
    return rnd(float(x)) if isinstance(x, float) else x


def _n(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, tuple):
        raise NoEval('non-numeric')
    return x


def eqv(x, y, tol=1e-5):
    if isinstance(x, tuple) or isinstance(y, tuple):
        if not (isinstance(x, tuple) and isinstance(y, tuple)) or len(x) != len(y):
            return False
        return all(eqv(a, b, tol) for a, b in zip(x, y))
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        if isinstance(x, int) and isinstance(y, int):
            return x == y
        if x != x or y != y:
            return False
        if x == y:
            return True
        return abs(x - y) <= tol * max(1.0, abs(x), abs(y))
    return x == y


# ---------------------------------------------------------------- linear algebra on ('lam', dims, values)
def _mat(l):
    import numpy as np
    return np.array(l[2], dtype=float).reshape(l[1])


def _inv(i, j, m):
    import numpy as np
    return float(np.linalg.inv(_mat(m))[i, j])


def _chol(i, j, m):
    import numpy as np
    try:
        return float(np.linalg.cholesky(_mat(m))[i, j])
    except np.linalg.LinAlgError:
        raise NoEval('cholesky')


def _det(m):
    import numpy as np
    return float(np.linalg.det(_mat(m)))


def _lad(m):
    import numpy as np
    return float(np.linalg.slogdet(_mat(m))[1])


def _solve(*a):
    import numpy as np
    i, A, b = a[:-2], a[-2], a[-1]
    return float(np.linalg.solve(_mat(A), _mat(b))[tuple(i)])


def _cov(i, j, m):
    import numpy as np
    return float(np.atleast_2d(np.cov(_mat(m)))[i, j])


def _mvnlp(y, c):
    import numpy as np
    C_, v = _mat(c), _mat(y)
    s, ld = np.linalg.slogdet(C_)
    if s <= 0:
        raise NoEval('covariance')
    return float(-0.5 * v @ np.linalg.solve(C_, v) - 0.5 * (ld + len(v) * math.log(2 * math.pi)))


def _argm(f):
    return lambda m: m[2].index(f(m[2]))


def _mred(f):
    return lambda m: f(m[2])


LINALG = {'inv': _inv, 'chol': _chol, 'det': _det, 'logabsdet': _lad, 'solve': _solve, 'cov': _cov, 'mvn.logpdf': _mvnlp,
          'redmax': _mred(max), 'redmin': _mred(min), 'argmax': _argm(max), 'argmin': _argm(min)}


SCALES = (1, 1, 1, 25, 1, 1, 80)


def refute(goal, hyps, tries=40, interp=None, ints=None, reals=None, seconds=6.0):
    """-> ('refuted', valuation dict) | ('supported', number of valuations) | ('none', reason)"""
    import time
    t0 = time.process_time()
    okc = 0
    why = ''
    for s in range(tries):
        if time.process_time() - t0 > seconds:
            break
        v = Val(s + 1, interp, ints, reals, scale=SCALES[s % len(SCALES)])
        try:
            if not all(v.ev(h) for h in hyps):
                why = why or 'hypotheses not met'
                continue
            r = falsifies(v, goal)
        except NoEval as e:
            why = str(e)
            continue
        except (OverflowError, ZeroDivisionError, RecursionError, ValueError) as e:
            why = repr(e)
            continue
        if not r and s < 24:
            try:
                r = between(v, goal, hyps)
            except (NoEval, OverflowError, ZeroDivisionError, RecursionError, ValueError):
                r = False
        if r:
            return 'refuted', {k.args[0]: val for k, val in v.env.items() if isinstance(val, (int, float, bool))}
        okc += 1
    # bounds written into the code: sizes around and beyond every larger integer constant of the goal
    big = [int(t.args[0]) for t in ir.subterms(goal) if t.op == 'const' and t.sort == 'I' and 4 < abs(t.args[0]) <= 10 ** 7]
    t0 = time.process_time()
    for s in range(400 if big else 0):
        if time.process_time() - t0 > min(seconds, 3.0):
            break
        v = Val(1000 + s, interp, ints, reals, limit=60000)
        v.spread = 2 * abs(big[s % len(big)]) + 8
        try:
            if all(v.ev(h) for h in hyps) and falsifies(v, goal):
                return 'refuted', {k.args[0]: val for k, val in v.env.items() if isinstance(val, (int, float, bool))}
        except Exception:
            continue
    if okc:
        return 'supported', okc
    return 'none', why


def loose(t):
    return any(x.op == 'bv' for x in t.fv)


def between(v, goal, hyps):
    """move the uniform draws to where two comparisons of the goal with them disagree"""
    subs = ir.subterms(goal)
    us = [t for t in subs if t.op == 'app' and t.args[0] == 'uniform' and not loose(t)]
    if not us or len(us) > 4 or 'uniform' in v.interp:
        return False
    for t in us:
        try:
            key = tuple(rndt(v.ev(a)) if isinstance(a, T) else a for a in t.args[1:])
            u0 = v.ev(t)
        except NoEval:
            continue
        if not isinstance(u0, float):
            continue
        cuts = []
        for a in subs:
            if a.op in ('lt', 'le') and not loose(a) and t in ir.subterms(a):
                try:
                    d = []
                    for u in (u0, u0 * 0.5):
                        v.draws = {key: u}
                        v.memo = {}
                        d.append(v.ev(a.args[0]) - v.ev(a.args[1]))
                    for f, g in ((math.log, math.exp), (float, float)):
                        k = f(u0 * 0.5) - f(u0)
                        for sg in (1, -1):
                            if abs((d[1] - d[0]) - sg * k) <= 1e-9 * max(1, abs(d[0])):
                                c = f(u0) - sg * d[0]
                                if c < 5:
                                    cuts.append(g(c))
                except (NoEval, OverflowError, ZeroDivisionError, RecursionError, ValueError, TypeError):
                    pass
        v.draws = {}
        v.memo = {}
        cuts = sorted({c for c in cuts if 1e-30 < c < 1})
        if len(cuts) > 12:
            continue
        pts = [0.0] + cuts + [1.0]
        tries = [(lo + hi) / 2 for lo, hi in zip(pts, pts[1:]) if hi - lo > 1e-4 * hi]
        tries += [c * f for c in cuts[:4] for f in (0.9998, 1.0002, 0.97, 1.03) if c * f < 1]      # right beside a threshold
        for u in tries:
            v.draws = {key: u}
            v.memo = {}
            if all(v.ev(h) for h in hyps) and falsifies(v, goal):
                return True
        v.draws = {}
        v.memo = {}
    return False


_SAME = {}


def identical(a, b):
    """equal by algebra alone"""
    k = (a, b)
    if k not in _SAME:
        from .norm import Norm, TooBig
        try:
            _SAME[k] = not Norm().num(ir.sub(a, b))
        except TooBig:
            _SAME[k] = False
    return _SAME[k]


def falsifies(v, goal):
    """goal false with margin (equalities beyond rounding)"""
    o = goal.op
    if o == 'and':
        return any(falsifies(v, g) for g in goal.args)
    if o == 'not':
        g = goal.args[0]
        if g.op == 'and':
            return all(holds(v, x) for x in g.args)
        return holds(v, g)
    if o == 'all':
        k, h = goal.args[0], goal.args[1]
        n = v.ev(goal.args[2])
        (vv,), (nn,), body = ir.open_binder(goal)
        for i in range(int(n)):
            w = ir.subst(body, {vv: ir.const(i)})
            if falsifies(v, w):
                return True
        return False
    if o in ('lt', 'le'):
        x, y = v.ev(goal.args[0]), v.ev(goal.args[1])
        if isinstance(x, float) or isinstance(y, float):
            if o == 'lt' and abs(x - y) <= 1e-6 * max(1, abs(x), abs(y)) and identical(*goal.args):
                return True
            return x > y + 1e-6 * max(1, abs(x), abs(y))
        return not v.ev(goal)
    return not v.ev(goal)


def holds(v, g):
    o = g.op
    if o == 'and':
        return all(holds(v, x) for x in g.args)
    if o == 'not':
        return falsifies(v, g.args[0])
    if o in ('lt', 'le'):
        x, y = v.ev(g.args[0]), v.ev(g.args[1])
        if isinstance(x, float) or isinstance(y, float):
            return x < y - 1e-6 * max(1, abs(x), abs(y))
    return v.ev(g)
