"""Discharging obligations: ring normaliser, unfolding of sequences, case splits, z3 (cvc5 as
second back end)."""
import time
import z3
from . import ir
from .ir import T, const, mk, TRUE, FALSE, ZERO, ONE
from .norm import Norm, TooBig

STATS = {'z3_s': 0.0, 'z3_calls': 0, 'cvc5_s': 0.0, 'cvc5_calls': 0}

_qcache = {}
_SZ = {'R': None}


def clear():
    _qcache.clear()
    _trcache.clear()


# ---------------------------------------------------------------- z3 translation
KS = z3.DeclareSort('Key')
US = z3.DeclareSort('Obj')
_sorts = {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort(), 'K': KS, 'U': US}
_funs = {}
_trcache = {}


def zfun(name, argsorts, sort):
    key = (name, tuple(str(s) for s in argsorts), str(sort))
    f = _funs.get(key)
    if f is None:
        nm = '%s/%d' % (name, len(_funs))
        f = z3.Function(nm, *argsorts, sort) if argsorts else z3.Const(nm, sort)
        _funs[key] = f
    return f


def _real(x):
    if x.sort() == z3.IntSort():
        return z3.ToReal(x)
    if x.sort() == z3.BoolSort():
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    return x


def _factors(t, out):
    if t.op == 'mul':
        _factors(t.args[0], out)
        _factors(t.args[1], out)
    else:
        out.append(t)
    return out


def _exparg(f):
    if f.op == 'fn' and f.args[0] == 'exp':
        return f.args[1]
    if f.op == 'pow' and f.args[0].op == 'fn' and f.args[0].args[0] == 'exp':
        return ir.mul(const(f.args[1], 'R'), f.args[0].args[1])
    return None


def merge_exps(t):
    """exp(a)^n * exp(b) * r -> exp(n a + b) * r"""
    fs = _factors(t, [])
    es, rest, pw = [], [], False
    for f in fs:
        e = _exparg(f)
        if e is None:
            rest.append(f)
        else:
            es.append(e)
            pw = pw or f.op == 'pow'
    if not (pw or len(es) > 1):
        return None
    r = ir.fn('exp', ir.addn(*es) if hasattr(ir, 'addn') else _addl(es))
    for f in rest:
        r = ir.mul(f, r)
    return r


def _addl(es):
    r = es[0]
    for e in es[1:]:
        r = ir.add(r, e)
    return r


class Tr:
    """Translate terms; collects side facts (function axioms, instances)."""

    def __init__(self, bvmap=None, side=None):
        self.side = side if side is not None else []
        self.memo = {}
        self.bv = bvmap or {}
        self.exps = []
        self.logs = []
        self.sqrts = []
        self.pending_vars = set()

    def coerce(self, a, b):
        if a.sort() == b.sort():
            return a, b
        return _real(a), _real(b)

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._tr(t)
            self.memo[t] = r
        return r

    def opaque(self, t, prefix):
        """UF keyed by the skeleton of t, applied to its maximal independent scalar sub-terms."""
        args = []
        m = {}

        def abstr(x, bound):
            # x: sub-term; bound: set of bv terms bound inside t
            if x in m:
                return m[x]
            if x.sort in ('I', 'R', 'K', 'U', 'B') and x.fv and not (x.fv & bound) and not any(b.op == 'bv' and b not in self.bv for b in x.fv):
                if x.sort == 'B':
                    pass
                else:
                    ph = ir.var('hole%d%s' % (len(args), x.sort), x.sort)
                    args.append(x)
                    m[x] = ph
                    return ph
            if not x.fv or x.op in ('var', 'bv', 'const', 'special'):
                return x
            if x.op in ('sum', 'all', 'lam'):
                k, h = x.args[0], x.args[1]
                b2 = bound | {ir.bv(h + i, 'I') for i in range(k)}
                dims = tuple(abstr(d, bound) for d in x.args[2:-1])
                body = abstr(x.args[-1], b2)
                return mk(x.op, (k, h) + dims + (body,), x.sort)
            a = tuple(abstr(y, bound) if isinstance(y, T) else y for y in x.args)
            return mk(x.op, a, x.sort)

        if t.op in ('sum', 'all', 'lam'):
            k, h = t.args[0], t.args[1]
            b2 = frozenset(ir.bv(h + i, 'I') for i in range(k))
            dims = tuple(abstr(d, frozenset()) for d in t.args[2:-1])
            sk = mk(t.op, (k, h) + dims + (abstr(t.args[-1], b2),), t.sort)
        else:
            a = tuple((abstr(y, frozenset()) if isinstance(y, T) else y) for y in t.args)
            sk = mk(t.op, a, t.sort)
        zs = [self.tr(a) for a in args]
        f = zfun('%s_%d' % (prefix, sk.id), [z.sort() for z in zs], _sorts[t.sort])
        return f(*zs) if zs else f

    def _tr(self, t):
        o, A = t.op, t.args
        if o == 'const':
            if t.sort == 'B':
                return z3.BoolVal(A[0])
            if t.sort == 'I' and A[0].denominator == 1:
                return z3.IntVal(int(A[0]))
            return z3.RealVal(str(A[0]))
        if o == 'var':
            self.pending_vars.add(t)
            return zfun('v:' + A[0], [], _sorts[t.sort])
        if o == 'bv':
            if t in self.bv:
                return self.bv[t]
            return zfun('bv%d' % A[0], [], _sorts[t.sort])
        if o == 'special':
            return zfun('special_' + A[0], [], _sorts[t.sort])
        if o == 'mul':
            m = merge_exps(t)
            if m is not None:
                return self.tr(m)
        if o in ('add', 'sub', 'mul'):
            a, b = self.coerce(self.tr(A[0]), self.tr(A[1]))
            if a.sort() == z3.BoolSort():
                a, b = _real(a), _real(b)
            return a + b if o == 'add' else a - b if o == 'sub' else a * b
        if o == 'neg':
            return -self.tr(A[0])
        if o == 'div':
            return _real(self.tr(A[0])) / _real(self.tr(A[1]))
        if o == 'pow':
            a = self.tr(A[0])
            n = A[1]
            if n < 0:
                a = _real(a)
            r = None
            for _ in range(abs(n)):
                r = a if r is None else r * a
            if r is None:
                return z3.RealVal(1)
            return 1 / r if n < 0 else r
        if o in ('idiv', 'imod'):
            a, b = self.tr(A[0]), self.tr(A[1])
            q = zfun('idiv', [z3.IntSort()] * 2, z3.IntSort())(a, b)
            self.side.append(z3.Implies(b > 0, z3.And(q * b <= a, a < q * b + b)))
            return q if o == 'idiv' else a - b * q
        if o == 'fn':
            return self._fn(t)
        if o == 'app':
            if any(isinstance(a, T) and a.sort == 'L' for a in A[1:]):
                return self.opaque(t, 'o')
            zs = [self.tr(a) for a in A[1:] if isinstance(a, T)]
            nm = A[0] + ''.join(':%s' % a for a in A[1:] if not isinstance(a, T))
            f = zfun('f:' + nm, [z.sort() for z in zs], _sorts[t.sort])
            return f(*zs) if zs else f
        if o in ('sum', 'lam'):
            return self.opaque(t, 's')
        if o in ('lt', 'le'):
            a, b = self.coerce(self.tr(A[0]), self.tr(A[1]))
            return a < b if o == 'lt' else a <= b
        if o == 'lt0':
            return self.tr(A[0]) < 0
        if o == 'eq0':
            return self.tr(A[0]) == 0
        if o in ('eq', 'iff'):
            if A[0].sort == 'L' or A[1].sort == 'L':
                return self.opaque(t, 'leq')
            a, b = self.coerce(self.tr(A[0]), self.tr(A[1]))
            return a == b
        if o == 'not':
            return z3.Not(self.tr(A[0]))
        if o == 'and':
            return z3.And(*[self.tr(x) for x in A])
        if o == 'ite':
            a, b = self.coerce(self.tr(A[1]), self.tr(A[2]))
            return z3.If(self.tr(A[0]), a, b)
        if o == 'b2n':
            return z3.If(self.tr(A[0]), z3.IntVal(1), z3.IntVal(0))
        if o == 'all':
            (v,), (n,), body = ir.open_binder(t)
            zv = z3.Int('q!%s' % v.args[0])
            sub = Tr(dict(self.bv), [])
            sub.memo = {v: zv}
            zb = sub.tr(body)
            # side facts mentioning the bound variable are assumed inside (they are valid axioms)
            inner = sub.side
            zn = self.tr(n)
            if inner:
                zb = z3.Implies(z3.And(*inner), zb)
            return z3.ForAll([zv], z3.Implies(z3.And(zv >= 0, zv < zn), zb))
        if o == 'inv0':
            return zfun('inv0', [], z3.RealSort())
        raise ValueError('z3: ' + o)

    def _fn(self, t):
        name = t.args[0]
        # an opaque value under a real function stands for some number
        zs = [z if z3.is_arith(z) or z3.is_bool(z) else zfun('num', [z.sort()], z3.RealSort())(z) for z in (self.tr(a) for a in t.args[1:])]
        if name == 'abs':
            return z3.If(zs[0] >= 0, zs[0], -zs[0])
        if name == 'sign':
            return z3.If(zs[0] > 0, 1, z3.If(zs[0] < 0, -1, 0))
        if name in ('max', 'min'):
            a, b = self.coerce(zs[0], zs[1])
            return z3.If((a >= b) if name == 'max' else (a <= b), a, b)
        if name == 'floor':
            return z3.ToInt(_real(zs[0]))
        if name == 'ceil':
            return -z3.ToInt(-_real(zs[0]))
        zs = [_real(z) for z in zs]
        f = zfun('fn_' + name, [z3.RealSort()] * len(zs), z3.RealSort())
        r = f(*zs)
        if name == 'exp':
            self.side.append(r > 0)
            self.side.append(z3.And((zs[0] <= 0) == (r <= 1), (zs[0] < 0) == (r < 1)))
            for (x, y) in self.exps:
                self.side.append(z3.And((zs[0] < x) == (r < y), (zs[0] == x) == (r == y)))
            if len(self.exps) < 12:
                self.exps.append((zs[0], r))
        elif name == 'log':
            for (x, y) in self.logs:
                self.side.append(z3.Implies(z3.And(zs[0] > 0, x > 0), z3.And((zs[0] < x) == (r < y), (zs[0] == x) == (r == y))))
            self.side.append(z3.Implies(zs[0] > 0, z3.And((zs[0] < 1) == (r < 0), (zs[0] == 1) == (r == 0))))
            if len(self.logs) < 12:
                self.logs.append((zs[0], r))
        elif name == 'sqrt':
            self.side.append(z3.Implies(zs[0] >= 0, z3.And(r >= 0, r * r == zs[0])))
        elif name == 'tanh':
            self.side.append(z3.And(r < 1, r > -1))
        elif name == 'softplus':
            self.side.append(r > 0)
        return r


def _range_facts(vs):
    from .ctx import C
    out = []
    for v in vs:
        r = C.ranges.get(v)
        if r is not None:
            lo, hi = r
            if lo is not None:
                out.append(ir.le(lo, v))
            if hi is not None:
                out.append(ir.lt(v, hi))
    return out


def _apps(ts):
    seen = set()
    for t in ts:
        ir.subterms(t, seen, into_binders=True)
    return [x for x in seen if x.op == 'app']


def all_facts(goal_terms, hyps=()):
    """facts + path + hyps + ranges (transitively) + schema instances"""
    from .ctx import C
    facts = list(C.facts) + list(C.path) + list(hyps)
    have = set(facts)
    work = list(goal_terms) + list(hyps) + list(C.path) + list(C.facts)
    seenv = set()
    seena = set()
    seen = set()
    k = 0
    stk = list(work)
    out = []
    rounds = 0
    while stk and rounds < 4000:
        rounds += 1
        t = stk.pop()
        for v in t.fv:
            if v not in seenv:
                seenv.add(v)
                for f in _range_facts([v]):
                    if f not in have:
                        have.add(f)
                        out.append(f)
                        stk.append(f)
        if C.schemas:
            st = [t]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == 'app':
                    for s in C.schemas:
                        for f in s(x) or ():
                            # ignore instances mentioning bound variables of enclosing binders
                            if any(b.op == 'bv' for b in f.fv):
                                continue
                            if f not in have:
                                have.add(f)
                                out.append(f)
                                stk.append(f)
                for a in x.args:
                    if isinstance(a, T):
                        st.append(a)
    return facts + out


def zcheck(facts, goal=None, timeout=400, nl=True):
    """z3 check of facts ∧ ¬goal. -> 'unsat'|'sat'|'unknown', model"""
    t0 = time.time()
    tr = Tr()
    s = z3.Solver()
    s.set('rlimit', int(timeout * 2000))        # a deterministic limit; the clock is only a safety net
    s.set('timeout', 8 * int(timeout))
    for f in facts:
        s.add(tr.tr(f))
    if goal is not None:
        s.add(z3.Not(tr.tr(goal)))
    for x in tr.side:
        s.add(x)
    r = s.check()
    STATS['z3_s'] += time.time() - t0
    STATS['z3_calls'] += 1
    return str(r), (s, tr)


def _qfacts(c, hyps=()):
    return all_facts([c], hyps)


def _key():
    from .ctx import C
    return (tuple(f.id for f in C.facts), tuple(p.id for p in C.path))


def quick(c, hyps=(), timeout=250):
    """True / False / None"""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c.sort != 'B':
        return None
    k = (_key(), tuple(h.id for h in hyps), c.id)
    r = _qcache.get(k, 0)
    if r != 0:
        return r
    if any(x.op == 'bv' for x in c.fv):
        _qcache[k] = None
        return None
    fs = _qfacts(c, hyps)
    if c in fs:
        r = True
    elif ir.not_(c) in fs:
        r = False
    else:
        r = None
        try:
            if zcheck(fs, c, timeout)[0] == 'unsat':
                r = True
            elif zcheck(fs, ir.not_(c), timeout)[0] == 'unsat':
                r = False
        except z3.Z3Exception:
            r = None
    _qcache[k] = r
    return r


def inconsistent(hyps=()):
    from .ctx import C
    fs = all_facts([], hyps)
    if FALSE in fs:
        return True
    try:
        return zcheck(fs, None, 600)[0] == 'unsat'
    except z3.Z3Exception:
        return False


# ---------------------------------------------------------------- sequences
def unfold_rule(a, norm):
    from .ctx import C
    if a.op != 'app':
        return None
    sd = C.scans.get(a.args[0])
    if sd is None:
        return None
    t = a.args[1]
    p = norm.num(t)
    if not p:
        return sd.at_zero(a.args[0], a.args[1:])
    c0 = p.get((), 0)
    if c0 >= 1 and sd.info.get('unfold', True):
        prev = norm.canon(ir.sub(t, ONE))
        return sd.succ(a.args[0], a.args[1:], prev)
    return None


# ---------------------------------------------------------------- prover
class Result:
    def __init__(self, ok, how, detail=''):
        self.ok = ok
        self.how = how
        self.detail = detail

    def __bool__(self):
        return bool(self.ok)


class Prover:
    def __init__(self, hyps=(), rules=(), idem=None, positive=None, budget=30.0, depth=8, ztimeout=4000, divisors_nonzero=True):
        self.hyps = list(hyps)
        self.rules = list(rules)
        self.idem = idem
        self.positive = positive
        self.deadline = time.process_time() + budget
        self.depth = depth
        self.zt = ztimeout
        self.backends = set()
        self.divisors = set()
        self.stuck = None

    def norm(self, hyps):
        hy = list(hyps)

        def ent(c):
            if not _relevant(c):
                return None
            return quick(c, hy)

        def pos(a):
            if self.positive and self.positive(a):
                return True
            return False
        from .ctx import C
        n = Norm(ent, self.idem, pos, rules=[unfold_rule] + C.rules + self.rules)
        n.divisors = self.divisors
        return n

    def prove(self, goal):
        try:
            r = self._prove(goal, self.hyps, self.depth)
        except TooBig:
            r = False
            self.stuck = goal
        if r:
            return Result(True, '+'.join(sorted(self.backends)) or 'normaliser')
        return Result(False, 'stuck', self.stuck)

    def _prove(self, goal, hyps, depth):
        if goal is TRUE:
            self.backends.add('normaliser')
            return True
        if goal in hyps or goal.op == 'eq' and goal.args[0] is goal.args[1]:
            return True                      # the same term (same computation, same arguments) on both sides
        if time.process_time() > self.deadline:
            self.stuck = goal
            return False
        if goal.op == 'and':
            return all(self._prove(g, hyps, depth) for g in goal.args)
        if goal.op == 'all':
            (v,), (n,), body = ir.open_binder(goal)
            from .ctx import C
            C.ranges[v] = (ZERO, n)
            return self._prove(body, hyps, depth)
        if goal.op == 'not' and goal.args[0].op == 'and':
            # disjunction / implication: assume all but one conjunct, prove its negation
            cs = list(goal.args[0].args)
            neg = [c for c in cs if c.op == 'not']
            tgt = neg[-1] if neg else cs[-1]
            rest = [c for c in cs if c is not tgt]
            h2 = list(hyps)
            nn = self.norm(hyps)
            for c in rest:
                for z in (c.args if c.op == 'and' else [c]):
                    h2.append(z)
                    b = nn.bool(z)
                    if b is not z:
                        h2.extend(b.args if b.op == 'and' else [b])
            return self._prove(ir.not_(tgt), h2, depth)
        n = self.norm(hyps)
        g = n.bool(goal)
        if g is TRUE:
            self.backends.add('normaliser')
            return True
        if g is not goal and g.op in ('and', 'all') or (g.op == 'not' and g.args[0].op == 'and'):
            return self._prove(g, hyps, depth) if g is not goal else False
        if g.op == 'eq0':
            p = n.num(g.args[0])
            if not n.clear(p):
                self.backends.add('normaliser')
                return True
        if g is FALSE:
            if inconsistent(hyps):
                self.backends.add('z3')
                return True
            self.stuck = goal
            return False
        # case split
        if depth > 0:
            c = self._pick(g, hyps)
            if c is not None:
                ok = True
                for lit in (c, ir.not_(c)):
                    h2 = hyps + ([lit] if lit.op != 'and' else list(lit.args))
                    g2 = ir.replace(g, {c: TRUE if lit is c else FALSE})
                    if g2 is TRUE:
                        continue
                    if inconsistent(h2):
                        self.backends.add('z3')
                        continue
                    if not self._prove(g2, h2, depth - 1):
                        ok = False
                        break
                if ok:
                    self.backends.add('case split')
                    return True
                return False
        # congruence on function symbols with tensor arguments
        if g.op == 'eq0' and self._congruence(n, g, hyps, depth):
            return True
        r = self._z3(g, hyps)
        if r:
            return True
        self.stuck = g
        return False

    def _pick(self, g, hyps):
        best = None
        for x in ir.subterms(g):
            if x.op == 'b2n':
                c = x.args[0]
            elif x.op == 'ite':
                c = x.args[0]
            else:
                continue
            while c.op in ('not', 'and'):
                c = c.args[0]
            if any(b.op == 'bv' for b in c.fv) or c.op == 'const' or c.op == 'all':
                continue
            if c in hyps or ir.not_(c) in hyps:
                return c
            if best is None or (c.height, len(c.fv), c.id) < best[0]:
                best = ((c.height, len(c.fv), c.id), c)
        return best[1] if best else None

    def _congruence(self, n, g, hyps, depth):
        """p == 0 where p pairs up applications with pointwise equal arguments"""
        p = n.num(g.args[0])
        apps = {}
        for m in p:
            for a, e in m:
                if a.op == 'app' and len(a.args) > 1:
                    apps.setdefault((a.args[0], len(a.args)), set()).add(a)
        for grp in apps.values():
            grp = sorted(grp, key=lambda a: a.id)
            for i in range(len(grp)):
                for k in range(i + 1, len(grp)):
                    a, b = grp[i], grp[k]
                    if self._app_eq(a, b, hyps, depth):
                        g2 = ir.replace(g, {b: a})
                        if self._prove(g2, hyps, depth):
                            self.backends.add('congruence')
                            return True
                        return False
        return False

    def _app_eq(self, a, b, hyps, depth):
        if depth <= 0 or time.process_time() > self.deadline:
            return False
        for x, y in zip(a.args[1:], b.args[1:]):
            if x is y:
                continue
            if not isinstance(x, T) or not isinstance(y, T):
                return False
            if not self._term_eq(x, y, hyps, depth - 1):
                return False
        return True

    def _term_eq(self, x, y, hyps, depth):
        if x is y:
            return True
        if x.sort == 'L':
            if x.op != 'lam' or y.op != 'lam' or x.args[0] != y.args[0]:
                return False
            vs, dims, body = ir.open_binder(x)
            from .ctx import C
            for d1, d2, v in zip(dims, y.args[2:-1], vs):
                if d1 is not d2 and not self._prove(ir.eq(d1, d2), hyps, depth):
                    return False
                C.ranges[v] = (ZERO, d1)
            b2 = ir.apply_binder(y, vs)
            return self._term_eq(body, b2, hyps, depth)
        s = self.stuck
        r = self._prove(ir.eq(x, y), hyps, depth)
        self.stuck = s
        return r

    def _z3(self, g, hyps):
        left = self.deadline - time.process_time()
        if left < 0.2:
            return False
        fs = all_facts([g], hyps)
        try:
            n = self.norm(hyps)
            fs2 = []
            for f in fs:
                fs2.append(f)
            r, _ = zcheck(fs2, g, int(min(self.zt, left * 1000)))
        except z3.Z3Exception:
            return False
        if r == 'unsat':
            self.backends.add('z3')
            return True
        if r == 'unknown':
            from . import smt
            if smt.cvc5_unsat(fs2, g, min(self.zt, int(left * 1000))):
                self.backends.add('cvc5')
                return True
        return False


def _relevant(c):
    # entailment queries are only worth a solver call for integer / simple conditions
    if any(b.op == 'bv' for b in c.fv):
        return False
    return True


def prove(goal, hyps=(), **kw):
    return Prover(hyps, **kw).prove(goal)
