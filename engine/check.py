"""Contract checks: obligations, their discharge, refutation and bookkeeping."""
import time
import signal
import contextlib
import re
import traceback
from . import ir, arr, ctx, prove, numeval, tree, fakes
from .ir import T, const, TRUE, FALSE, ZERO, ONE
from .arr import Arr, asarr, dT
from .ctx import Unsupported, PathLimit
from .loader import World


def C():
    return ctx.C


# ---------------------------------------------------------------- symbolic inputs
class Sym:
    """factory of symbolic inputs of one contract unit (remembers how to pick numeric values)"""

    def __init__(self):
        self.ints = {}
        self.reals = {}
        self.interp = {}

    def int(self, name, lo=1, hi=None, val=None):
        v = ir.var(name, 'I')
        C().ranges[v] = (const(lo) if lo is not None else None, hi)
        if val is not None:
            self.ints[name] = (lambda v_, val=val: v_.rng.choice(val)) if isinstance(val, (list, tuple)) else val
        else:
            self.ints[name] = lambda v_, lo=lo: v_.rng.randrange((lo if lo is not None else -3), (lo if lo is not None else -3) + 4)
        return v

    def dim(self, name, lo=1, val=None):
        return arr.wrapdim(self.int(name, lo, None, val))

    def key(self, name='key'):
        v = ir.var(name, 'K')
        return Arr((), lambda: v, 'k')

    def real(self, name, pos=False, lo=None, hi=None):
        v = ir.var(name, 'R')
        if pos:
            C().facts.append(ir.lt(const(0, 'R'), v))
            self.reals[name] = lambda v_: round(v_.rng.uniform(0.2, 1.5), 3)
        elif lo is not None or hi is not None:
            if lo is not None:
                C().facts.append(ir.le(const(lo, 'R'), v))
            if hi is not None:
                C().facts.append(ir.le(v, const(hi, 'R')))
            self.reals[name] = lambda v_: round(v_.rng.uniform(lo if lo is not None else hi - 4, hi if hi is not None else lo + 4), 3)
        return Arr((), lambda: v, 'f')

    def arr(self, name, shape, dt='f', pos=False):
        if pos:
            ctx.C.pos_names.add(name)
            ctx.C.positive_syms.add(name)
        sh = tuple(arr.D(d) for d in shape)
        s = arr.SORT[dt]
        return Arr(sh, lambda *i: ir.app(name, s, *[ZERO if isinstance(d, int) and d == 1 else k for k, d in zip(i, sh)]), dt)   # the only index of a size-1 axis is 0

    def obj(self, name):
        v = ir.var(name, 'U')
        return Arr((), lambda: v, 'u')

    def fun(self, name, out_shape=()):
        """uninterpreted real function of (vector, data)"""
        def f(x, data=None):
            x = asarr(x)
            lx = arr.lam_of(x) if x.ndim else x.term()
            d = fakes.fingerprint(data)
            return Arr(out_shape, lambda *i: ir.app(name, 'R', *i, lx, d), 'f')
        f.__name__ = name
        return f

    def spd(self, name, n):
        """symmetric positive definite matrix"""
        n = arr.D(n)

        def interp(v, i, j):
            import math
            key = ('spd', name)
            if key not in v.memo:
                import numpy as np
                r = np.random.RandomState(abs(hash((v.seed, name))) % (2 ** 31))
                m = r.randn(9, 9) * 0.4
                v.memo[key] = m @ m.T + 0.7 * np.eye(9)
            return float(v.memo[key][int(i), int(j)])
        self.interp[name] = interp
        C().symmetric[name] = True

        def fn(i, j):
            a, b = (i, j) if i.id <= j.id else (j, i)
            return ir.app(name, 'R', a, b)
        return Arr((n, n), fn, 'f')


def T_(x):
    return asarr(x).term()


def idx(a, tag='i'):
    """fresh in-range index tuple for an array"""
    out = []
    for d in asarr(a).sh:
        out.append(C().gen(tag, ZERO, dT(d)))
    return tuple(out)


def fresh_idx(*dims):
    return tuple(C().gen('i', ZERO, dT(arr.D(d))) for d in dims)


# ---------------------------------------------------------------- draws
DRAWS = {'flow.sample': 1, 'uniform': 1, 'normal': 1, 'perm': 1, 'choice': 1, 'choice_noreplace': 1, 'mvn': 1, 'randint': 1, 'linit': 1, 'linitb': 1}


def draws(*terms):
    """set of (kind, key term, static args) of all random draws occurring in the terms"""
    out = {}
    seen = set()
    for t in terms:
        ir.subterms(t, seen)
    for x in seen:
        if x.op == 'app' and x.args[0] in DRAWS:
            out.setdefault((x.args[0], x.args[1]), set()).add(x)
    return out


# ---------------------------------------------------------------- obligations
class Ob:
    def __init__(self, id, text):
        self.id, self.text = id, text
        self.status = 'undecided'
        self.how = ''
        self.detail = ''
        self.seconds = 0.0

    def json(self):
        return {'id': self.id, 'status': self.status, 'how': self.how, 'seconds': round(self.seconds, 3),
                **({'statement': self.text} if self.text else {}), **({'detail': self.detail[:1500]} if self.detail else {})}


class OutOfTime(BaseException):
    """raised by the timer inside a unit; no handler for ordinary exceptions swallows it"""


@contextlib.contextmanager
def budget(ck, unit=150.0, total=400.0):
    """processor time (not wall time) a unit may use; the whole run has `total`.  On the committed tree a unit needs below 10 s"""
    k = 10 if ck.tier == 'thorough' else 1
    t = max(10.0, min(unit * k, total * k - time.process_time()))

    def late(sig, frame):
        raise OutOfTime('limit %d s' % t)
    old = signal.signal(signal.SIGPROF, late)
    signal.setitimer(signal.ITIMER_PROF, t, 5.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


class Check:
    def __init__(self, prop, tier='quick'):
        self.prop = prop
        self.tier = tier
        self.obs = []
        self.functions = {}
        self.assumptions = []
        self.units = []
        self.deadline = None
        self.cur = None
        self.sym = None
        self.paths = 0
        self.covers = 0
        self.div_ok, self.div_proved = set(), 0

    def fn(self, *names):
        for n in names:
            self.functions.setdefault(n, 0)

    def assume(self, *txt):
        for t in txt:
            if t not in self.assumptions:
                self.assumptions.append(t)

    # ------------------------------------------------------------ units
    def unit(self, name, f, fns=(), min_obs=1):
        """run one contract unit: f(self, world, sym) states obligations"""
        self.cur = name
        self.fn(*fns)
        n0 = len(self.obs)
        t0 = time.time()
        err = None
        ctx.reset()
        self.sym = Sym()
        self.world = None
        try:
            with budget(self):
                self.world = World()
                f(self, self.world, self.sym)
        except OutOfTime as e:
            err = 'processor time used up after %d obligations: %s' % (len(self.obs) - n0, e)
        except Unsupported as e:
            err = 'outside the verified subset: %s @ %s' % (e, tb_short(e))
        except RecursionError:
            err = 'recursion limit'
        except Exception as e:
            err = '%s: %s @ %s' % (type(e).__name__, e, tb_short(e))
        made = len(self.obs) - n0
        if err or made < min_obs:
            ob = Ob('%s.%s/reach' % (self.prop, name), 'the unit is inside the subset and generates its obligations')
            ob.status = 'undecided'
            ob.detail = err or 'generated %d obligations, expected at least %d' % (made, min_obs)
            ob.seconds = time.time() - t0
            self.obs.append(ob)
        for x in fns:
            self.functions[x] += max(0, made)
        self.units.append({'unit': name, 'obligations': made, 'seconds': round(time.time() - t0, 2), **({'error': err} if err else {})})

    def paths_of(self, fn, max_paths=64, allow=()):
        """explore fn; obligation that no path raises (except those in `allow`)"""
        k = 0
        for p in ctx.explore(fn, max_paths):
            k += 1
            self.paths += 1
            if p.exc is not None and not (allow and isinstance(p.exc, allow)):
                raise PathError(p.exc)
            # cover: the preconditions of this path are satisfiable (not provably contradictory)
            if prove.inconsistent():
                raise Unsupported('vacuous path')
            self.covers += 1
            yield p
        if k == 0:
            raise Unsupported('no feasible path')

    def run1(self, fn):
        """result of fn when it does not branch"""
        ps = []
        for p in self.paths_of(fn, 1):
            return p.result

    # ------------------------------------------------------------ proving
    def prove(self, id, goal, hyps=(), text='', rules=(), idem=None, positive=None, budget=None, depth=8, refute=True, ztimeout=None,
              ints=None, reals=None, interp=None, note=None, aux=False, first=False):
        ob = Ob('%s.%s/%s' % (self.prop, self.cur, id), text)
        t0 = time.time()
        budget = budget or (20 if self.tier == 'quick' else 90)
        if first and refute:
            # expensive obligations: look for a counter-valuation before the proof
            self._refute(ob, goal, hyps, ints, reals, interp, 1.5)
            if ob.status == 'refuted':
                ob.status = 'undecided' if aux else 'refuted'
                ob.seconds = time.time() - t0
                self.obs.append(ob)
                return False
        try:
            pr = prove.Prover(hyps, rules, idem, positive, budget, depth, ztimeout or (3000 if self.tier == 'quick' else 15000))
            r = pr.prove(goal)
            if r:
                ob.status, ob.how = 'discharged', r.how
                bad = self.divisors_of(pr)
                if bad:
                    ob.status, ob.how, ob.detail = 'undecided', 'division by zero not excluded', 'divisor: ' + ir.show(bad[0])[:400]
            else:
                ob.detail = 'residual: ' + (ir.show(r.detail)[:600] if isinstance(r.detail, T) else str(r.detail))
        except (Unsupported, RecursionError, ValueError) as e:
            r = None
            ob.detail = 'prover: %s' % e
        if ob.status != 'discharged' and refute and not first:
            self._refute(ob, goal, hyps, ints, reals, interp)
            if aux and ob.status == 'refuted':
                # a proof-internal step (an invariant chosen by the proof, not demanded by the property)
                ob.status = 'undecided'
        ob.seconds = time.time() - t0
        self.obs.append(ob)
        return ob.status == 'discharged'

    def divisors_of(self, pr):
        """the rewriting divides by these terms: show that none is zero.  -> those that vanish for some values
        (an indicator as divisor); the ones that are not shown non-zero are listed as assumptions"""
        bad = []
        for t in sorted(pr.divisors, key=lambda t: t.id):
            if t in self.div_ok:
                continue
            if t.op == 'b2n' and not prove.quick(t.args[0], list(pr.hyps)):
                bad.append(t)
                continue
            hy = list(pr.hyps)
            for a in ir.subterms(t):
                if a.op == 'app' and (a.args[0] in ctx.C.pos_names or a.args[0] in ctx.C.symmetric and len(a.args) == 3 and a.args[1] is a.args[2]):
                    hy.append(ir.lt(ZERO, a))     # declared positive, or on the diagonal of a positive definite matrix
            q = prove.Prover(hy, (), pr.idem, pr.positive, 2, 4, 1000)
            try:
                ok = bool(q.prove(ir.not_(ir.eq(t, ZERO))))
            except (Unsupported, RecursionError, ValueError, prove.TooBig):
                ok = False
            self.div_ok.add(t)
            if ok:
                self.div_proved += 1
            else:
                self.assume('non-zero: ' + re.sub(r'![0-9]+', '', ir.show(t))[:160])
        return bad

    def entails(self, goal, hyps=(), rules=()):
        """whether the goal can be proved (no obligation recorded): chooses between forms of a proof"""
        try:
            return bool(prove.Prover(hyps, rules, None, None, 5, 6, 3000).prove(goal))
        except (Unsupported, RecursionError, ValueError):
            return False

    def _refute(self, ob, goal, hyps, ints=None, reals=None, interp=None, seconds=None):
        s = self.sym
        fs = prove.all_facts([goal], hyps)
        try:
            st, d = numeval.refute(goal, [f for f in fs if f.op != 'all'], interp={**s.interp, **(interp or {})},
                                   ints={**s.ints, **(ints or {})}, reals={**s.reals, **(reals or {})},
                                   tries=60, seconds=seconds or (8 if self.tier == 'quick' else 30))
        except Exception as e:
            st, d = 'none', '%s: %s' % (type(e).__name__, e)
        if st == 'refuted':
            ob.status = 'refuted'
            ob.how = 'counter-valuation'
            ob.detail += ' | falsified by ' + ', '.join('%s=%s' % (k, ('%.4g' % v) if isinstance(v, float) else v) for k, v in sorted(d.items())[:30])
        elif st == 'supported':
            ob.status = 'undecided'
            ob.how = 'not proved; holds on %d sampled valuations' % d
        else:
            ob.status = 'undecided'
            ob.how = 'not proved; no valuation (%s)' % d

    def eq(self, id, a, b, hyps=(), **kw):
        """arrays (or terms) equal, entry by entry, same shape"""
        if not isinstance(a, T):
            a = asarr(a)
            b = asarr(b) if not isinstance(b, T) else asarr(b)
            if a.ndim != b.ndim:
                return self.fact(id, False, 'ranks %d and %d' % (a.ndim, b.ndim), **kw)
            goals = []
            for d, e in zip(a.sh, b.sh):
                goals.append(ir.eq(dT(d), dT(e)))
            ii = idx(a)
            goals.append(arr.eqT(a.fn(*ii), b.fn(*ii)))
            g = ir.and_(*goals)
        else:
            g = arr.eqT(a, b) if isinstance(b, T) else arr.eqT(a, asarr(b).term())
        return self.prove(id, g, hyps, **kw)

    def fact(self, id, ok, detail='', how='structural', text='', hard=True, **kw):
        """an obligation decided structurally (identity of canonical terms, events, names)"""
        ob = Ob('%s.%s/%s' % (self.prop, self.cur, id), text)
        ob.status = 'discharged' if ok else ('refuted' if hard else 'undecided')
        ob.how = how if ok else 'failed'
        ob.detail = '' if ok else str(detail)
        self.obs.append(ob)
        return bool(ok)


class PathError(Exception):
    def __init__(self, e):
        super().__init__('path raises %s: %s @ %s' % (type(e).__name__, e, tb_short(e)))


def tb_short(e):
    fr = traceback.extract_tb(e.__traceback__)
    return ' <- '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(fr[-4:]))
