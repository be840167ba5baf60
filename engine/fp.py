"""IEEE back end: terms built under ir.fp_mode are decided by z3's floating-point theory.

Arithmetic, comparisons and the functions with axioms below are interpreted; every other real-valued
term (target values, draws, sums, carried values ...) is an arbitrary float, NaN and infinities included."""
import time
import z3
from . import ir, prove
from .ir import T

RM = z3.RNE()
SORTS = {32: z3.Float32(), 64: z3.Float64()}
FREE = {'logp', 'D0:logp', 'flowlp', 'flow.sample', 'normal', 'mvn', 'mvn.logpdf', 'x', 'lp_in'}


class Enc:
    def __init__(self, canon, bits=32, free=(), keep=None):
        self.S = SORTS[bits]
        self.canon = canon
        self.memo = {}
        self.side = []
        self.opaque = set()       # free variables that stand for something else than an arbitrary float
        self.free = FREE | set(free)
        self.names = {}
        self.keep = keep          # term: whatever does not contain it is an arbitrary float / truth value (sound abstraction)
        self.cache = {}

    def cut(self, t):
        if self.keep is None:
            return False
        r = self.cache.get(t)
        if r is None:
            r = self.cache[t] = self.keep not in ir.subterms(t)
        return r

    def var(self, t, sort):
        v = self.names.get(t)
        if v is None:
            v = self.names[t] = z3.Const('v%d' % len(self.names), sort)
        return v

    def const(self, f):
        return z3.FPVal(float(f), self.S)

    def real(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._real(t)
        return r

    def _real(self, t):
        if t.op == 'const':
            return self.const(t.args[0])
        if t.op == 'special':
            return z3.fpNaN(self.S) if t.args[0] == 'nan' else z3.fpPlusInfinity(self.S)
        if t.op == 'neg' and t.args[0].op == 'special':
            return z3.fpMinusInfinity(self.S)
        if t.op == 'ite':
            return z3.If(self.bool(t.args[0]), self.real(t.args[1]), self.real(t.args[2]))
        if t.op == 'b2n':
            return z3.If(self.bool(t.args[0]), self.const(1), self.const(0))
        if t.op == 'app' and t.args[0].startswith('fp.') and self.cut(t):
            return self.var(t, self.S)
        if t.op == 'app' and t.args[0] == 'fp.ite':
            return z3.If(self.bool(t.args[1]), self.real(t.args[2]), self.real(t.args[3]))
        if t.op == 'app' and t.args[0].startswith('fp.') and t.sort == 'R':
            k = t.args[0][3:]
            a = [self.real(x) for x in t.args[1:]]
            if k == 'add':
                return z3.fpAdd(RM, *a)
            if k == 'sub':
                return z3.fpSub(RM, *a)
            if k == 'mul':
                return z3.fpMul(RM, *a)
            if k == 'div':
                return z3.fpDiv(RM, *a)
            if k == 'neg':
                return z3.fpNeg(a[0])
            if k == 'abs':
                return z3.fpAbs(a[0])
            if k == 'sqrt':
                return z3.fpSqrt(RM, a[0])
            if k in ('max', 'min'):
                c = z3.fpGT(a[0], a[1]) if k == 'max' else z3.fpLT(a[0], a[1])
                return z3.If(z3.Or(z3.fpIsNaN(a[0]), z3.fpIsNaN(a[1])), z3.fpNaN(self.S), z3.If(c, a[0], a[1]))
            v = self.var(t, self.S)
            x = a[0]
            nan, pinf, zero = z3.fpIsNaN, lambda y: z3.And(z3.fpIsInf(y), z3.fpIsPositive(y)), z3.fpIsZero
            ninf = lambda y: z3.And(z3.fpIsInf(y), z3.fpIsNegative(y))
            if k == 'exp':
                self.side += [nan(v) == nan(x), z3.Implies(z3.Not(nan(v)), z3.fpGEQ(v, self.const(0))), z3.Implies(ninf(x), zero(v)), z3.Implies(pinf(x), pinf(v)),
                              z3.Implies(zero(x), z3.fpEQ(v, self.const(1)))]
            elif k == 'log':
                neg = z3.fpLT(x, self.const(0))
                self.side += [nan(v) == z3.Or(nan(x), neg), z3.Implies(zero(x), ninf(v)), z3.Implies(ninf(v), zero(x)), pinf(v) == pinf(x),
                              z3.Implies(z3.And(z3.fpLEQ(x, self.const(1)), z3.Not(nan(v))), z3.fpLEQ(v, self.const(0)))]
            elif k == 'log1p':
                self.side += [z3.Implies(nan(x), nan(v))]
                self.opaque.add(t)
            else:
                self.opaque.add(t)
            return v
        if t.op == 'app' and t.args[0] == 'uniform':
            v = self.var(self.canon(t), self.S)
            self.side += [z3.fpGEQ(v, self.const(0)), z3.fpLT(v, self.const(1))]
            return v
        c = self.canon(t)
        v = self.var(c, self.S)
        nm = c.args[0] if c.op in ('app', 'var') else c.op
        if not (nm in self.free or c.op in ('var', 'sum') or c.op == 'app' and nm in ir_scans()):
            self.opaque.add(c)
        return v

    def bool(self, t):
        if t.op == 'const':
            return z3.BoolVal(t.args[0])
        if t.op == 'not':
            return z3.Not(self.bool(t.args[0]))
        if t.op == 'and':
            return z3.And(*[self.bool(a) for a in t.args])
        if t.op == 'ite':
            return z3.If(self.bool(t.args[0]), self.bool(t.args[1]), self.bool(t.args[2]))
        if t.op == 'iff':
            return self.bool(t.args[0]) == self.bool(t.args[1])
        if self.cut(t):
            return self.var(t, z3.BoolSort())
        if t.op == 'app':
            k = t.args[0]
            if k in ('fp.lt', 'fp.le', 'fp.eq'):
                a, b = self.real(t.args[1]), self.real(t.args[2])
                return {'fp.lt': z3.fpLT, 'fp.le': z3.fpLEQ, 'fp.eq': z3.fpEQ}[k](a, b)
            if k == 'isfinite':
                a = self.real(t.args[1])
                return z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsInf(a)))
            if k == 'isnan':
                return z3.fpIsNaN(self.real(t.args[1]))
        c = self.canon(t)
        v = self.var(c, z3.BoolSort())
        self.opaque.add(c)
        return v


def ir_scans():
    from . import ctx
    return ctx.C.scans


def unsat(enc, *conds, timeout=20000):
    """(True, None) when no float assignment satisfies the conditions; (False, model) when one does; (None, None)"""
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout)
    for c in conds:
        s.add(c)
    for x in enc.side:
        s.add(x)
    r = s.check()
    prove.STATS['z3_s'] = prove.STATS.get('z3_s', 0) + time.time() - t0
    prove.STATS['z3_calls'] = prove.STATS.get('z3_calls', 0) + 1
    if r == z3.unsat:
        return True, None
    if r == z3.sat:
        m = s.model()
        return False, {ir.show(t)[:60]: str(m.eval(v, model_completion=True)) for t, v in list(enc.names.items())[:12]}
    return None, None
