"""Simplification of raw terms under hypotheses: conditions are decided, one-hot selections are resolved.

Every rewriting step is an equality established by the solver or the normaliser under the hypotheses."""
from .common import *
from engine import prove as _pv
from engine.prove import Prover


class Simp:
    def __init__(self, hyps, k=None, pairs=None, cands=(), timeout=1500, norm_hyps=None, decider=None):
        self.hyps = list(hyps)
        self.k = k
        self.pairs = pairs
        self.cands = list(cands)
        self.timeout = timeout
        self.memo = {}
        self.cache = {}
        self.queries = 0
        self.divs = []
        self.decider = decider

    # -------------------------------------------------------- deciding
    def facts(self, c):
        fs = _pv.all_facts([c], self.hyps)
        if self.pairs:
            fs = fs + self.pairs(fs + [c])
        return fs

    def valid(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        r = self.cache.get(c)
        if r is None:
            self.queries += 1
            try:
                r = _pv.zcheck(self.facts(c), c, self.timeout)[0] == 'unsat'
            except Exception:
                r = False
            self.cache[c] = r
        return r

    def decide(self, c):
        if self.decider:
            r = self.decider(c)
            if r is not None:
                return r
        if self.valid(c):
            return TRUE
        if self.valid(ir.not_(c)):
            return FALSE
        return None

    # -------------------------------------------------------- rewriting
    def go(self, t, vs=()):
        key = (t, vs[-1:] and vs[-1])
        r = self.memo.get(key)
        if r is None:
            r = self._go(t, vs)
            self.memo[key] = r
        return r

    def _go(self, t, vs):
        if t.sort == 'B' and t.op not in ('const', 'var', 'bv'):
            return self.boolean(t, vs)
        o = t.op
        if o in ('sum', 'lam'):
            vv, dims, body = ir.open_binder(t)
            for v, d in zip(vv, dims):
                ctx.C.ranges[v] = (ZERO, d)
            b = self.go(body, vs + tuple(vv)) if o == 'sum' else self.go(body, ())
            return ir.sum_(vv[0], dims[0], b) if o == 'sum' else ir.lam(vv, dims, b)
        if o == 'ite':
            c = self.go(t.args[0], vs)
            if c is TRUE:
                return self.go(t.args[1], vs)
            if c is FALSE:
                return self.go(t.args[2], vs)
            return ir.ite(c, self.go(t.args[1], vs), self.go(t.args[2], vs))
        if not any(isinstance(a, ir.T) for a in t.args):
            return t
        r = ir.rebuild(t, [self.go(a, vs) if isinstance(a, ir.T) else a for a in t.args])
        if r.op == 'fn' and r.args[0] in ('max', 'min') and not vs:
            a, b = r.args[1:]
            e = self.decide(ir.le(a, b))
            if e is not None:
                r = b if (e is TRUE) == (r.args[0] == 'max') else a
        if r.op == 'div':
            self.divs.append(r.args[1])
        if self.cands and r.op in ('div', 'fn') and r.sort == 'R':
            for c in self.cands:
                x = c(r)
                if x is not None:
                    return x
        return r

    def boolean(self, t, vs):
        if t.op == 'all':
            (v,), (n,), body = ir.open_binder(t)
            # a witness against the universal statement
            if self.k is not None:
                inst = ir.subst(body, {v: self.k})
                if self.valid(ir.not_(inst)):
                    return FALSE
            ctx.C.ranges[v] = (ZERO, n)
            if self.valid(body):
                return TRUE
            return t
        if t.op in ('not', 'and'):
            xs = [self.go(a, vs) for a in t.args]
            r = ir.not_(xs[0]) if t.op == 'not' else ir.and_(*xs)
        elif t.op == 'ite':
            c = self.go(t.args[0], vs)
            if c is TRUE or c is FALSE:
                return self.go(t.args[1 if c is TRUE else 2], vs)
            r = ir.ite(c, self.go(t.args[1], vs), self.go(t.args[2], vs))
        else:
            r = ir.rebuild(t, [self.go(a, vs) if isinstance(a, ir.T) else a for a in t.args])
        if r is TRUE or r is FALSE:
            return r
        v = [x for x in vs if x in r.fv]
        if not v:
            e = self.decide(r)
            return r if e is None else e
        v = v[-1]
        if self.k is not None and r.op != 'eq':
            sel = ir.eq(v, self.k)
            if self.valid(ir.implies(sel, r)) and self.valid(ir.implies(r, sel)):
                return sel
        return r
