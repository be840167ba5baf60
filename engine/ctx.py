"""Session state: facts, variable ranges, path exploration, scan registry."""
from . import ir
from .ir import T, const, TRUE, FALSE, ZERO, ONE


class Unsupported(Exception):
    """The code uses a construct outside the verifier's subset."""


class PathLimit(Unsupported):
    pass


class Infeasible(Exception):
    pass


class ScanDef:
    """A recurrence: sequence symbols with value at 0 and successor value.

    leaves: symbol -> [formal index vars, init term, step term (mentions self.j)]"""

    def __init__(self, name, n, gens, j):
        self.name = name          # prefix of the sequence symbols
        self.n = n                # number of iterations (T)
        self.gens = tuple(gens)   # enclosing generic variables (formal parameters)
        self.j = j                # the iteration variable used in `body`
        self.leaves = {}
        self.info = {}

    def add(self, sym, rank, init, step):
        fv = tuple(ir.fresh('f') for _ in range(rank))
        self.leaves[sym] = [fv, init, step, None, None]

    def parts(self, sym):
        l = self.leaves[sym]
        if l[3] is None:
            l[3] = l[1](*l[0])
            l[4] = l[2](*l[0])
        return l

    def split(self, sym, args):
        fv = self.leaves[sym][0]
        r = len(fv)
        return args[0], args[1:1 + r], args[1 + r:]

    def at_zero(self, sym, args):
        t, idx, g = self.split(sym, args)
        l = self.parts(sym)
        m = dict(zip(l[0], idx))
        m.update(zip(self.gens, g))
        return ir.subst(l[3], m)

    def succ(self, sym, args, prev):
        """value at prev+1 in terms of the values at prev"""
        t, idx, g = self.split(sym, args)
        l = self.parts(sym)
        m = dict(zip(l[0], idx))
        m.update(zip(self.gens, g))
        m[self.j] = prev
        return ir.subst(l[4], m)


class Ctx:
    def __init__(self):
        self.facts = []           # permanent facts
        self.path = []            # conditions of the current path
        self.ranges = {}          # integer var -> (lo, hi)
        self.gens = []            # stack of active generic variables
        self.scans = {}           # sequence symbol -> ScanDef
        self.scan_list = []
        self.counter = {}
        self.trace = None         # decision trace of the global explorer
        self.frames = []          # local frames (generic contexts)
        self.decisions = 0
        self.schemas = []         # lemma schemas: fn(app_term) -> [facts]
        self.symmetric = {}
        self.rules = []           # rewrite rules (contracts on library results) applied everywhere
        self.positive_syms = set()
        self.pos_names = set()    # inputs declared entrywise positive
        self.events = []
        self.asserts = []
        self.tag_draws = False    # mark every random draw with its place and context (C19)
        self.drawcount = {}
        self.hold = None          # names of the parameters of a unit (C24): stop_gradient marks those below it as held
        self.accsum = False       # accumulators of loops become sums

    def name(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return base if k == 0 else '%s#%d' % (base, k)

    def gen(self, prefix, lo, hi):
        v = ir.fresh(prefix)
        self.ranges[v] = (lo, hi)
        return v

    def snapshot(self):
        return list(self.facts) + list(self.path)

    # ------------------------------------------------------------ deciding
    def decide(self, c):
        from . import prove
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        e = prove.quick(c)
        if e is not None:
            return e
        gens = set(self.gens)
        if self.frames and (c.fv & gens):
            fr = self.frames[-1]
            # outermost-in: a condition on the generic of an outer frame is decided in that frame
            for f in self.frames:
                if c.fv & f.gens:
                    fr = f
            return fr.decide(c, self)
        return self._global(c)

    def _global(self, c):
        self.decisions += 1
        if self.trace is None:
            raise Unsupported('branch on symbolic condition outside exploration: %s' % ir.show(c))
        return self.trace.decide(c, self)


class Trace:
    """Decision sequence for re-execution."""
    LIMIT = 60

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []

    def decide(self, c, ctx):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = True
            if self.pos > self.LIMIT:
                raise PathLimit('too many branch decisions')
        self.pos += 1
        self.taken.append((c, v))
        ctx.path.append(c if v else ir.not_(c))
        return v


class Frame:
    """Local exploration frame inside a generic context; results are ite-merged."""

    def __init__(self, gens):
        self.gens = frozenset(gens)
        self.prefix = []
        self.pos = 0
        self.taken = []

    def decide(self, c, ctx):
        v = self.prefix[self.pos] if self.pos < len(self.prefix) else True
        if self.pos > 24:
            raise PathLimit('too many local decisions')
        self.pos += 1
        self.taken.append((c, v))
        ctx.path.append(c if v else ir.not_(c))
        return v


C = Ctx()


def reset():
    global C
    from . import prove
    C.__init__()
    prove.clear()
    return C


class Path:
    def __init__(self, conds, result, exc, state):
        self.conds = conds
        self.result = result
        self.exc = exc
        self.state = state


def explore(fn, max_paths=64, expect=()):
    """Run fn() under every feasible combination of branch decisions.

    Yields Path objects one at a time; the context C (path, scans) is that of the path while
    the caller's loop body runs."""
    from . import prove
    base_facts = list(C.facts)
    base_path = list(C.path)
    base_ranges = dict(C.ranges)
    base_counter = dict(C.counter)
    base_scans = dict(C.scans)
    base_sl = list(C.scan_list)
    base_schemas = list(C.schemas)
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        n += 1
        if n > max_paths:
            raise PathLimit('too many paths')
        C.facts = list(base_facts)
        C.path = list(base_path)
        C.ranges = dict(base_ranges)
        C.counter = dict(base_counter)
        C.scans = dict(base_scans)
        C.scan_list = list(base_sl)
        C.schemas = list(base_schemas)
        C.frames = []
        C.gens = []
        C.events = []
        C.asserts = []
        C.drawcount = {}
        tr = Trace(prefix)
        old = C.trace
        C.trace = tr
        exc = None
        res = None
        try:
            res = fn()
        except Unsupported:
            raise
        except Infeasible:
            C.trace = old
            _push(stack, tr, prefix)
            continue
        except Exception as e:
            exc = e
        C.trace = old
        _push(stack, tr, prefix)
        # prune infeasible
        if tr.taken and prove.inconsistent():
            continue
        yield Path([c if v else ir.not_(c) for c, v in tr.taken], res, exc, None)
    C.path = base_path


def _push(stack, tr, prefix):
    for k in range(len(tr.taken) - 1, len(prefix) - 1, -1):
        if tr.taken[k][1]:
            stack.append([v for _, v in tr.taken[:k]] + [False])


def merged(gens, fn, merge):
    """Run fn() exploring decisions that depend on gens; merge(list of (conds,result))."""
    from . import prove
    outs = []
    stack = [[]]
    cnt = 0
    dc = dict(C.drawcount)
    while stack:
        prefix = stack.pop()
        C.drawcount = dict(dc)
        cnt += 1
        if cnt > 64:
            raise PathLimit('too many local paths')
        fr = Frame(gens)
        fr.prefix = prefix
        mark = len(C.path)
        C.frames.append(fr)
        bad = False
        try:
            res = fn()
            if fr.taken and prove.inconsistent():
                bad = True
        finally:
            C.frames.pop()
            # keep decisions on outer conditions taken by the global trace
            mine = set()
            keep = []
            local = [c if v else ir.not_(c) for c, v in fr.taken]
            loc = list(local)
            for p in C.path[mark:]:
                if loc and p is loc[0]:
                    loc.pop(0)
                else:
                    keep.append(p)
            C.path[mark:] = keep
        for k in range(len(fr.taken) - 1, len(prefix) - 1, -1):
            if fr.taken[k][1]:
                stack.append([v for _, v in fr.taken[:k]] + [False])
        if not bad:
            outs.append((local, res))
    if not outs:
        raise Infeasible()
    return merge(outs)


def _on_open(v, d):
    C.ranges[v] = (ZERO, d)


ir.on_open = _on_open
