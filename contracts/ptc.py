"""Shared by C09, C10, C19: one call of ParallelTempering with a kernel known by contract only."""
from .steps import *
from engine import prove

PM = 'flowMC.strategy.parallel_tempering:ParallelTempering.'
FNS = [PM + n for n in ('__init__', '__call__', '_individual_step_body', '_individal_step', '_ensemble_step', '_exchange_step_body', '_exchange', '_adapt_temperature')] + \
      ['flowMC.resource.logPDF:TemperedPDF.__call__', 'flowMC.resource.logPDF:TemperedPDF.tempered_log_pdf', 'flowMC.resource.buffers:Buffer.update_buffer']


class PTSetup:
    def __init__(self, ck, w, s, training, warm=False):
        self.ck = ck
        self.C, self.nT, self.D = s.dim('C'), s.dim('nT', 2, val=[2, 3, 4, 5]), s.dim('D')
        self.N = s.int('N', 1)
        m = w['resource.logPDF']
        Buffer, State = w['resource.buffers'].Buffer, w['resource.states'].State
        K, _ = kernel_class(w)
        self.ll, self.pr = s.fun('ll'), s.fun('prior')
        self.x0 = s.arr('x0', (self.C, self.D))
        self.data = rich_data(s, self.C, self.nT, self.D, wrapdim(self.N))
        self.tl = m.TemperedPDF(self.ll, self.pr, n_dims=2)
        self.training = training
        self.state = State({'training': training, 'P': 'p'}, name='st')
        self.tp, self.T = Buffer('tp', (self.C, self.nT - 1, self.D), 2), Buffer('T', (self.nT,), 0)
        self.other = Buffer('o', (3,), 0)
        self.od = self.other.data
        self.kern = K()
        self.res = {'tl': self.tl, 'k': self.kern, 'tp': self.tp, 'T': self.T, 'st': self.state, 'oth': self.other}
        self.key = s.key('key')
        PT = w['strategy.parallel_tempering'].ParallelTempering
        self.make = lambda: PT(wrapdim(self.N), 'tl', 'k', ['tp', 'T'], 'st')
        self.pt = self.make()
        self.s = s
        self.warm = None
        if warm:
            # an earlier call on other replicas, ladder, target, positions and data must leave no trace
            K1, _ = kernel_class(w, 'w.')
            self.wtp, self.wT = Buffer('tp', (self.C, self.nT - 1, self.D), 2), Buffer('T', (self.nT,), 0)
            self.warm = (s.key('w.key'), {'tl': m.TemperedPDF(s.fun('w.ll'), s.fun('w.prior'), n_dims=2), 'k': K1(), 'tp': self.wtp, 'T': self.wT,
                                          'st': State({'training': training}, name='st')}, s.arr('w.x0', (self.C, self.D)), rich_data(s, self.C, self.nT, self.D, pre='w.'))

    def run(self):
        if self.warm:
            self.wtp.data = self.s.arr('w.tp', (self.C, self.nT - 1, self.D))
            self.wT.data = self.s.arr('w.T', (self.nT,), pos=True)
            k, r, x, d = self.warm
            self.pt = self.make()
            self.pt(k, dict(r), x, d)
        self.tp.data = self.s.arr('tp', (self.C, self.nT - 1, self.D))
        self.T.data = self.s.arr('T', (self.nT,), pos=True)
        return self.pt(self.key, dict(self.res), self.x0, self.data)

    def Tt(self, k):
        return ir.app('T', 'R', k)

    def tempered(self, k, x):
        return ir.add(ir.div(logp('ll', x, self.data), self.Tt(k)), logp('prior', x, self.data))

    def tgt(self, k):
        ph = Arr((arr.D(self.D),), lambda i: ir.app('pt', 'R', i), 'f')
        return self.tempered(k, ph)


def scan_app(t, what):
    t = norm().canon(t)
    if not (t.op == 'app' and t.args[0] in ctx.C.scans):
        raise Unsupported('%s is not the value of a recurrence: %s' % (what, ir.show(t)[:200]))
    sd = ctx.C.scans[t.args[0]]
    tm, ix, g = sd.split(t.args[0], t.args[1:])
    return t.args[0], sd, tm, ix, g


class Exchange:
    """roles of the exchange recurrence, found from the returned position"""

    def __init__(self, S, x, c, i):
        self.S = S
        self.e, self.sd, self.tm, ix, self.g = scan_app(x.fn(c, i), 'the returned position')
        if len(ix) != 2:
            raise Unsupported('exchange state of rank %d' % len(ix))
        self.swap = not (same(ix[1], i) and same(ix[0], ZERO)) and same(ix[0], i) and same(ix[1], ZERO)
        self.c, self.i = c, i
        self._u = None

    def at(self, t, k, i, g=None):
        return ir.app(self.e, 'R', t, *((i, k) if self.swap else (k, i)), *(self.g if g is None else g))

    def row(self, t, k, g=None):
        return vec(self.S.D, lambda a: self.at(t, k, a, g))

    def lps(self):
        """rules for carried log-likelihoods (proved below)"""
        out = []
        for y in leaves_of(self.sd, 1):
            if seq_sort(self.sd, y) != 'R':
                continue
            k = ctx.C.gen('k', ZERO, dT(arr.D(self.S.nT)))
            if same(ir.app(y, 'R', ZERO, k, *self.g), self.ll(ZERO, k)):
                out.append(y)
        return out

    def ll(self, t, k, g=None):
        return logp('ll', self.row(t, k, g), self.S.data)

    def rules(self, lps):
        def mk_(y):
            def rule(a, n):
                if a.op == 'app' and a.args[0] == y:
                    t, ix, g = self.sd.split(y, a.args[1:])
                    return self.ll(t, ix[0], g)
                return None
            return rule
        return [mk_(y) for y in lps]

    def step(self, s, k, i):
        return norm().canon(self.at(ir.add(s, ONE), k, i))

    def unif(self, s):
        if self._u is None:
            v = ctx.C.gen('s', ZERO, self.sd.n)
            ts = [self.step(v, k, self.i) for k in (v, ir.add(v, ONE))]
            self._u = (v, one_draw(ts, 'uniform'))
        v, k = self._u
        return ir.app('uniform', 'R', ir.subst(k, {v: s}))

    def accept(self, s, p):
        """swap condition of step s for the pair (p, p+1)"""
        S = self.S
        p1 = ir.add(p, ONE)
        ratio = ir.mul(ir.sub(ir.div(ONE, S.Tt(p)), ir.div(ONE, S.Tt(p1))), ir.sub(self.ll(s, p1), self.ll(s, p)))
        return ir.lt(log(self.unif(s)), ratio)
