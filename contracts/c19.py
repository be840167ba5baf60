"""C19: no random key is ever used twice and runs are reproducible."""
from .common import *
from engine.arr import wrapdim
from engine import tree
from .keys import discipline, uses, word
from .steps import Setup
from .ptc import PTSetup, FNS as PT_FNS
from engine.absmodel import flow


def tag(ck, s):
    ctx.C.tag_draws = True
    ctx.C.keysym = s


def result_terms(res, x, extra=()):
    """generic entries of every array in the results"""
    out = []

    def go(v, seen):
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, Arr):
            if v.dt == 'k':
                return
            out.append(v.fn(*[ctx.C.gen('i', ZERO, dT(d)) for d in v.sh]))
        elif isinstance(v, fakes.UObj):
            out.append(v.t)
        elif isinstance(v, dict):
            for y in v.values():
                go(y, seen)
        elif isinstance(v, (list, tuple)):
            for y in v:
                go(y, seen)
        elif isinstance(v, arr.SymList):
            for sg in v.segs:
                if sg[0] == 'one':
                    go(sg[1], seen)
        elif hasattr(v, '__dict__') and type(v).__module__ != 'builtins':
            for y in vars(v).values():
                go(y, seen)
    go([res, x, list(extra)], set())
    return out


def steps(group, batch):
    def f(ck, w, s):
        tag(ck, s)
        S = Setup(ck, w, s, group, batch)
        repeat(ck, S.run)
        n = 0
        for p in ck.paths_of(S.run):
            n += 1
            k2, r2, x2 = p.result
            t = 'p%d' % n
            discipline(ck, t, result_terms(r2, x2), S.key.term(), k2.term())
    return f


def snapshot(go):
    """structure of everything the call computes, up to names of index variables, per path"""
    from .keys import canonical
    out = []
    ctx.C.drawcount = {}
    for p in ctx.explore(go):
        conds = [canonical(c) for c in p.conds]
        if p.exc is not None:
            out.append((conds, repr(p.exc)))
            continue
        res = []
        for x in flat(p.result):
            ii = [ctx.C.gen('i', ZERO, dT(d)) for d in x.sh]
            res.append((canonical(x.fn(*ii)), [canonical(dT(d)) for d in x.sh]))
        sds = []
        for sd in ctx.C.scan_list:
            for y in sorted(sd.leaves):
                l = sd.parts(y)
                sds.append((y, canonical(l[3]), canonical(l[4])))
        out.append((conds, res, sds))
    return out


def repeat(ck, go):
    """the same call on the same inputs computes the same terms"""
    saved = {k: (v.copy() if isinstance(v, (dict, list)) else v) for k, v in vars(ctx.C).items()}
    outs = []
    for _ in range(2):
        outs.append(snapshot(go))
        for k, v in saved.items():
            setattr(ctx.C, k, v.copy() if isinstance(v, (dict, list)) else v)
    a, b = outs
    for k, x in enumerate(a):
        ck.fact('again%d' % k, k < len(b) and x == b[k], 'a second run on the same key, inputs and resources computes something else', how='symbolic execution', hard=False,
                text='the results are a function of the key, the inputs and the resources')


def flat(r):
    out = []

    def go(v, seen):
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, Arr):
            out.append(v)
        elif isinstance(v, dict):
            for y in v.values():
                go(y, seen)
        elif isinstance(v, (list, tuple)):
            for y in v:
                go(y, seen)
        elif hasattr(v, '__dict__') and type(v).__module__ != 'builtins' and not callable(v):
            for y in vars(v).values():
                go(y, seen)
    go(r, set())
    return out


def kernel(which):
    def f(ck, w, s):
        tag(ck, s)
        D = s.dim('D')
        x, key, data, fn = s.arr('x', (D,)), s.key('key'), rich_data(s, D), s.fun('logp')
        eps = s.real('eps', pos=True)
        if which == 'GRW':
            k = w['resource.kernel.Gaussian_random_walk'].GaussianRandomWalk(step_size=eps)
        elif which == 'MALA':
            k = w['resource.kernel.MALA'].MALA(step_size=eps)
        else:
            k = w['resource.kernel.HMC'].HMC(s.spd('M', D), eps, wrapdim(s.int('nl', 1)))
        go = lambda: k.kernel(key, x, fn(x, data), fn, data)
        repeat(ck, go)
        n = 0
        for p in ck.paths_of(go):
            n += 1
            us = discipline(ck, 'p%d' % n, result_terms([], p.result), key.term(), min_uses=2)
    return f


def nf(ck, w, s):
    tag(ck, s)
    D, n = s.dim('D'), s.int('n', 1)
    m = flow(s, D)
    x, key, fn = s.arr('x', (D,)), s.key('key'), s.fun('logp')
    data = {'d': s.obj('d'), 'n_steps': wrapdim(n)}
    B = s.int('B', 1)
    k = w['resource.kernel.NF_proposal'].NFProposal(m, n_NFproposal_batch_size=wrapdim(B))
    go = lambda: k.kernel(key, x, fn(x, data), fn, data)
    repeat(ck, go)
    c = 0
    for p in ck.paths_of(go):
        c += 1
        discipline(ck, 'p%d' % c, result_terms([], p.result), key.term(), min_uses=2)


def pt(training):
    def f(ck, w, s):
        tag(ck, s)
        S = PTSetup(ck, w, s, training)
        repeat(ck, S.run)
        n = 0
        for p in ck.paths_of(S.run):
            n += 1
            k2, r2, x2 = p.result
            discipline(ck, 'p%d' % n, result_terms(r2, x2), S.key.term(), k2.term(), min_uses=2)
    return f


def adam(call):
    def f(ck, w, s):
        from .c17 import setup
        tag(ck, s)
        o, C_, D, n, x0, fn, b, lvl, lr, key, data = setup(w, s, False)
        go = (lambda: o(key, {}, x0, data)) if call else (lambda: o.optimize(key, lambda p, d: -fn(p, d), x0, data))
        repeat(ck, go)
        c = 0
        for p in ck.paths_of(go):
            c += 1
            k2 = p.result[0]
            discipline(ck, 'p%d' % c, result_terms([], p.result[1:]), key.term(), k2.term())
    return f


def train(ck, w, s):
    from .c16 import prepare
    tag(ck, s)
    go, log, key, _ = prepare(w, s, True)
    repeat(ck, go)
    c = 0
    for p in ck.paths_of(go):
        c += 1
        (k2, r2, x2), res, _, _ = p.result
        discipline(ck, 'p%d' % c, result_terms(r2, x2), key.term(), k2.term(), min_uses=2)


def flow_draw(kind):
    """drawing from a flow: the real sample method over any base distribution or network"""
    def f(ck, w, s):
        from . import c13, c14
        tag(ck, s)
        key, n = s.key('key'), s.dim('n')
        if kind in ('RealNVP', 'MaskedCouplingRQSpline'):
            D, mean, cov, diag, base, m = c13.setup(w, s, kind, 'cov')
            gos = [('', lambda: m.sample(key, n))]
        elif kind == 'FlowMatchingModel':
            M, net, mean, cov, diag, m = c14.model(ck, w, s, s.dim('D'), 'cov')
            gos = [('model/', lambda: m.sample(key, n)), ('solver/', lambda: m.solver.sample(key, n, dt=s.real('dt', pos=True)))]
        elif kind == 'Gaussian':
            D = s.dim('D')
            g = w['resource.model.common'].Gaussian(s.arr('mean', (D,)), s.spd('cov', D), learnable=False)
            gos = [('', lambda: g.sample(key, n))]
        else:
            D = s.dim('D')
            gos = [('%d/' % b, lambda c=c13.blocks(ck, w, s, b, D)[0]: c.sample(key, n)) for b in (1, 2, 3)]
        for nm, go in gos:
            repeat(ck, go)
            c = 0
            for p in ck.paths_of(go):
                c += 1
                discipline(ck, '%sp%d' % (nm, c), result_terms([], p.result), key.term())
    return f


def fit(kind, what):
    """the training loops behind TrainModel"""
    def f(ck, w, s):
        from . import c15
        tag(ck, s)
        c = c15.Case(w, s, kind, {'train': 'epoch', 'train_epoch': 'step'}[what])
        E, B, key = s.int('E', 1), s.int('B', 1), s.key('key')
        if what == 'train':
            go = lambda: c.m.train(key, c.arg, c.optim, c.state, wrapdim(E), wrapdim(B), verbose=False)
        else:
            go = lambda: c.m.train_epoch(key, c.optim, c.state, c.arg, wrapdim(B))
        repeat(ck, go)
        n = 0
        for p in ck.paths_of(go):
            n += 1
            r = p.result
            few = what == 'train_epoch' and not ctx.C.scan_list
            # one epoch's training neither returns nor passes on a key
            discipline(ck, 'p%d' % n, result_terms([], r[1:] if what == 'train' else r), key.term(), T_key(r[0]) if what == 'train' else None, min_uses=0 if few else 1)
    return f


def T_key(k):
    return asarr(k).term()


def run(ck):
    TS = 'flowMC.strategy.take_steps:'
    F = [TS + x for x in ('TakeSteps.__call__', 'TakeSerialSteps.body', 'TakeSerialSteps.sample', 'TakeGroupSteps.sample')]
    for g in (False, True):
        for b in (False, True):
            ck.unit('%s%s' % ('TakeGroupSteps' if g else 'TakeSerialSteps', '[batched]' if b else ''), steps(g, b), F, 5)
    for k, m in (('GRW', 'Gaussian_random_walk:GaussianRandomWalk'), ('MALA', 'MALA:MALA'), ('HMC', 'HMC:HMC')):
        ck.unit(k, kernel(k), ['flowMC.resource.kernel.%s.kernel' % m], 5)
    ck.unit('NFProposal', nf, ['flowMC.resource.kernel.NF_proposal:NFProposal.kernel', 'flowMC.resource.kernel.NF_proposal:NFProposal.sample_flow'], 5)
    for t in (True, False):
        ck.unit('ParallelTempering[%s]' % ('training' if t else 'production'), pt(t), PT_FNS, 6)
    for c in (False, True):
        ck.unit('AdamOptimization.%s' % ('__call__' if c else 'optimize'), adam(c), ['flowMC.strategy.optimization:AdamOptimization.optimize', 'flowMC.strategy.optimization:AdamOptimization.__call__'], 4)
    ck.unit('TrainModel', train, ['flowMC.strategy.train_model:TrainModel.__call__'], 4)
    CM, NB = 'flowMC.resource.model.common:', 'flowMC.resource.model.nf_model.'
    FB = 'flowMC.resource.model.flowmatching.base:'
    for k, fns in (('RealNVP', [NB + 'realNVP:RealNVP.sample']), ('MaskedCouplingRQSpline', [NB + 'rqSpline:MaskedCouplingRQSpline.sample']),
                   ('FlowMatchingModel', [FB + 'FlowMatchingModel.sample', FB + 'Solver.sample']), ('Gaussian', [CM + 'Gaussian.sample']), ('Composable', [CM + 'Composable.sample'])):
        ck.unit('draw/' + k, flow_draw(k), fns, 3)
    for k, P in (('NF', NB + 'base:NFModel.'), ('FM', FB + 'FlowMatchingModel.')):
        for what in ('train', 'train_epoch'):
            ck.unit('%s/%s' % (k, what), fit(k, what), [P + what], 3)
    ck.assume('the key generator is ideal: keys with different derivation paths are different and give independent draws; keys with equal paths up to the number of keys asked of a split coincide',
              'local kernels, flows and training are used by the strategies by contract: they draw only from keys derived from the one they are given (proved for the kernels and draws here)')
