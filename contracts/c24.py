"""C24: training moves the trainable parameters and nothing else.

The losses and log densities are executed with every parameter a symbol; stop_gradient turns the parameters below it
into their held values.  A parameter is frozen when the differentiated value is, as a function of the live parameters,
independent of it; it is trainable when the value does not use its held value."""
from .common import *
from engine.arr import wrapdim
from .steps import reach1
from . import c12, c13, c14, c15

CM, RN, NB, RQ, FM = c12.CM, c12.RN, c12.NB, c12.RQ, c14.FM


def hold(*names):
    ctx.C.hold = set(names)


def other(t, name):
    """t with parameter `name` (live) replaced by an unrelated value"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if x.op == 'var' and x.args[0] == name:
            r = ir.var('other:' + name, x.sort)
        elif x.op == 'app' and x.args[0] == name:
            r = ir.app('other:' + name, x.sort, *[go(a) if isinstance(a, ir.T) else a for a in x.args[1:]])
        elif x.op in ('lam', 'sum', 'all'):
            vs, dims, body = ir.open_binder(x)
            b = other(body, name)
            r = ir.lam(vs, dims, b) if x.op == 'lam' else ir.sum_(vs[0], dims[0], b) if x.op == 'sum' else ir.all_(vs[0], dims[0], b)
        elif any(isinstance(a, ir.T) for a in x.args):
            r = ir.rebuild(x, [go(a) if isinstance(a, ir.T) else a for a in x.args])
        else:
            r = x
        memo[x] = r
        return r
    return go(t)


def values(res):
    """generic entries of everything in a result, and of what the loops it went through carry"""
    ls, _ = fakes.flatten(res)
    out = [asarr(x).fn(*[ctx.C.gen('i', ZERO, dT(d)) for d in asarr(x).sh]) for x in ls if isinstance(x, Arr)]
    for x in [norm().canon(t) for t in out]:
        out += [y for y in reach1([x]) if y.op == 'app' and y.args[0] in ctx.C.scans]
    full = list(out)
    for t in out:
        if t.op == 'app' and t.args[0] in ctx.C.scans:
            sd = ctx.C.scans[t.args[0]]
            l = sd.parts(t.args[0])
            full += [l[3], l[4]]
    return full


def check(ck, tag, res, frozen=(), trainable=()):
    ts = values(res)
    for nm in frozen:
        bad = [t for t in ts if t is not other(t, nm)]
        # what mentions the live parameter must not depend on it
        ck.prove('%s/frozen/%s' % (tag, nm), ir.and_(*[arr.eqT(t, other(t, nm)) for t in bad]) if bad else TRUE,
                 text='the value does not change with %s: its gradient is zero' % nm)
    for nm in trainable:
        h = 'held:' + nm
        bad = [t for t in ts if t is not other(t, h)]
        ck.prove('%s/trainable/%s' % (tag, nm), ir.and_(*[arr.eqT(t, other(t, h)) for t in bad]) if bad else TRUE,
                 text='the gradient with respect to %s is that of the whole value' % nm)
        ck.fact('%s/reaches/%s' % (tag, nm), any(t is not other(t, nm) for t in ts), 'the value does not mention ' + nm, hard=False, text='the value depends on ' + nm)
    whole = [x for t in ts for x in ir.subterms(t, set(), into_binders=True) if x.op == 'app' and x.args[0] == 'held:']
    ck.fact(tag + '/no-carried-stop', not whole, 'a value carried by a loop is held', hard=False)


def live_flow(w, s, kind, D, mean, cov, base=None, L=None, key=None):
    """a flow of the given kind: its maps any function of the weights; built by its constructor when `key` is given"""
    cls = c13.flow_class(w, kind)
    th = s.obj('weights')

    class M(cls):
        if key is None:
            def __init__(self):
                self._data_mean, self._data_cov, self._n_features = mean, cov, D
                self.base_dist = base
                self.net = th

        def forward(self, x, key=None, condition=None):
            x = asarr(x)
            if x.ndim != 1:
                raise TypeError('forward got rank %d' % x.ndim)
            a = (lam_of(x), fakes.fingerprint(condition), asarr(self.net).term())
            return Arr(x.sh, lambda i: ir.app('FW', 'R', i, *a), 'f'), Arr((), lambda: ir.app('LD', 'R', *a), 'f')

        def inverse(self, x, condition=None):
            raise Unsupported('the inverse map in a density')
    if key is None:
        return M()
    m = M(D, L, 3, key, data_mean=mean, data_cov=cov) if kind == 'RealNVP' else M(D, L, [3], 4, key, data_mean=mean, data_cov=cov)
    m.net = th
    return m


def density(kind):
    """loss and log density of a normalizing flow"""
    def f(ck, w, s):
        hold('mean', 'wcov', 'bmean', 'bcov', 'weights', 'base')
        D, N = s.dim('D'), s.dim('N')
        x, X = s.arr('x', (D,)), s.arr('X', (N, D))
        mean, cov = s.arr('mean', (D,)), s.arr('wcov', (D, D), pos=True)
        G = w['resource.model.common'].Gaussian
        key = s.key()

        def symbolic(base):
            """the base distribution the constructor chose, with any parameters"""
            ls, rb = fakes.flatten(base)
            new = iter((s.arr('bmean', (D,)), s.spd('bcov', D)))
            return rb([next(new) if isinstance(y, Arr) else y for y in ls])

        def default():
            m = live_flow(w, s, kind, D, mean, cov, L=s.dim('L'), key=key)
            m.base_dist = symbolic(m.base_dist)
            return m
        gs = lambda **k: G(s.arr('bmean', (D,)), s.spd('bcov', D), **k)
        cases = (('default-base', default, ('bmean', 'bcov'), ()),
                 ('given-base', lambda: live_flow(w, s, kind, D, mean, cov, gs()), ('bmean', 'bcov'), ()),
                 ('fixed-base', lambda: live_flow(w, s, kind, D, mean, cov, gs(learnable=False)), ('bmean', 'bcov'), ()),
                 ('learnable-base', lambda: live_flow(w, s, kind, D, mean, cov, gs(learnable=True)), (), ('bmean', 'bcov')),
                 ('user-base', lambda: live_flow(w, s, kind, D, mean, cov, c13.abs_dist(w, s, D)), (), ('base',)))
        for t, mk, fr, tr in cases:
            m = ck.run1(mk)
            for nm, go in (('log_prob', lambda: m.log_prob(x)), ('loss', lambda: m.loss_fn(X)[0])):
                for p in ck.paths_of(go):
                    check(ck, '%s/%s' % (t, nm), p.result, ('mean', 'wcov') + fr, ('weights',) + tr)
    return f


def flow_matching(ck, w, s):
    D, N = s.dim('D'), s.dim('N')
    hold('mean', 'cov', 'var', 'net')
    for which in ('cov', 'scalar'):
        n = D if which == 'cov' else 1
        M, net, mean, cov, diag, m = c14.model(ck, w, s, n, which)
        x = s.arr('x%s' % n, (n,))
        b = [s.arr('%s/%s' % (k, which), (N, d)) for k, d in (('X', n), ('t', 1), ('dx', n))]
        stats = ('mean', 'cov' if which == 'cov' else 'var')
        for p in ck.paths_of(lambda: m.loss_fn(*b)[0]):
            check(ck, which + '/loss', p.result, stats, ('net',))
        for p in ck.paths_of(lambda: m.log_prob(x)):
            r = [p.result] + [ode_terms(e) for e in c14.odes()]
            check(ck, which + '/log_prob', r, stats, ())


def ode_terms(e):
    return [y for y in e if isinstance(y, Arr)]


def layers(ck, w, s):
    D = s.dim('D')
    hold('mask', 'theta', 'a', 'b', 'weights', 'lo', 'hi', 'min_bin', 'min_slope')
    x = s.arr('x', (D,))
    c = s.obj('c')
    CMm = w['resource.model.common']
    both = (('forward', lambda l: (lambda: l.forward(x, c))), ('inverse', lambda l: (lambda: l.inverse(x, c))))
    l = CMm.MaskedCouplingLayer(c12.abs_bijection(w, s, D)(), s.arr('mask', (D,)))
    for d, go in both:
        for p in ck.paths_of(go(l)):
            check(ck, 'MaskedCouplingLayer/' + d, p.result, ('mask',), ('theta',))
    # affine maps: everything is trainable
    l = CMm.ScalarAffine(s.real('a'), s.real('b'))
    for d, go in both:
        for p in ck.paths_of(go(l)):
            check(ck, 'ScalarAffine/' + d, p.result, (), ('a', 'b'))
    cv = s.arr('cv', (D,))
    l = CMm.MLPAffine(net(s, 'scale', D), net(s, 'shift', D))
    for d, go in (('forward', lambda: l.forward(x, cv)), ('inverse', lambda: l.inverse(x, cv))):
        for p in ck.paths_of(go):
            check(ck, 'MLPAffine/' + d, p.result, (), ('weights',))
    a = w['resource.model.nf_model.realNVP'].AffineCoupling(D, 3, s.arr('mask', (D,)), s.key('key'))
    a.scale_MLP, a.translate_MLP = net(s, 'scale', D), net(s, 'shift', D)
    for d, go in (('forward', lambda: a.forward(x)), ('inverse', lambda: a.inverse(x))):
        for p in ck.paths_of(go):
            check(ck, 'AffineCoupling/' + d, p.result, ('mask',), ('weights',))
    # the real network: every weight and bias
    H = s.dim('H')
    for nm, shape in (('MLP', [D, H, D]), ('MLP2', [D, H, H, D])):
        m = CMm.MLP(shape, s.key('key'))
        ls, rb = fakes.flatten(m)
        names = []

        def sym(y):
            if not isinstance(y, Arr) or y.dt != 'f':
                return y
            names.append('w%d' % len(names))
            return s.arr(names[-1], y.sh)
        m = rb([sym(y) for y in ls])
        hold(*names)
        for p in ck.paths_of(lambda: m(x)):
            check(ck, nm, p.result, (), names)


def net(s, name, D):
    """a network of the input, with weights"""
    th = s.obj('weights')

    def f(x, **kw):
        t = lam_of(asarr(x))
        return Arr((arr.D(D),), lambda i: ir.app(name, 'R', i, t, th.term()), 'f')
    return f


def spline(ck, w, s):
    """ranges and floors of the spline, given as arrays, are not trained; the conditioner is"""
    mod = w['resource.model.nf_model.rqSpline']
    D, K, H = s.dim('D'), s.int('K', 1), s.dim('H')
    hold('lo', 'hi', 'min_bin', 'min_slope', 'weights')
    lo, hi, mb, ms = s.real('lo'), s.real('hi'), s.real('min_bin', pos=True), s.real('min_slope', pos=True)
    ctx.C.facts.append(ir.lt(ir.mul(K, T_(mb)), ir.sub(T_(hi), T_(lo))))
    ctx.C.facts.append(ir.lt(T_(ms), c12.ONE_R()))
    out = wrapdim(ir.mul(dT(arr.D(D)), ir.add(ir.mul(const(3), K), ONE)))
    th = s.obj('weights')

    class Net:
        n_input, n_output, dtype = D, out, fakes._dt('float32', 'f')

        def __call__(self, c):
            t = lam_of(asarr(c))
            return Arr((arr.D(out),), lambda n: ir.app('P', 'R', n, t, th.term()), 'f')
    b = mod.RQSpline(Net(), lo, hi, mb, ms)
    c = s.arr('c', (H,))
    for p in ck.paths_of(lambda: b.get_params(c)):
        check(ck, 'get_params', p.result, ('lo', 'hi', 'min_bin', 'min_slope'), ('weights',))


def whole(kind):
    """the maps of a flow pass the gradient to the parameters of every layer"""
    def f(ck, w, s):
        D, L = s.dim('D'), s.dim('L')
        hold('theta:a', 'theta:b')
        mod = w['resource.model.nf_model.' + ('realNVP' if kind == 'RealNVP' else 'rqSpline')]
        cls = mod.RealNVP if kind == 'RealNVP' else mod.MaskedCouplingRQSpline
        m = object.__new__(cls)
        if kind == 'RealNVP':
            m.affine_coupling = c12.abs_layer(w, s, 'a', D, L)
            parts = ['a']
        else:
            m.layers = fakes.Sequential([c12.abs_layer(w, s, 'a', D, L), c12.abs_layer(w, s, 'b', D, L)])
            parts = ['a', 'b']
        x = s.arr('x', (D,))
        for d in ('forward', 'inverse'):
            for p in ck.paths_of(lambda: getattr(m, d)(x)):
                check(ck, d, p.result, (), ['theta:' + q for q in parts])
    return f


def run(ck):
    ck.assume('C24: stop_gradient is the identity whose derivative is zero; the gradient of a value with respect to a parameter it does not depend on is zero',
              'C24: an optimizer update for a zero gradient is zero (every optax transformation without weight decay)')
    for k, N in (('RealNVP', RN + 'RealNVP'), ('MaskedCouplingRQSpline', RQ + 'MaskedCouplingRQSpline')):
        fns = [N + '.log_prob', N + '.__init__', NB + 'NFModel.loss_fn', CM + 'Gaussian.log_prob', CM + 'Gaussian.mean', CM + 'Gaussian.cov', CM + 'Gaussian.__init__']
        fns += [N + '.data_mean', N + '.data_cov'] if k == 'RealNVP' else [NB + 'NFModel.data_mean', NB + 'NFModel.data_cov']
        ck.unit(k, density(k), fns, 30)
        ck.unit(k + '.maps', whole('RealNVP' if k == 'RealNVP' else 'RQS'), [N + '.forward', N + '.inverse'], 4)
    ck.unit('FlowMatchingModel', flow_matching, [FM + 'FlowMatchingModel.loss_fn', FM + 'FlowMatchingModel.log_prob', FM + 'FlowMatchingModel.data_mean', FM + 'FlowMatchingModel.data_cov', FM + 'Solver.log_prob'], 8)
    ck.unit('layers', layers, [CM + x for x in ('MaskedCouplingLayer.forward', 'MaskedCouplingLayer.inverse', 'MaskedCouplingLayer.mask', 'ScalarAffine.forward', 'ScalarAffine.inverse', 'MLPAffine.forward', 'MLPAffine.inverse',
                                                'MLP.__call__')] + [RN + 'AffineCoupling.forward', RN + 'AffineCoupling.inverse', RN + 'AffineCoupling.mask'], 15)
    ck.unit('RQSpline', spline, [RQ + 'RQSpline.get_params'] + [RQ + 'RQSpline.' + x for x in ('range_min', 'range_max', 'min_bin_size', 'min_knot_slope')], 5)
