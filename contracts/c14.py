"""C14: flow matching regresses the right velocity and reports the right density."""
from .common import *
from engine.arr import wrapdim

FM = 'flowMC.resource.model.flowmatching.base:'
NONE = fakes.fingerprint(None)


def ZR():
    return const(0, 'R')


def network(s, D):
    """any velocity network: D + 1 inputs, D outputs; output i at z is NET(i, z)"""
    one = wrapdim(ir.add(dT(arr.D(D)), ONE))

    class Net(fakes.Module):
        def __init__(self):
            self.w = s.obj('net')

        n_input, n_output, dtype = one, D, fakes._dt('float32', 'f')

        def __call__(self, z):
            z = asarr(z)
            if z.ndim != 1:
                raise TypeError('the network got rank %d' % z.ndim)
            t, u = lam_of(z), asarr(self.w).term()
            return Arr((arr.D(D),), lambda i: ir.app('NET', 'R', i, t, u), 'f')
    return Net()


def net_at(D, i, y, t, u):
    """NET(i, concat(y, [t]))"""
    n = dT(arr.D(D))
    z = lam1(wrapdim(ir.add(n, ONE)), lambda k: ir.ite(ir.lt(k, n), y(k), t))
    return ir.app('NET', 'R', i, z, u)


def div_at(D, y, t, u):
    n = dT(arr.D(D))
    z = lam1(wrapdim(ir.add(n, ONE)), lambda k: ir.ite(ir.lt(k, n), y(k), t))
    return S(D, lambda k: ir.app('D1:NET', 'R', k, k, z, u))


def mod(w):
    return w['resource.model.flowmatching.base']


def scheduler(ck, w, s):
    M = mod(w)
    t = s.real('t')
    sch = M.CondOTScheduler()
    get = lambda k: (lambda v: asarr(sch(v)[k]).astype('f') + ZR0(v))
    a, da, g, dg = [asarr(x) for x in sch(t)]
    ck.prove('d_alpha', ir.eq(da.term(), T_(fakes.jax.grad(get(0))(t))), text='d_alpha is the time derivative of alpha')
    ck.prove('d_sigma', ir.eq(dg.term(), T_(fakes.jax.grad(get(2))(t))), text='d_sigma is the time derivative of sigma')
    for v, (wa, ws) in ((0.0, (0, 1)), (1.0, (1, 0))):
        a, _, g, _ = [asarr(x) for x in sch(asarr(v))]
        ck.prove('at%d' % v, ir.and_(ir.eq(a.term(), R(wa)), ir.eq(g.term(), R(ws))), text='(alpha, sigma) at time %d is (%d, %d)' % (v, wa, ws))


def ZR0(v):
    return asarr(v) * 0.0


def path(ck, w, s):
    """any scheduler whose reported derivatives are the derivatives"""
    M = mod(w)
    D = s.dim('D')
    x0, x1, t = s.arr('x0', (D,)), s.arr('x1', (D,)), s.real('t')
    i, = fresh_idx(D)

    class Sch(M.Scheduler):
        def __call__(self, t):
            t = asarr(t).term()
            return tuple(Arr((), lambda n=n: ir.app(n, 'R', t), 'f') for n in ('alpha', 'D0:alpha', 'sigma', 'D0:sigma'))
    for nm, sch in (('any', Sch()), ('CondOT', M.CondOTScheduler())):
        p = M.Path(sch)
        x, dx = p.sample(x0, x1, t)
        der = asarr(fakes.jax.jacrev(lambda v: p.sample(x0, x1, v)[0])(t))
        ck.prove(nm + '/velocity', ir.eq(asarr(dx).fn(i), der.fn(i)), text='the reported velocity is the time derivative of the point')
        if nm == 'any':
            ck.prove(nm + '/point', ir.eq(asarr(x).fn(i), ir.add(ir.mul(ir.app('sigma', 'R', t.term()), x0.fn(i)), ir.mul(ir.app('alpha', 'R', t.term()), x1.fn(i)))))
        else:
            for v, e in ((0.0, x0), (1.0, x1)):
                ck.prove('%s/at%d' % (nm, v), ir.eq(asarr(p.sample(x0, x1, asarr(v))[0]).fn(i), e.fn(i)), text='the path starts at the base sample and ends at the data sample')
    # a whole batch: one time per row
    B = s.dim('B')
    X0, X1, tt = s.arr('X0', (B, D)), s.arr('X1', (B, D)), s.arr('tt', (B, 1))
    r, i = fresh_idx(B, D)
    p = M.Path(M.CondOTScheduler())
    X, dX = [asarr(v) for v in p.sample(X0, X1, tt)]
    x, dx = [asarr(v) for v in p.sample(X0[Arr((), lambda: r, 'i')], X1[Arr((), lambda: r, 'i')], tt[Arr((), lambda: r, 'i'), 0])]
    ck.prove('batch', ir.and_(ir.eq(X.fn(r, i), x.fn(i)), ir.eq(asarr(dX).fn(*((r, i) if dX.ndim == 2 else (i,))), dx.fn(i))), text='row r of a batch is the path of row r at its own time')


def model(ck, w, s, D, which):
    """the flow-matching model with any network and whitening"""
    M = mod(w)
    net = network(s, D)
    mean = s.arr('mean', (D,))
    if which == 'cov':
        cov = s.arr('cov', (D, D))
        diag = lambda i: cov.fn(i, i)
        v = ir.fresh('d')
        ctx.C.facts.append(ir.all_(v, dT(arr.D(D)), ir.lt(ZR(), diag(v))))
        s.interp['cov'] = lambda v, i, j: (0.3 + abs(v.smooth('cov', (i,), 'R'))) if i == j else v.smooth('cov2', (i, j), 'R')
    else:
        cov = s.real('var', pos=True)
        diag = lambda i: cov.term()
    m = M.FlowMatchingModel(M.Solver(net), M.Path(M.CondOTScheduler()), data_mean=mean, data_cov=cov)
    return M, net, mean, cov, diag, m


def pos_of(diag):
    return lambda u: u.op == 'app' and u.args[0] == 'cov' and len(u.args) == 3 and u.args[1] is u.args[2]


def odes():
    return [e for e in ctx.C.events if e[0] == 'ode']


def familiar(D, evs):
    """states made of one point and possibly one accumulated number; integration between 0 and 1"""
    for e in evs:
        lv = [asarr(x) for x in fakes.flatten(e[5])[0]]
        if sorted(x.ndim for x in lv) not in ([1], [0, 1]) or not all(arr.same_dim(x.sh[0], arr.D(D)) for x in lv if x.ndim):
            return False
        if not all(ir.isconst(v) and v.args[0] in (0, 1) for v in (e[3], e[4])):
            return False
    return True


def steps_forward(ck, t, evs, dt):
    """precondition of the integrator: the step points from t0 to t1"""
    for k, e in enumerate(evs):
        if e[6] is not None:
            ck.prove('%sstep%d' % (t, k), ir.lt(ZR(), ir.mul(asarr(e[6]).astype('f').term(), ir.sub(e[4], e[3]))), text='the step size given to the integrator points from t0 to t1')


def expected_flow(D, i, y0, u, t0, t1):
    """value at t1 of the solution of y' = NET(y, t), y(t0) = y0"""
    yp = Arr((arr.D(D),), lambda k: ir.app('odeY0', 'R', k), 'f')
    e = lambda t, y, a: Arr((arr.D(D),), lambda k: net_at(D, k, lambda n: y.fn(n), t.term(), u), 'f')
    ev = list(ctx.C.events)
    sol = fakes.diffeqsolve(fakes.ODETerm(e), None, t0, t1, None, Arr((arr.D(D),), y0, 'f'))
    ctx.C.events[:] = ev
    return asarr(sol.ys).fn(ZERO, i)


def expected_logp(D, y0, u):
    """base log density at the point reached at time 0 + integral from 1 to 0 of the divergence"""
    e = lambda t, st, a: [Arr((arr.D(D),), lambda k: net_at(D, k, lambda n: st[0].fn(n), t.term(), u), 'f'), Arr((), lambda: div_at(D, lambda n: st[0].fn(n), t.term(), u), 'f')]
    ev = list(ctx.C.events)
    sol = fakes.diffeqsolve(fakes.ODETerm(e), None, 1.0, 0.0, None, [Arr((arr.D(D),), y0, 'f'), asarr(0.0)])
    ctx.C.events[:] = ev
    x0, l = [asarr(v) for v in sol.ys]
    z = lam1(D, lambda k: x0.fn(ZERO, k))
    v = ir.fresh('r'), ir.fresh('c')
    eye = ir.lam(v, (dT(arr.D(D)),) * 2, ir.b2n(ir.eq(*v)))
    return ir.add(ir.app('mvn.logpdf', 'R', z, eye), l.fn(ZERO))


def std_normal(D, key, n, r):
    """row r of the standard normal noise drawn from a key"""
    z = asarr(fakes.jax.random.normal(Arr((), lambda: key, 'k'), (n, D)))
    return lambda k: z.fn(r, k)


def sampling(ck, w, s):
    for which in ('cov', 'scalar'):
        t = '' if which == 'cov' else 'one-feature/'
        D = s.dim('D') if which == 'cov' else 1
        M, net, mean, cov, diag, m = model(ck, w, s, D, which)
        n, dt, key = s.dim('n'), s.real('dt', pos=True), s.key()
        sd = lambda k: ir.fn('sqrt', diag(k))
        u = asarr(net.w).term()
        i, = fresh_idx(D)
        r = ctx.C.gen('r', ZERO, dT(arr.D(n)))
        hy = [ir.lt(ZR(), diag(i))]
        for nm, f in (('solver', lambda: m.solver.sample(key, n, dt=dt)), ('model', lambda: m.sample(key, n, dt=dt)), ('default-step', lambda: m.sample(key, n))):
            ctx.C.events = []
            out = asarr(f())
            evs = odes()
            fam = familiar(D, evs)
            steps_forward(ck, t + nm + '/', evs, dt)
            a = asarr(out).fn(*([r, i] if out.ndim == 2 else [r, ZERO, i]))
            ck.fact(t + nm + '/shape', out.ndim == 2 and ir_same(out.sh[0], n) and ir_same(out.sh[1], D), 'shape %s' % (out.sh,), text='one row per requested draw', hard=out.ndim == 2)
            ks = draws(a)
            ck.fact(t + nm + '/noise', len(ks) == 1 and list(ks)[0][0] == 'normal', str(ks), hard=False, text='draws depend on one block of standard normal noise')
            kk = list(ks)[0][1]
            y = expected_flow(D, i, std_normal(D, kk, n, r), u, 0.0, 1.0)
            want = y if nm == 'solver' else ir.add(ir.mul(y, sd(i)), mean.fn(i))
            ck.prove(t + nm + '/sample', ir.eq(a, want), hy, positive=pos_of(diag), aux=not fam,
                     text='draw r = (un-whitened) value at time 1 of the velocity field started at time 0 from row r of the noise')


def ir_same(a, b):
    return same(dT(arr.D(a)), dT(arr.D(b)))


def density(ck, w, s):
    for which in ('cov', 'scalar'):
        t = '' if which == 'cov' else 'one-feature/'
        D = s.dim('D') if which == 'cov' else 1
        M, net, mean, cov, diag, m = model(ck, w, s, D, which)
        x, dt = s.arr('x', (D,)), s.real('dt', pos=True)
        sd = lambda k: ir.fn('sqrt', diag(k))
        u = asarr(net.w).term()
        v = ir.fresh('d')
        hy = [ir.all_(v, dT(arr.D(D)), ir.lt(ZR(), diag(v)))]
        for nm, f in (('solver', lambda: m.solver.log_prob(x, dt=dt)), ('default-step', lambda: m.solver.log_prob(x)), ('model', lambda: m.log_prob(x))):
            ctx.C.events = []
            out = asarr(f())
            evs = odes()
            fam = familiar(D, evs)
            steps_forward(ck, t + nm + '/', evs, dt)
            ck.fact(t + nm + '/one-number', all(same(dT(d), ONE) for d in out.sh), 'shape %s' % (out.sh,), text='one log density per point')
            a = out.fn(*[ZERO] * out.ndim)
            y0 = (lambda k: x.fn(k)) if nm != 'model' else (lambda k: ir.div(ir.sub(x.fn(k), mean.fn(k)), sd(k)))
            want = expected_logp(D, y0, u)
            if nm == 'model':
                want = ir.sub(want, S(D, lambda k: log(sd(k))))
            ck.prove(t + nm + '/log_prob', ir.eq(a, want), hy, positive=pos_of(diag), aux=not fam,
                     text='standard normal log density at the point reached by integrating back from 1 to 0, plus the integral of the divergence (from 1 to 0), plus the log determinant of the whitening')


def loss(ck, w, s):
    D, B = s.dim('D'), s.dim('B')
    M, net, mean, cov, diag, m = model(ck, w, s, D, 'cov')
    x, t, dx = s.arr('x', (B, D)), s.arr('t', (B, 1)), s.arr('dx', (B, D))
    u = asarr(net.w).term()
    f = M.FlowMatchingModel.loss_fn
    f = getattr(f, '__wrapped__', f)
    out = T_(asarr(f(m, x, t, dx)))
    v = ir.fresh('b')
    n, b = dT(arr.D(D)), dT(arr.D(B))
    e = lambda r, k: ir.sub(net_at(D, k, lambda q: x.fn(r, q), t.fn(r, ZERO), u), dx.fn(r, k))
    want = ir.div(S(B, lambda r: S(D, lambda k: ir.mul(e(r, k), e(r, k)))), ir.mul(b, n))
    ck.prove('objective', ir.eq(out, want), text='mean over examples and features of the squared difference between the network at (point, time) and the velocity')


def init(ck, w, s):
    M = mod(w)
    D = s.dim('D')
    net = network(s, D)
    i, j = fresh_idx(D, D)
    m = M.FlowMatchingModel(M.Solver(net), M.Path(M.CondOTScheduler()))
    ck.prove('features', ir.eq(dT(arr.D(m.n_features)), dT(arr.D(D))))
    ck.prove('default-whitening', ir.and_(ir.eq(asarr(m.data_mean).fn(i), ZR()), ir.eq(asarr(m.data_cov).fn(i, j), ir.b2n(ir.eq(i, j)))), text='no whitening by default')
    mean, cov = s.arr('mean', (D,)), s.arr('cov', (D, D))
    so, pa = M.Solver(net), M.Path(M.CondOTScheduler())
    m = M.FlowMatchingModel(so, pa, data_mean=mean, data_cov=cov)
    ck.eq('given-mean', asarr(m.data_mean), mean)
    ck.eq('given-cov', asarr(m.data_cov), cov)
    ck.fact('parts', m.solver is so and m.path is pa, 'solver or path replaced')
    ck.fact('network', m.solver.model is net, 'network replaced')


def run(ck):
    ck.assume('C14: the ODE integrator (diffrax) returns the exact solution of the initial value problem; a component of the state whose derivative depends on the other components only is their integral along the solution (integration is linear)',
              'C14: the instantaneous change of variables formula (log density changes along the flow by minus the divergence) turns the stated expression into the density of the samples',
              'C14: the network is any function of its input; jax differentiates it exactly',
              'C14: the diagonal of the data covariance is positive')
    ck.unit('CondOTScheduler', scheduler, [FM + 'CondOTScheduler.__call__'], 4)
    ck.unit('Path.sample', path, [FM + 'Path.sample'], 5)
    ck.unit('loss_fn', loss, [FM + 'FlowMatchingModel.loss_fn'], 1)
    ck.unit('sample', sampling, [FM + 'Solver.sample', FM + 'FlowMatchingModel.sample', FM + 'FlowMatchingModel.data_mean', FM + 'FlowMatchingModel.data_cov'], 15)
    ck.unit('log_prob', density, [FM + 'Solver.log_prob', FM + 'FlowMatchingModel.log_prob'], 12)
    ck.unit('__init__', init, [FM + 'FlowMatchingModel.__init__', FM + 'Solver.__init__', FM + 'Path.__init__', FM + 'FlowMatchingModel.n_features'], 6)
