"""C12: flow transformations and their inverses undo each other exactly."""
from .common import *
from engine.arr import wrapdim
from engine.prove import Prover
from .simp import Simp

LEMMAS = {'Sampling': ['coupling_logdet', 'composition_logdet'],
          'Invariance': ['one_bin', 'spline_strictMono', 'spline_continuous', 'spline_bijective', 'inverse_both_sides', 'composition_jacobian']}

CM = 'flowMC.resource.model.common:'
RN = 'flowMC.resource.model.nf_model.realNVP:'
NB = 'flowMC.resource.model.nf_model.base:'
RQ = 'flowMC.resource.model.nf_model.rqSpline:'


def ZR():
    return const(0, 'R')


def net(s, name, D):
    """an arbitrary conditioner network (values of any function of the whole input)"""
    def f(x, **kw):
        x = asarr(x)
        t = lam_of(x)
        return Arr((arr.D(D),), lambda i: ir.app(name, 'R', i, t), 'f')
    return f


def total(a, D):
    """scalar log determinant of an elementwise bijector: its entries summed over the features"""
    a = asarr(a)
    if a.ndim == 0:
        return S(D, lambda i: a.term())
    return S(D, lambda i: a.fn(i))


def entry(a, i):
    a = asarr(a)
    return a.term() if a.ndim == 0 else a.fn(i)


def jac(f, x, i, j):
    """d f(x)_i / d x_j for a function from vectors to vectors"""
    g = fakes.make_grad(False, jac=True)(f)(x)
    return g.fn(i, j)


def elementwise(ck, tag, b, s, D, cond):
    """contract of an inner bijector: y_i = f_i(x_i; c) with inverse and derivative exp(logdet_i)"""
    x, y = s.arr('x', (D,)), s.arr('y', (D,))
    i, j = fresh_idx(D, D)
    fx, ld = b.forward(x, cond)
    gx, ild = b.inverse(fx, cond)
    ck.eq(tag + '/inverse-of-forward', asarr(gx), x, text='inverse(forward(x)) = x')
    ck.prove(tag + '/logdets', ir.eq(ir.add(entry(ld, i), entry(ild, i)), ZR()), text='the log determinants are negatives of each other')
    gy, ild2 = b.inverse(y, cond)
    fy, ld2 = b.forward(gy, cond)
    ck.eq(tag + '/forward-of-inverse', asarr(fy), y, text='forward(inverse(y)) = y')
    ck.prove(tag + '/logdets2', ir.eq(ir.add(entry(ld2, i), entry(ild2, i)), ZR()))
    J = jac(lambda v: b.forward(v, cond)[0], x, i, j)
    ck.prove(tag + '/jacobian', ir.eq(J, ir.mul(ir.b2n(ir.eq(i, j)), ir.fn('exp', entry(ld, i)))), text='the Jacobian is diagonal with entries exp(log determinant)')
    c0, c1 = b(x, cond)
    ck.eq(tag + '/call', asarr(c0), asarr(fx))
    ck.prove(tag + '/call-logdet', ir.eq(entry(c1, i), entry(ld, i)))


def mlp_affine(ck, w, s):
    D = s.dim('D')
    c = s.arr('c', (D,))
    for kind in ('default', 'dt'):
        k = dict(dt=s.real('dt')) if kind == 'dt' else {}
        def go():
            return w['resource.model.common'].MLPAffine(net(s, 'scale', D), net(s, 'shift', D), **k)
        for p in ck.paths_of(go):
            elementwise(ck, kind, p.result, s, D, c)


def scalar_affine(ck, w, s):
    D = s.dim('D')
    c = s.arr('c', (D,))
    b = w['resource.model.common'].ScalarAffine(s.real('a'), s.real('b'))
    elementwise(ck, 'scalar', b, s, D, c)


def affine_coupling(ck, w, s):
    """the stand-alone coupling layer: mask 1 marks the transformed features"""
    D = s.dim('D')
    x, y = s.arr('x', (D,)), s.arr('y', (D,))
    i, j = fresh_idx(D, D)
    m = mask(s, D)
    L = w['resource.model.nf_model.realNVP'].AffineCoupling
    for dt in (None, s.real('dt')):
        t = 'default' if dt is None else 'dt'
        a = L(D, 3, m, s.key('key'), **({} if dt is None else {'dt': dt}))
        a.scale_MLP, a.translate_MLP = net(s, 'scale', D), net(s, 'shift', D)
        coupling(ck, t, a.forward, a.inverse, x, y, D, lambda k: ir.sub(ONE, m.fn(k)), (lambda k: ir.app('mask', 'B', k), TRUE))
        fx, ld = a(x)
        f2, l2 = a.forward(x)
        ck.eq(t + '/call', fx, f2)
        ck.eq(t + '/call-logdet', ld, l2)


def abs_bijection(w, s, D, scalar_logdet=False):
    """any elementwise bijector: y_i = F(i, x_i, c), with inverse G and log derivative L; parameters theta"""
    base = w['resource.model.common'].Bijection

    class AbsBijection(base):
        def __init__(self, theta=None, *a, **k):
            self.theta = s.obj('theta') if theta is None else theta

        def args(self, i, xi, cond):
            return (i, xi, lam_of(asarr(cond)), asarr(self.theta).term())

        def forward(self, x, condition):
            x = asarr(x)
            return (Arr(x.sh, lambda i: ir.app('F', 'R', *self.args(i, x.fn(i), condition)), 'f'),
                    Arr(x.sh, lambda i: ir.app('L', 'R', *self.args(i, x.fn(i), condition)), 'f'))

        def inverse(self, x, condition):
            x = asarr(x)
            g = lambda i: ir.app('G', 'R', *self.args(i, x.fn(i), condition))
            return (Arr(x.sh, g, 'f'),
                    Arr(x.sh, lambda i: ir.neg(ir.app('L', 'R', *self.args(i, g(i), condition))), 'f'))
    return AbsBijection


def bij_interp(s):
    import math
    l = lambda v, i, c, th: v.smooth('F.l', (i, c, th), 'R')
    t = lambda v, i, c, th: v.smooth('F.t', (i, c, th), 'R')
    s.interp['F'] = lambda v, i, x, c, th: x * math.exp(l(v, i, c, th)) + t(v, i, c, th)
    s.interp['G'] = lambda v, i, x, c, th: (x - t(v, i, c, th)) * math.exp(-l(v, i, c, th))
    s.interp['L'] = lambda v, i, x, c, th: l(v, i, c, th)
    s.interp['D1:F'] = lambda v, i, x, c, th: math.exp(l(v, i, c, th))


def bij_rule(a, n):
    """G inverts F and F inverts G (for the same condition and parameters); the derivative of F is exp(L)"""
    if a.op != 'app' or a.args[0] not in ('F', 'G', 'L', 'D1:F'):
        return None
    i, x = a.args[1:3]
    for m in n.num(x):
        for z, e in m:
            if z.op == 'b2n' and z.args[0].op != 'const':
                # split on an indicator in the argument
                c = z.args[0]
                f = lambda v: ir.app(a.args[0], 'R', *[i, n.canon(ir.replace(x, {c: v}))] + list(a.args[3:]))
                return ir.ite(c, f(TRUE), f(FALSE))
    if a.args[0] == 'D1:F':
        return ir.fn('exp', ir.app('L', 'R', *a.args[1:]))
    if a.args[0] == 'L':
        return None
    o = 'G' if a.args[0] == 'F' else 'F'
    if x.op == 'app' and x.args[0] == o and x.args[1] is i and x.args[3:] == a.args[3:]:
        return x.args[2]
    return None


def masked(ck, w, s):
    """masked coupling layer around any elementwise bijector; mask 1 marks the features kept"""
    D = s.dim('D')
    x, y = s.arr('x', (D,)), s.arr('y', (D,))
    ctx.C.rules.append(bij_rule)
    bij_interp(s)
    b = abs_bijection(w, s, D)()
    for kind in ('bool', 'float'):
        mb = s.arr('mask', (D,), 'b')
        l = w['resource.model.common'].MaskedCouplingLayer(b, mb if kind == 'bool' else mask(s, D))
        cond = s.obj('anything')
        coupling(ck, kind, lambda v: l.forward(v, cond), lambda v: l.inverse(v, cond), x, y, D, lambda k: ir.b2n(mb.fn(k)), (lambda k: ir.app('mask', 'B', k), FALSE))
        fx, ld = l(x, cond)
        f2, l2 = l.forward(x, cond)
        ck.eq(kind + '/call', fx, f2)
        ck.eq(kind + '/call-logdet', ld, l2)
        # scalar log determinants (an affine map shared by all features)
    b2 = w['resource.model.common'].ScalarAffine(s.real('a'), s.real('b'))
    l = w['resource.model.common'].MaskedCouplingLayer(b2, s.arr('mask', (D,), 'b'))
    mb = s.arr('mask', (D,), 'b')
    coupling(ck, 'scalar-affine', lambda v: l.forward(v, None), lambda v: l.inverse(v, None), x, y, D, lambda k: ir.b2n(mb.fn(k)), (lambda k: ir.app('mask', 'B', k), FALSE))


def mask(s, D):
    b = s.arr('mask', (D,), 'b')
    return Arr((arr.D(D),), lambda i: ir.b2n(b.fn(i)), 'f')


def coupling(ck, t, fwd, inv, x, y, D, keep, moving, positive=None):
    """keep(k) in {0,1}: 1 where the feature passes through"""
    i, j = fresh_idx(D, D)
    fx, ld = fwd(x)
    gx, ild = inv(fx)
    ck.eq(t + '/inverse-of-forward', gx, x, text='inverse(forward(x)) = x')
    ck.prove(t + '/logdets', ir.eq(ir.add(T_(ld), T_(ild)), ZR()), text='the log determinants are negatives of each other')
    gy, ild2 = inv(y)
    fy, ld2 = fwd(gy)
    ck.eq(t + '/forward-of-inverse', fy, y, text='forward(inverse(y)) = y')
    ck.prove(t + '/logdets2', ir.eq(ir.add(T_(ld2), T_(ild2)), ZR()))
    J = jac(lambda v: fwd(v)[0], x, i, j)
    k = keep
    ck.prove(t + '/pass-through', ir.implies(ir.eq(k(i), ONE), ir.and_(ir.eq(fx.fn(i), x.fn(i)), ir.eq(J, ir.b2n(ir.eq(i, j))))), text='kept features are passed through')
    ck.prove(t + '/triangular', ir.implies(ir.and_(ir.eq(k(i), ZERO), ir.eq(k(j), ZERO), ir.not_(ir.eq(i, j))), ir.eq(J, ZR())), text='a transformed feature depends on no other transformed feature')
    # det of the (block triangular) Jacobian = product of its diagonal over the transformed features
    cond, moved = moving
    dg = ir.replace(canon(ir.subst(canon(J), {j: i})), {cond(i): moved})
    v = ir.fresh('d')
    want = ir.sum_(v, dT(arr.D(D)), ir.mul(ir.sub(ONE, k(v)), log(ir.subst(dg, {i: v}))))
    ck.prove(t + '/logdet-is-jacobian', ir.eq(T_(ld), want), positive=positive, text='log determinant = sum over transformed features of log of the diagonal of the Jacobian')
    ck.prove(t + '/diagonal-positive', ir.implies(ir.eq(k(i), ZERO), ir.lt(ZR(), dg)), positive=positive)


def spline_world(w, s, D, K):
    """the spline bijection with its knots by the contract of get_params: increasing positions with the range ends, positive slopes"""
    mod = w['resource.model.nf_model.rqSpline']
    lo, hi = s.real('lo'), s.real('hi')
    import math
    for n, lim in (('x0', None), ('y0', None), ('z', 0), ('w', 1), ('s', 1), ('d0', 1), ('d1', 1)):
        s.interp['@' + n] = lambda v, lim=lim: v.rng.uniform(-3, 3) if lim is None else v.rng.random() if lim == 0 else math.exp(v.rng.uniform(-2, 2))
    nets = {k: (lambda i, m, c, k=k: ir.app(k, 'R', i, m, c)) for k in ('xp', 'yp', 'sl')}

    class Spline(mod.RQSpline):
        def __init__(self):
            self._range_min, self._range_max = lo, hi
            self._min_bin_size = self._min_knot_slope = 0.0001
            self._num_bins = wrapdim(K)
            self.conditioner = None

        def get_params(self, c):
            t = lam_of(asarr(c))
            one = arr.D(wrapdim(ir.add(K, ONE)))
            return tuple(Arr((arr.D(D), one), lambda i, m, k=k: nets[k](i, m, t), 'f') for k in ('xp', 'yp', 'sl'))
    return Spline(), lo, hi, nets


def mono(names):
    """strictly increasing sequences: every pair of applications of them at hand"""
    def f(terms):
        apps, out, seen = {}, [], set()
        for t in terms:
            ir.subterms(t, seen, into_binders=True)
        for x in seen:
            if x.op == 'app' and x.args[0] in names and not any(z.op == 'bv' for z in x.fv):
                apps.setdefault((x.args[0], x.args[1], x.args[3]), set()).add(x)
        for g in apps.values():
            g = sorted(g, key=lambda t: t.id)
            for p in g:
                for q in g:
                    if p is not q:
                        out.append(ir.implies(ir.lt(p.args[2], q.args[2]), ir.lt(p, q)))
                        if p.id < q.id:
                            out.append(ir.implies(ir.eq(p.args[2], q.args[2]), ir.eq(p, q)))
        return out
    return f


def spline(ck, w, s):
    D = s.dim('D')
    K = s.int('K', 1)
    b, lo, hi, nets = spline_world(w, s, D, K)
    c = s.arr('c', (D,))
    x = s.arr('x', (D,))
    i, = fresh_idx(D)
    k = ctx.C.gen('k', ZERO, K)
    cl = lam_of(c)
    XP, YP, SL = (lambda m: ir.app('xp', 'R', i, m, cl)), (lambda m: ir.app('yp', 'R', i, m, cl)), (lambda m: ir.app('sl', 'R', i, m, cl))
    X = x.fn(i)
    K1 = ir.add(k, ONE)
    pairs = mono(('xp', 'yp'))
    R_ = lambda n: ir.var(n, 'R')
    x0, wd, y0, sp, d0, d1 = [ir.app('@' + n, 'R') for n in ('x0', 'w', 'y0', 's', 'd0', 'd1')]
    z = ir.app('@z', 'R')
    pos = [ir.lt(ZR(), v) for v in (wd, sp, d0, d1)]
    inz = [ir.le(ZR(), z), ir.lt(z, ONE)]
    knots = {XP(k): x0, XP(K1): ir.add(x0, wd), YP(k): y0, YP(K1): ir.add(y0, ir.mul(sp, wd)), SL(k): d0, SL(K1): d1}
    fo = b.forward(x, c)
    io = b.inverse(x, c)
    f_y, f_l, g_x, g_l = [T_(q.fn(i)) for q in (asarr(fo[0]), asarr(fo[1]), asarr(io[0]), asarr(io[1]))]

    def resolve(t, hyps):
        sm = Simp(hyps, k, pairs)
        return canon1(sm.go(t), hyps)

    def canon1(t, hyps):
        """selections resolved, nothing else"""
        def go(u, memo={}):
            r = memo.get(u)
            if r is None:
                if u.op == 'sum':
                    r = norm(hyps).canon(u)
                elif any(isinstance(a, ir.T) for a in u.args) and u.op not in ('lam', 'all'):
                    r = ir.rebuild(u, [go(a) if isinstance(a, ir.T) else a for a in u.args])
                else:
                    r = u
                memo[u] = r
            return r
        return go(t)
    inx = [ir.le(XP(k), X), ir.lt(X, XP(K1)), ir.lt(XP(ZERO), X)]
    iny = [ir.le(YP(k), X), ir.lt(X, YP(K1)), ir.lt(YP(ZERO), X)]
    q = lambda u: ir.mul(u, ir.sub(ONE, u))
    st = ir.sub(ir.add(d1, d0), ir.mul(const(2), sp))
    num = lambda u: ir.add(ir.mul(sp, ir.mul(u, u)), ir.mul(d0, q(u)))
    den = lambda u: ir.add(sp, ir.mul(st, q(u)))
    G = lambda u: ir.add(ir.add(ir.mul(d1, ir.mul(u, u)), ir.mul(ir.mul(const(2), sp), q(u))), ir.mul(d0, ir.mul(ir.sub(ONE, u), ir.sub(ONE, u))))
    H = pos + inz
    in01 = pos + [ir.le(ZR(), z), ir.le(z, ONE)]
    P = lambda id, g, hyps, text='', **kw: ck.prove(id, g, hyps, text=text, ztimeout=20000, first=True, **kw)
    # ---- lemmas about the specification (real arithmetic)
    P('lemma/denominator', ir.lt(ZR(), den(z)), in01, 'the denominator is positive on the bin')
    P('lemma/slope', ir.lt(ZR(), G(z)), in01, 'the derivative numerator is positive on the bin')
    P('lemma/range', ir.and_(ir.le(ZR(), num(z)), ir.lt(num(z), den(z))), H, 'the bin is mapped into the bin')
    P('lemma/start', ir.implies(ir.lt(ZR(), z), ir.lt(ZR(), num(z))), H)
    lem = [ir.lt(ZR(), den(z)), ir.lt(ZR(), G(z))]
    positive = lambda hy: (lambda u: any(u is norm().canon(g) for g in (wd, sp, d0, d1, den(z), G(z))))

    # ---- forward in bin k, at x0 + w z
    def instance(t, hyps, xval):
        t = resolve(t, hyps)
        return ir.replace(ir.replace(t, knots), {X: xval})
    Ay = instance(f_y, inx, ir.add(x0, ir.mul(wd, z)))
    Al = instance(f_l, inx, ir.add(x0, ir.mul(wd, z)))
    leftover(Ay, Al)

    def ident(cands, hyps):
        """replace quotients and roots that are equal to a known quantity"""
        def f(r):
            if r.op == 'div':
                for c in cands:
                    if Prover(hyps, positive=positive(hyps)).norm(hyps).is_zero(ir.sub(r, c)):
                        nonzero(r.args[1], hyps)
                        return c
            if r.op == 'fn' and r.args[0] == 'sqrt':
                for c, ok in roots:
                    if norm(hyps).is_zero(ir.sub(r.args[1], ir.mul(c, c))):
                        return c
            return None
        return f
    roots = []
    seen = []

    def nonzero(t, hyps):
        if (t, tuple(hyps)) not in seen:
            seen.append((t, tuple(hyps)))

    def simp(t, hyps, cands=(), decider=None):
        sm = Simp(hyps, cands=[ident(cands, hyps)] if cands else (), timeout=5000, decider=decider)
        return sm.go(t)
    y1 = ir.add(y0, ir.div(ir.mul(ir.mul(sp, wd), num(z)), den(z)))
    Fy = simp(Ay, H, [z, sp])
    Fl = simp(Al, H, [z, sp])
    P('forward/value', ir.eq(Fy, y1), H + lem, 'in a bin the forward map is the monotone rational quadratic through the knots')
    P('forward/logdet', ir.eq(ir.fn('exp', Fl), ir.div(ir.mul(ir.mul(sp, sp), G(z)), ir.mul(den(z), den(z)))), H + lem, positive=positive(H))
    dz = fakes.diffT(Fy, '@z', ())
    P('forward/jacobian', ir.eq(dz, ir.mul(wd, ir.fn('exp', Fl))), H + lem, 'the derivative of the forward map is exp(log determinant)', positive=positive(H))
    at1 = ir.replace(Fy, {z: ONE})
    at0 = ir.replace(Fy, {z: ZR()})
    P('forward/continuous', ir.and_(ir.eq(at0, y0), ir.eq(at1, ir.add(y0, ir.mul(sp, wd)))), pos, 'the pieces meet at the knots')
    # ---- inverse in bin k, at y0 + s w v with v = num/den
    v = ir.div(num(z), den(z))
    inv01 = [ir.le(ZR(), v), ir.lt(v, ONE)]
    By = instance(g_x, iny, ir.add(y0, ir.mul(ir.mul(sp, wd), v)))
    Bl = instance(g_l, iny, ir.add(y0, ir.mul(ir.mul(sp, wd), v)))
    leftover(By, Bl)
    M = ir.div(ir.mul(sp, G(z)), den(z))
    roots.append((M, None))
    bq = ir.sub(d0, ir.mul(st, v))

    def decider_for(sign, hyps):
        nn = Prover(hyps).norm(hyps)

        def f(c):
            # conditions on the discriminant M^2 > 0, on v in [0,1) and on the sign of b
            if c.op in ('lt', 'le', 'not'):
                n_ = c.op == 'not'
                d = c.args[0] if n_ else c
                if d.op in ('lt', 'le'):
                    df = ir.sub(d.args[1], d.args[0])
                    for val, pos_ in ((ir.mul(M, M), True), (ir.neg(ir.mul(M, M)), False), (ir.sub(ONE, v), True), (ir.sub(v, ONE), False)):
                        if nn.is_zero(ir.sub(df, val)):
                            return const(pos_ != n_)
                    if nn.is_zero(ir.sub(df, v)) and d.op == 'le':
                        return const(not n_)
                    if nn.is_zero(ir.add(df, v)) and d.op == 'lt':
                        return const(n_)
                    # the sign of b
                    if nn.is_zero(ir.sub(df, bq)):
                        return const((sign if d.op == 'le' else sign) != n_) if d.op == 'le' else None
                    if nn.is_zero(ir.add(df, bq)) and d.op == 'lt':
                        return const((not sign) != n_)
            return None
        return f
    for sign in (True, False):
        t = 'inverse/b>=0' if sign else 'inverse/b<0'
        hy = H + lem + inv01 + [ir.le(ZR(), bq) if sign else ir.lt(bq, ZR())]
        Gx = simp(By, hy, [v, z, sp], decider_for(sign, hy))
        Gl = simp(Bl, hy, [v, z, sp], decider_for(sign, hy))
        P(t + '/value', ir.eq(Gx, ir.add(x0, ir.mul(wd, z))), hy, 'the inverse in a bin undoes the forward map')
        P(t + '/logdet', ir.eq(ir.add(Gl, Fl), ZR()), hy, 'the log determinants are negatives of each other', positive=positive(hy))
    for n_, (d, hy) in enumerate(seen):
        P('divisor%d' % n_, ir.not_(ir.eq(d, ZR())), list(hy) + lem, 'no division by zero', aux=True)
    dz0, dz1 = ir.replace(dz, {z: ZR()}), ir.replace(dz, {z: ONE})
    P('forward/slope-left', ir.eq(dz0, ir.mul(wd, d0)), pos, 'the slope at the left knot of a bin is the slope of that knot')
    P('forward/slope-right', ir.eq(dz1, ir.mul(wd, d1)), pos, 'the slope at the right knot of a bin is the slope of that knot')
    # ---- the linear pieces outside the range
    last = K
    ps = ir.app('@sl', 'R')
    for t, at, out, cmp in (('below', ZERO, lambda v, e: ir.le(v, e), None), ('above', last, lambda v, e: ir.le(e, v), None)):
        ex, ey, es = XP(at), YP(at), SL(at)
        spos = [ir.lt(ZR(), es)]
        Ty = Simp([out(X, ex)] + spos, None, pairs).go(f_y)
        Tl = Simp([out(X, ex)] + spos, None, pairs).go(f_l)
        hy = [out(X, ex)] + spos
        line = ir.add(ey, ir.mul(es, ir.sub(X, ex)))
        P(t + '/forward', ir.eq(Ty, line), hy, 'outside the range the map is the line through the last knot with its slope')
        P(t + '/forward-logdet', ir.eq(Tl, log(es)), hy, 'log determinant = log of the slope of the line')
        xv = ir.app('@x0', 'R')
        kn = {ex: ir.app('@y0', 'R'), ey: ir.app('@z', 'R'), es: ps}
        P(t + '/range', out(ir.replace(line, kn | {X: xv}), kn[ey]), [ir.lt(ZR(), ps), out(xv, kn[ex])], 'the line maps the outside to the outside')
        Uy = Simp([out(X, ey)] + spos, None, pairs).go(g_x)
        Ul = Simp([out(X, ey)] + spos, None, pairs).go(g_l)
        P(t + '/inverse', ir.eq(ir.replace(Uy, {X: line}), X), spos, 'the inverse undoes the forward map')
        P(t + '/inverse-logdet', ir.eq(ir.add(Ul, Tl), ZR()), spos, 'the log determinants are negatives of each other')
    # ---- feature i of the output depends on feature i of the input alone
    xs = [u for t in (f_y, f_l, g_x, g_l) for u in ir.subterms(t, set(), into_binders=True) if u.op == 'app' and u.args[0] == 'x']
    ck.fact('elementwise', all(u.args[1] is i for u in xs), str(xs[:3]), hard=False, text='an output feature depends on no other input feature')
    c0, c1 = b(x, c)
    ck.eq('call', asarr(c0), asarr(fo[0]))
    ck.eq('call-logdet', asarr(c1), asarr(fo[1]))


def params(ck, w, s):
    """contract of RQSpline.get_params for any conditioner output"""
    mod = w['resource.model.nf_model.rqSpline']
    D, K, H = s.dim('D'), s.int('K', 1), s.dim('H')
    lo, hi = s.real('lo'), s.real('hi')
    mb, ms = s.real('min_bin', pos=True), s.real('min_slope', pos=True)
    ctx.C.facts.append(ir.lt(ir.mul(K, T_(mb)), ir.sub(T_(hi), T_(lo))))
    ctx.C.facts.append(ir.lt(T_(ms), ONE_R()))
    s.reals['min_bin'] = lambda v: 0.01 + v.rng.random() * 0.5
    s.reals['hi'] = lambda v: v.value(T_(lo)) + v.value(K) * v.value(T_(mb)) * (1.01 + 2 * v.rng.random() ** 3)
    s.reals['min_slope'] = lambda v: 0.01 + v.rng.random() * 0.98
    out = wrapdim(ir.mul(dT(arr.D(D)), ir.add(ir.mul(const(3), K), ONE)))

    class Net:
        n_input, n_output, dtype = D, out, fakes._dt('float32', 'f')

        def __call__(self, c):
            t = lam_of(asarr(c))
            return Arr((arr.D(out),), lambda n: ir.app('P', 'R', n, t), 'f')
    b = mod.RQSpline(Net(), lo, hi, mb, ms)
    ck.prove('num_bins', ir.eq(dT(arr.D(b._num_bins)), K), text='the number of bins is recovered from the size of the conditioner output')
    c = s.arr('c', (H,))
    xp, yp, sl = b.get_params(c)
    i, = fresh_idx(D)
    m = ctx.C.gen('m', ZERO, K)
    n = ctx.C.gen('n', ZERO, ir.add(K, ONE))
    last = ir.sub(K, ONE)
    for t, a in (('x', xp), ('y', yp)):
        a = asarr(a)
        ck.prove(t + '/count', ir.and_(ir.eq(dT(a.sh[0]), dT(arr.D(D))), ir.eq(dT(a.sh[1]), ir.add(K, ONE))), text='one more knot than bins, for every feature')
        ck.prove(t + '/first', ir.eq(a.fn(i, ZERO), T_(lo)), text='the first knot is the lower end of the range')
        ck.prove(t + '/last', ir.eq(a.fn(i, K), T_(hi)), text='the last knot is the upper end of the range')
        for v, hy in ((m, [ir.lt(ir.add(m, ONE), K)]), (last, [])):
            g = peel(canon(ir.sub(a.fn(i, ir.add(v, ONE)), a.fn(i, v)), hy), [v])
            # name the positive quantities: exponentials and their sums
            nm, pos, names = {}, [], {}
            for u in sorted(ir.subterms(g, set(), into_binders=False), key=lambda u: u.id):
                if u.op == 'fn' and u.args[0] == 'exp' or u.op == 'sum' and exp_positive(u):
                    x = names.setdefault(canon(u), ir.app('@e%d' % len(names), 'R'))
                    nm[u] = x
                    s.interp[x.args[0]] = lambda val: 10 ** val.rng.uniform(-2, 1)
                    pos.append(ir.lt(ZR(), x) if u.op == 'fn' or canon(ir.open_binder(u)[1][0]) is K else ir.le(ZR(), x))
            ck.prove(t + ('/increasing' if v is m else '/increasing-last'), ir.lt(ZR(), ir.replace(g, nm)), pos + hy, text='the knots increase strictly')
    sl = asarr(sl)
    ck.prove('slopes/count', ir.eq(dT(sl.sh[1]), ir.add(K, ONE)))
    ck.prove('slopes/positive', ir.lt(ZR(), sl.fn(i, n)), text='knot slopes are positive', reals={}, interp={'P': lambda v, n_, t_: -12 * v.rng.random()})
    apps = [u for a in (xp, yp, sl) for u in ir.subterms(asarr(a).fn(i, n), set(), into_binders=True) if u.op == 'app' and u.args[0] == 'P']
    ck.fact('own-parameters', len(apps) > 0, 'the knots do not depend on the conditioner', hard=False)
    ck.assume('C12: RQSpline is built with a positive minimum bin size, K bins of which fit into the range, and a minimum slope in (0, 1) (the defaults: 1e-4, range 20)')


def peel(t, tops):
    """sum over v < top + 1 = sum over v < top plus the last summand"""
    memo = {}
    tops = [(canon(ir.add(v, ONE)), v) for v in tops]

    def go(u):
        r = memo.get(u)
        if r is None:
            if u.op == 'sum':
                (v,), (n,), body = ir.open_binder(u)
                top = [x for c, x in tops if canon(n) is c]
                r = ir.add(ir.sum_(v, top[0], body), ir.subst(body, {v: top[0]})) if top else u
            elif u.op in ('lam', 'all'):
                r = u
            else:
                r = ir.rebuild(u, [go(a) if isinstance(a, ir.T) else a for a in u.args]) if any(isinstance(a, ir.T) for a in u.args) else u
            memo[u] = r
        return r
    return go(t)


def exp_positive(u):
    return u.op == 'sum' and ir.open_binder(u)[2].op == 'fn' and ir.open_binder(u)[2].args[0] == 'exp'


def ONE_R():
    return const(1, 'R')


def abs_layer(w, s, nm, D, L):
    """any invertible layer with parameters theta(l): values LF, inverse LG, log determinant LL"""
    Mod = w['resource.model.common'].Bijection

    class AbsLayer(Mod):
        def __init__(self, theta):
            self.theta = theta

        def forward(self, x, condition):
            x = asarr(x)
            t, th = lam_of(x), asarr(self.theta).term()
            cd = fakes.fingerprint(condition)
            return Arr(x.sh, lambda i: ir.app('LF', 'R', i, th, cd, t), 'f'), Arr((), lambda: ir.app('LL', 'R', th, cd, t), 'f')

        def inverse(self, x, condition):
            x = asarr(x)
            t, th = lam_of(x), asarr(self.theta).term()
            cd = fakes.fingerprint(condition)
            g = Arr(x.sh, lambda i: ir.app('LG', 'R', i, th, cd, t), 'f')
            tg = lam_of(g)
            return g, Arr((), lambda: ir.neg(ir.app('LL', 'R', th, cd, tg)), 'f')
    return AbsLayer(Arr((arr.D(L),), lambda l: ir.app('theta:' + nm, 'U', l), 'u'))


def layer_rule(a, n):
    """contract of a layer: inverse and forward undo each other"""
    if a.op != 'app' or a.args[0] not in ('LF', 'LG'):
        return None
    i, th, cd, l = a.args[1:5]
    o = 'LG' if a.args[0] == 'LF' else 'LF'
    if l.op != 'lam':
        return None
    vs, dims, body = ir.open_binder(l)
    body = n.canon(body)
    if body.op == 'app' and body.args[0] == o and body.args[1] is vs[0] and body.args[2] is th and body.args[3] is cd and vs[0] not in body.args[4].fv:
        u = body.args[4]
        if u.op == 'lam':
            v2, d2, b2 = ir.open_binder(u)
            return ir.subst(b2, {v2[0]: i})
    return None


def flow(kind):
    def f(ck, w, s):
        D, L = s.dim('D'), s.dim('L')
        ctx.C.rules.append(layer_rule)
        ctx.C.accsum = True
        mod = w['resource.model.nf_model.' + ('realNVP' if kind == 'RealNVP' else 'rqSpline')]
        cls = mod.RealNVP if kind == 'RealNVP' else mod.MaskedCouplingRQSpline
        m = object.__new__(cls)
        if kind == 'RealNVP':
            m.affine_coupling = abs_layer(w, s, 'a', D, L)
            parts = ['a']
        else:
            m.layers = fakes.Sequential([abs_layer(w, s, 'a', D, L), abs_layer(w, s, 'b', D, L)])
            parts = ['a', 'b']
        x, y = s.arr('x', (D,)), s.arr('y', (D,))
        for cond in (None, s.obj('cond')):
            t = '' if cond is None else 'conditioned/'
            two(ck, t, m, D, L, parts, x, cond, 'forward', 'inverse')
            two(ck, t, m, D, L, parts, y, cond, 'inverse', 'forward')
        tok = (s.arr('fy', (D,)), s.real('fl'))
        object.__setattr__(m, 'forward', lambda v: tok if v is x else None)
        ck.fact('call', m(x) is tok, 'not the result of forward', hard=False, text='calling the flow is its forward map')
    return f


def two(ck, t, m, D, L, parts, x, cond, d1, d2):
    """d1 then d2 over any number of layers gives the input back and negates the log determinant"""
    t += '%s-then-%s' % (d1, d2)
    n0 = len(scans())
    call = lambda d, v: getattr(m, d)(v, condition=cond)
    ax, al = call(d1, x)
    A = scans()[n0:]
    bx, bl = call(d2, asarr(ax))
    B = scans()[n0 + len(A):]
    if len(A) != 1 or len(B) != 1:
        raise Unsupported('%d and %d loops' % (len(A), len(B)))
    A, B = A[0], B[0]
    ax_, = leaves_of(A, 1)
    bx_, = leaves_of(B, 1)
    Lt = dT(arr.D(L))
    i, = fresh_idx(D)
    j = ctx.C.gen('j', ZERO, Lt)
    cd = fakes.fingerprint(cond)
    th = lambda p, l: ir.app('theta:' + p, 'U', l)

    def layer(sd, sym, d, k):
        """contract of pass k of a loop in direction d: (entry i of the new state, log determinants of the layers met)"""
        g = ('LF', 'LG')[d == 'inverse']
        ps = parts if d == 'forward' else parts[::-1]
        lay = k if d == 'forward' else ir.sub(ir.sub(Lt, ONE), k)
        cur, lds = lam1(D, lambda v: at(sd, sym, k, v)), ZR()
        for p in ps:
            nxt = lam1(D, lambda v, cur=cur: ir.app(g, 'R', v, th(p, lay), cd, cur))
            lds = ir.add(lds, ir.app('LL', 'R', th(p, lay), cd, cur) if d == 'forward' else ir.neg(ir.app('LL', 'R', th(p, lay), cd, nxt)))
            cur = nxt
        vs, _, body = ir.open_binder(cur)
        return ir.subst(body, {vs[0]: i}), lds

    def over(sd, sym, d):
        v = ctx.C.gen('v', ZERO, Lt)
        return ir.sum_(v, Lt, layer(sd, sym, d, v)[1])
    ck.prove(t + '/start', ir.eq(init_of(A, ax_, i), asarr(x).fn(i)))
    ck.prove(t + '/layer', ir.eq(step_of(A, ax_, j, i), layer(A, ax_, d1, j)[0]), text='layer l is applied to what layer l-1 returned (inverse: in the opposite order)')
    ck.prove(t + '/all-layers', ir.eq(asarr(ax).fn(i), at(A, ax_, Lt, i)))
    ck.prove(t + '/logdet', ir.eq(T_(al), over(A, ax_, d1)), text='the log determinant is the sum of those of the layers at what they receive')
    # the second loop retraces the first backwards
    back = lambda k: ir.sub(Lt, k)
    px = lambda k, v, *gs: at(A, ax_, back(k), v)
    ck.prove(t + '/retrace-start', ir.eq(init_of(B, bx_, i), px(ZERO, i)), aux=True)
    # unfold the last step of the first loop
    prev = ir.sub(back(j), ONE)
    rules = [inv_rule(bx_, px), unfold_rule(A, ax_, back(j), prev)]
    ck.prove(t + '/retrace-step', ir.eq(step_of(B, bx_, j, i), px(ir.add(j, ONE), i)), rules=rules, aux=True)
    R2 = [inv_rule(bx_, px)]
    ck.prove(t + '/round-trip', ir.eq(asarr(bx).fn(i), asarr(x).fn(i)), rules=R2, text='the input comes back')
    ck.prove(t + '/logdet-back', ir.eq(T_(bl), over(B, bx_, d2)), text='the log determinant of the way back is the sum of those of the layers')
    ck.prove(t + '/logdets', ir.eq(ir.add(layer(B, bx_, d2, j)[1], layer(A, ax_, d1, prev)[1]), ZR()), rules=rules,
             text='the log determinants are negatives of each other, layer by layer (pass j of the way back against pass L-1-j)')


def unfold_rule(sd, sym, when, prev):
    n0 = canon(when)
    memo = {}

    def rule(a, n):
        if a.op == 'app' and a.args[0] == sym and n.canon(a.args[1]) is n0:
            k = len(sd.parts(sym)[0])
            return step_of(sd, sym, prev, *a.args[2:2 + k])
        return None
    return rule


def leftover(*ts):
    for t in ts:
        bad = [u for u in ir.subterms(t) if u.op in ('sum', 'all') or (u.op == 'app' and u.args[0] in ('xp', 'yp', 'sl', 'x'))]
        if bad:
            raise Unsupported('the bin is not resolved: ' + ir.show(bad[0])[:200])


def run(ck):
    ck.unit('MLPAffine', mlp_affine, [CM + 'MLPAffine.forward', CM + 'MLPAffine.inverse', CM + 'MLPAffine.__call__', CM + 'MLPAffine.__init__'], 10)
    ck.unit('ScalarAffine', scalar_affine, [CM + 'ScalarAffine.forward', CM + 'ScalarAffine.inverse', CM + 'ScalarAffine.__call__', CM + 'ScalarAffine.__init__'], 5)
    ck.unit('MaskedCouplingLayer', masked, [CM + 'MaskedCouplingLayer.forward', CM + 'MaskedCouplingLayer.inverse', CM + 'MaskedCouplingLayer.__init__', CM + 'Bijection.__call__'], 15)
    ck.unit('AffineCoupling', affine_coupling, [RN + 'AffineCoupling.forward', RN + 'AffineCoupling.inverse', RN + 'AffineCoupling.__call__'], 5)
    ck.unit('RQSpline', spline, [RQ + 'RQSpline.forward', RQ + 'RQSpline.inverse', RQ + 'RQSpline.__call__', RQ + '_rational_quadratic_spline_fwd', RQ + '_rational_quadratic_spline_inv', RQ + '_safe_quadratic_root'], 25)
    ck.unit('RQSpline.get_params', params, [RQ + 'RQSpline.get_params', RQ + 'RQSpline.__init__', RQ + '_normalize_bin_sizes', RQ + '_normalize_knot_slopes'], 10)
    ck.unit('RealNVP', flow('RealNVP'), [RN + 'RealNVP.forward', RN + 'RealNVP.inverse', NB + 'NFModel.__call__'], 20)
    ck.unit('MaskedCouplingRQSpline', flow('RQS'), [RQ + 'MaskedCouplingRQSpline.forward', RQ + 'MaskedCouplingRQSpline.inverse', RQ + 'MaskedCouplingRQSpline.__call__'], 20)
