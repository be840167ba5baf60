"""C13: a flow's log density is the normalised density of what it samples."""
from .common import *
from engine.arr import wrapdim
from .c02 import linalg_rule

LEMMAS = {'Flow': ['density_normalised', 'density_of_samples']}

CM = 'flowMC.resource.model.common:'
RN = 'flowMC.resource.model.nf_model.realNVP:'
RQ = 'flowMC.resource.model.nf_model.rqSpline:'
NB = 'flowMC.resource.model.nf_model.base:'


def ZR():
    return const(0, 'R')


def abs_dist(w, s, D):
    """any base distribution: density B, sampler drawing row r from the key it is given"""
    base = w['resource.model.common'].Distribution

    class AbsDist(base):
        def __init__(self):
            self.p = s.obj('base')

        def log_prob(self, x):
            x = asarr(x)
            if x.ndim != 1:
                raise TypeError('the base density got rank %d' % x.ndim)
            l = lam_of(x)
            return Arr((), lambda: ir.app('B', 'R', l, asarr(self.p).term()), 'f')

        def sample(self, rng_key, n_samples):
            k, n = fakes.use_key(rng_key), arr.D(n_samples)
            return Arr((n, arr.D(D)), lambda r, i: ir.app('flow.sample', 'R', k, dT(n), r, i, asarr(self.p).term()), 'f')
    return AbsDist()


def flow_class(w, kind):
    m = w['resource.model.nf_model.' + ('realNVP' if kind == 'RealNVP' else 'rqSpline')]
    return m.RealNVP if kind == 'RealNVP' else m.MaskedCouplingRQSpline


def abs_flow(w, s, kind, D, base, mean, cov):
    """the flow with its maps known by the contract proved for C12 only"""
    cls = flow_class(w, kind)

    class M(cls):
        def __init__(self):
            self._data_mean, self._data_cov, self._n_features = mean, cov, D
            self.base_dist = base

        def forward(self, x, key=None, condition=None):
            x = asarr(x)
            if x.ndim != 1:
                raise TypeError('forward got rank %d' % x.ndim)
            l, c = lam_of(x), fakes.fingerprint(condition)
            return Arr(x.sh, lambda i: ir.app('FW', 'R', i, l, c), 'f'), Arr((), lambda: ir.app('LD', 'R', l, c), 'f')

        def inverse(self, x, condition=None):
            x = asarr(x)
            if x.ndim != 1:
                raise TypeError('inverse got rank %d' % x.ndim)
            l, c = lam_of(x), fakes.fingerprint(condition)
            g = lam1(D, lambda v: ir.app('IV', 'R', v, l, c))
            return Arr(x.sh, lambda i: ir.app('IV', 'R', i, l, c), 'f'), Arr((), lambda: ir.neg(ir.app('LD', 'R', g, c)), 'f')
    return M()


def inverse_rule(a, n):
    """contract (C12): forward(inverse(y)) = y and inverse(forward(x)) = x"""
    if a.op != 'app' or a.args[0] not in ('FW', 'IV'):
        return None
    i, l, c = a.args[1:4]
    o = 'IV' if a.args[0] == 'FW' else 'FW'
    if l.op != 'lam':
        return None
    vs, dims, body = ir.open_binder(l)
    body = n.canon(body)
    if body.op == 'app' and body.args[0] == o and (body.args[1] is vs[0] or ir.isconst(dims[0]) and dims[0].args[0] == 1) and body.args[3] is c and vs[0] not in body.args[2].fv and body.args[2].op == 'lam':
        v2, d2, b2 = ir.open_binder(body.args[2])
        return ir.subst(b2, {v2[0]: i})
    return None


def setup(w, s, kind, which):
    D = s.dim('D')
    mean = s.arr('mean', (D,))
    if which == 'cov':
        C = s.arr('cov', (D, D))
        diag = lambda i: C.fn(i, i)
        cov = C
        ctx.C.facts.append(pos_diag(D, diag))
        s.interp['cov'] = lambda v, i, j: (0.3 + abs(v.smooth('cov', (i,), 'R'))) if i == j else v.smooth('cov2', (i, j), 'R')
    else:
        # one feature: the covariance of the training data is a scalar
        D = 1
        mean = s.arr('mean', (1,))
        cov = s.real('var', pos=True)
        diag = lambda i: cov.term()
    base = abs_dist(w, s, D)
    return D, mean, cov, diag, base, abs_flow(w, s, kind, D, base, mean, cov)


def pos_diag(D, diag):
    v = ir.fresh('d')
    return ir.all_(v, dT(arr.D(D)), ir.lt(ZR(), diag(v)))


def flow(kind):
    def f(ck, w, s):
        for which in ('cov', 'scalar'):
            ctx.C.rules.append(inverse_rule)
            D, mean, cov, diag, base, m = setup(w, s, kind, which)
            t = '' if which == 'cov' else 'one-feature/'
            x = s.arr('x', (D,))
            i, j = fresh_idx(D, D)
            hy = [ir.lt(ZR(), diag(i))]
            sd = lambda k: ir.fn('sqrt', diag(k))
            pos = lambda u: u.op == 'app' and u.args[0] == 'cov' and len(u.args) == 3 and u.args[1] is u.args[2]
            wx = lam1(D, lambda k: ir.div(ir.sub(x.fn(k), mean.fn(k)), sd(k)))
            none = fakes.fingerprint(None)
            fx = lam1(D, lambda k: ir.app('FW', 'R', k, wx, none))
            ldw = S(D, lambda k: ir.neg(log(sd(k))))
            want = ir.add(ir.add(ir.app('B', 'R', fx, asarr(base.p).term()), ir.app('LD', 'R', wx, none)), ldw)
            lp = m.log_prob(x)
            ck.eq(t + 'log_prob', T_(lp), want, hy, positive=pos, text='base log density at the whitened, forward-mapped point + log determinant of the forward map + log determinant of the whitening')
            # the sampler
            n = s.dim('n')
            key = s.key()
            smp = asarr(m.sample(key, n))
            r = ctx.C.gen('r', ZERO, dT(arr.D(n)))
            z = asarr(base.sample(key, n))
            zr = lam1(D, lambda k: z.fn(r, k))
            want_s = ir.add(ir.mul(ir.app('IV', 'R', i, zr, none), sd(i)), mean.fn(i))
            ks = {k for k in draws(smp.fn(r, i))}
            ck.prove(t + 'count', ir.and_(ir.eq(dT(smp.sh[0]), dT(arr.D(n))), ir.eq(dT(smp.sh[1]), dT(arr.D(D)))), text='as many draws as requested')
            if len(ks) == 1 and list(ks)[0][1] is not key.term():
                # drawn from a key derived from the given one
                kk = list(ks)[0][1]
                z = asarr(base.sample(Arr((), lambda: kk, 'k'), n))
                zr = lam1(D, lambda k: z.fn(r, k))
                want_s = ir.add(ir.mul(ir.app('IV', 'R', i, zr, none), sd(i)), mean.fn(i))
            ck.prove(t + 'sample', ir.eq(smp.fn(r, i), want_s), hy, positive=pos, text='draw r = un-whitened inverse image of draw r of the base distribution')
            # the reported density at a draw is the density of that draw (change of variables)
            row = Arr((arr.D(D),), lambda k: smp.fn(r, k), 'f')
            at = T_(m.log_prob(row))
            inv = lam1(D, lambda k: ir.app('IV', 'R', k, zr, none))
            want_d = ir.add(ir.add(ir.app('B', 'R', zr, asarr(base.p).term()), ir.app('LD', 'R', inv, none)), ldw)
            v = ir.fresh('q')
            ck.prove(t + 'consistent', ir.eq(at, want_d), [ir.all_(v, dT(arr.D(D)), ir.lt(ZR(), diag(v)))], positive=pos,
                     text='at draw r the reported density is that of the base draw, minus the log determinants of the inverse map and the un-whitening there')
    return f


def init(kind):
    """what a new flow uses when nothing is given"""
    def f(ck, w, s):
        D, L = s.dim('D'), s.dim('L')
        cls = flow_class(w, kind)
        G = w['resource.model.common'].Gaussian
        i, j = fresh_idx(D, D)
        key = s.key()
        mk = (lambda **k: cls(D, L, 3, key, **k)) if kind == 'RealNVP' else (lambda **k: cls(D, L, [3], 4, key, **k))
        m = ck.run1(mk)
        b = m.base_dist
        ck.fact('default-base', isinstance(b, G), str(type(b)), hard=False, text='the default base distribution is a Gaussian')
        ck.prove('default-base/standard', ir.and_(ir.eq(asarr(b.mean).fn(i), ZR()), ir.eq(asarr(b.cov).fn(i, j), ir.b2n(ir.eq(i, j)))))
        ck.prove('default-whitening', ir.and_(ir.eq(asarr(m.data_mean).fn(i), ZR()), ir.eq(asarr(m.data_cov).fn(i, j), ir.b2n(ir.eq(i, j)))), text='no whitening by default')
        mean, cov, base = s.arr('mean', (D,)), s.arr('cov', (D, D)), abs_dist(w, s, D)
        m = ck.run1(lambda: mk(data_mean=mean, data_cov=cov, base_dist=base))
        ck.fact('given-base', m.base_dist is base, 'not the base distribution given', text='the given base distribution is used')
        ck.eq('given-mean', asarr(m.data_mean), mean)
        ck.eq('given-cov', asarr(m.data_cov), cov)
        ck.prove('features', ir.eq(dT(arr.D(m.n_features)), dT(arr.D(D))))
    return f


def gaussian(ck, w, s):
    D = s.dim('D')
    n = s.dim('n')
    mean, cov = s.arr('mean', (D,)), s.spd('cov', D)
    x = s.arr('x', (D,))
    key = s.key()
    i, = fresh_idx(D)
    r = ctx.C.gen('r', ZERO, dT(arr.D(n)))
    for learn in (False, True):
        t = 'learnable' if learn else 'fixed'
        g = w['resource.model.common'].Gaussian(mean, cov, learnable=learn)
        lp = g.log_prob(x)
        y = lam1(D, lambda k: ir.sub(x.fn(k), mean.fn(k)))
        ck.eq(t + '/log_prob', T_(lp), ir.app('mvn.logpdf', 'R', y, lam_of(cov)), text='the density of the normal distribution with this mean and covariance')
        ck.eq(t + '/call', T_(g(x)), T_(lp))
        z = asarr(g.sample(key, n))
        nt, Dt = dT(arr.D(n)), dT(arr.D(D))
        j, b = fresh_idx(D, D)
        e = norm().canon(z.fn(r, i))
        ks = draws(e)
        ns = {x.args[1:4] for x in ir.subterms(e, set(), into_binders=True) if x.op == 'app' and x.args[0] == 'normal' and len(x.args) == 6}
        if len(ks) != 1 or len(ns) != 1:
            ck.fact(t + '/one-draw', False, str(ks), hard=False, text='one standard normal draw per feature of each sample')
            continue
        (kk, d1, d2), = ns
        swap = not (same(d1, nt) and same(d2, Dt))
        ck.prove(t + '/draw-size', ir.and_(ir.eq(d2 if swap else d1, nt), ir.eq(d1 if swap else d2, Dt)), text='one standard normal draw per feature of each sample')
        coef = lambda a, row, col: replace_app(norm().canon(z.fn(r, a)), 'normal', lambda *q: ir.mul(ir.b2n(ir.eq(q[3 + swap], row)), ir.b2n(ir.eq(q[4 - swap], col))))
        mu = replace_app(e, 'normal', lambda *q: ZR())
        ck.prove(t + '/mean', ir.eq(mu, mean.fn(i)), text='draws are centred on the mean')
        A = lambda a, c: ir.sub(coef(a, r, c), mean.fn(a))
        z0 = lambda c: ir.app('normal', 'R', kk, d1, d2, *((c, r) if swap else (r, c)))
        ck.prove(t + '/linear', ir.eq(e, ir.add(mean.fn(i), S(D, lambda c: ir.mul(A(i, c), z0(c))))), text='draw r = mean + A z_r with z_r the standard normal draws of row r')
        ck.prove(t + '/law', ir.eq(S(D, lambda c: ir.mul(A(i, c), A(j, c))), cov.fn(i, j)), rules=[linalg_rule], text='A A^T is the covariance')
        ck.prove(t + '/count', ir.and_(ir.eq(dT(z.sh[0]), dT(arr.D(n))), ir.eq(dT(z.sh[1]), dT(arr.D(D)))))


def part(ck, mod, nm, d, tag):
    """an arbitrary distribution over d features"""
    class P(mod.Distribution):
        def __init__(self):
            pass

        def log_prob(self, x):
            x = asarr(x)
            ck.prove('%s/size' % nm, ir.eq(dT(x.sh[0]), dT(arr.D(d))), text='a block is given the features of its range')
            return Arr((), lambda: ir.app('B', 'R', tag, lam_of(x)), 'f')

        def sample(self, rng_key, n_samples):
            k, n = fakes.use_key(rng_key), arr.D(n_samples)
            return Arr((n, arr.D(d)), lambda r, i: ir.app('flow.sample', 'R', k, dT(n), r, i, tag), 'f')
    return P()


def blocks(ck, w, s, m, D):
    """Composable of m independent blocks with any ranges, in any order -> (the distribution, tags, starts, sizes, partitions)"""
    mod = w['resource.model.common']
    Dt = dT(arr.D(D))
    lo, hi, ds = [], [], []
    for k in range(m):
        a = s.int('lo%d/%d' % (m, k), 0, None, lambda e: e.rng.randrange(e.value(Dt)))
        b = s.int('hi%d/%d' % (m, k), 1, None, lambda e, a=a: e.rng.randrange(e.value(a), e.value(Dt)) + 1)
        ctx.C.facts += [ir.lt(a, Dt), ir.lt(a, b), ir.le(b, Dt)]
        lo.append(a), hi.append(b), ds.append(wrapdim(ir.sub(b, a)))
    tag = lambda k: ir.var('part%d/%d' % (m, k), 'U')
    parts = {'p%d' % k: (wrapdim(lo[k]), wrapdim(hi[k])) for k in range(m)}
    return mod.Composable([part(ck, mod, '%d/%d' % (m, k), ds[k], tag(k)) for k in range(m)], parts), tag, lo, ds, parts


def composable(ck, w, s):
    """independent blocks: any ranges, in any order (1 to 3 of them), for the sampler"""
    D = s.dim('D')
    x = s.arr('x', (D,))
    for m in (1, 2, 3):
        c, tag, lo, ds, parts = blocks(ck, w, s, m, D)
        want = ZR()
        for k in range(m):
            want = ir.add(want, ir.app('B', 'R', tag(k), lam1(ds[k], lambda v, k=k: x.fn(ir.add(v, lo[k])))))
        ck.eq('%d/log_prob' % m, T_(c.log_prob(x)), want, text='sum of the log densities of the blocks')
        key, n = s.key(), s.dim('n')
        out = c.sample(key, n)
        ck.fact('%d/names' % m, list(out) == list(parts), str(list(out)), hard=False)
        keys = set()
        for k in range(m):
            o = asarr(out['p%d' % k])
            r, i = ctx.C.gen('r', ZERO, dT(arr.D(n))), fresh_idx(ds[k])[0]
            q = draws(o.fn(r, i))
            ck.fact('%d/%d/draw' % (m, k), len(q) == 1, str(q), hard=False)
            kk = list(q)[0][1]
            keys.add(kk)
            ck.prove('%d/%d/sample' % (m, k), ir.eq(o.fn(r, i), ir.app('flow.sample', 'R', kk, dT(arr.D(n)), r, i, tag(k))), text='block k is drawn from distribution k')
        ck.fact('%d/independent' % m, len(keys) == m, 'blocks share a key', text='the blocks are drawn independently')
    ck.assume('C13: Composable.sample is checked for one, two and three blocks (it returns a Python dict with one entry per block); the ranges are arbitrary')


def composable_all(ck, w, s):
    """the density of any number of blocks"""
    mod = w['resource.model.common']
    D, M = s.dim('D'), s.dim('M')
    Dt, Mt = dT(arr.D(D)), dT(arr.D(M))
    x = s.arr('x', (D,))
    A = lambda nm: (lambda k: ir.app(nm, 'I', k))
    lo, hi = A('lo'), A('hi')
    v = ir.fresh('p')
    ctx.C.facts.append(ir.all_(v, Mt, ir.and_(ir.le(ZERO, lo(v)), ir.lt(lo(v), hi(v)), ir.le(hi(v), Dt))))
    s.interp['lo'] = lambda e, k: int(abs(e.smooth('lo', (k,), 'R')) * 100) % e.value(Dt)
    s.interp['hi'] = lambda e, k: (lambda l: l + 1 + int(abs(e.smooth('hi', (k,), 'R')) * 100) % (e.value(Dt) - l))(int(abs(e.smooth('lo', (k,), 'R')) * 100) % e.value(Dt))
    size = lambda k: ir.sub(hi(k), lo(k))
    tag = lambda k: ir.app('part', 'U', k)

    def rep(f):
        return arr.SymList([('rep', arr.D(M), lambda k: arr.SymList([('one', f(k))]))])
    num = lambda t: Arr((), lambda: t, 'i')
    rng = lambda k: (num(lo(k)), num(hi(k)))

    class Parts:
        """a mapping of M names to ranges"""
        def items(self):
            return rep(lambda k: (NameOf(k), rng(k)))

        def values(self):
            return rep(rng)

        def keys(self):
            return rep(NameOf)

        def __getitem__(self, nm):
            if not isinstance(nm, NameOf):
                raise Unsupported('partition name %s' % nm)
            return rng(nm.k)
    c = mod.Composable(rep(lambda k: part(ck, mod, 'block', wrapdim(size(k)), tag(k))), Parts())
    ctx.C.accsum = True
    u = ir.fresh('k')
    ctx.C.ranges[u] = (ZERO, Mt)
    want = ir.sum_(u, Mt, ir.app('B', 'R', tag(u), lam1(wrapdim(size(u)), lambda i: x.fn(ir.add(i, lo(u))))))
    ck.eq('log_prob', T_(c.log_prob(x)), want, text='sum over all blocks of the log density of the features of its range')


class NameOf:
    def __init__(self, k):
        self.k = k


def run(ck):
    ck.assume('C13: the base density integrates to one (multivariate normal of the library, or the user\'s distribution); with C12 (forward is a bijection whose log Jacobian determinant is LD) the change of variables formula gives a normalised density',
              'C13: the diagonal of the data covariance is positive')
    for k, N in (('RealNVP', RN + 'RealNVP'), ('MaskedCouplingRQSpline', RQ + 'MaskedCouplingRQSpline')):
        ck.unit(k, flow(k), [N + '.log_prob', N + '.sample', NB + 'NFModel.__call__', NB + 'NFModel.data_mean', NB + 'NFModel.data_cov'], 8)
        ck.unit(k + '.__init__', init(k), [N + '.__init__'], 5)
    ck.unit('Gaussian', gaussian, [CM + 'Gaussian.log_prob', CM + 'Gaussian.sample', CM + 'Distribution.__call__', CM + 'Gaussian.__init__'], 12)
    ck.unit('Composable', composable, [CM + 'Composable.log_prob', CM + 'Composable.sample', CM + 'Composable.__init__'], 10)
    ck.unit('Composable.log_prob', composable_all, [CM + 'Composable.log_prob', CM + 'Composable.__init__'], 2)
