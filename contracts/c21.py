"""C21: target wrappers evaluate exactly the user functions."""
from .common import *
from engine import tree
from engine.arr import wrapdim
from . import c05
import z3

LP = 'flowMC.resource.logPDF:'


def build(w, s, kind, D, variables=None):
    m = w['resource.logPDF']
    f, g = s.fun('ll'), s.fun('prior')
    kw = {'variables': variables} if variables is not None else {'n_dims': D}
    if kind == 'LogPDF':
        return m.LogPDF(f, **kw), f, None
    return m.TemperedPDF(f, g, **kw), f, g


def unit(kind):
    def f_(ck, w, s):
        m = w['resource.logPDF']
        D = s.dim('D')
        x, d = s.arr('x', (D,)), s.obj('d')
        T = s.real('T', pos=True)
        vars3 = [m.Variable('a', True), m.Variable('b', False), m.Variable('c', True)]
        twins = [m.Variable('a', True), m.Variable('a', True), m.Variable('', False), m.Variable('x_0', False), m.Variable('a', False)]
        for tag, v in (('variables', vars3), ('one', [m.Variable('q', True)]), ('twins', twins), ('none', []), ('n_dims', None)):
            o, f, g = ck.run1(lambda: build(w, s, kind, D, v))
            # used before, elsewhere
            wx, wd = s.arr('w.x', (D,)), s.obj('w.d')
            ck.run1(lambda: o(wx, wd))
            if kind == 'TemperedPDF':
                ck.run1(lambda: o.tempered_log_pdf(s.real('w.T', pos=True), wx, wd))
            ck.eq(tag + '/call', ck.run1(lambda: o(x, d)), f(x, d), text='the wrapped target returns the user function at the point and data')
            nd = o.n_dims
            ck.prove(tag + '/n_dims', ir.eq(T_(nd), T_(D if v is None else len(v))), text='as many dimensions as variables')
            if v is not None:
                ck.fact(tag + '/variables', list(o.variables) == list(v) and all(a is b for a, b in zip(o.variables, v)), str(o.variables), text='the given variables')
            if kind == 'TemperedPDF':
                want = ir.add(ir.div(T_(f(x, d)), T_(T)), T_(g(x, d)))
                ck.prove(tag + '/tempered', ir.eq(T_(ck.run1(lambda: o.tempered_log_pdf(T, x, d))), want), text='log-likelihood / T + log-prior')
                ck.prove(tag + '/T=1', ir.eq(T_(ck.run1(lambda: o.tempered_log_pdf(1.0, x, d))), ir.add(T_(f(x, d)), T_(g(x, d)))), text='T = 1 is the posterior')
            # flattening
            ls, rb = tree.flatten(o)
            o2 = ck.run1(lambda: rb(ls))
            ck.fact(tag + '/flatten/type', type(o2) is type(o) and o2 is not None, str(type(o2)), text='flattening and unflattening gives the same kind of target')
            ck.fact(tag + '/flatten/leaves', not ls, 'has array leaves %s' % (ls,), hard=False)
            ck.eq(tag + '/flatten/call', ck.run1(lambda: o2(x, d)), f(x, d), text='with the same function')
            ck.prove(tag + '/flatten/n_dims', ir.eq(T_(o2.n_dims), T_(D if v is None else len(v))), text='and the same variables')
            if v is not None:
                ck.fact(tag + '/flatten/variables', list(o2.variables) == list(v), str(o2.variables))
            if kind == 'TemperedPDF':
                ck.prove(tag + '/flatten/tempered', ir.eq(T_(ck.run1(lambda: o2.tempered_log_pdf(T, x, d))), want), text='and the same likelihood and prior')
        # both given: the list wins; neither: an error
        o = m.LogPDF(s.fun('ll'), vars3, 7) if kind == 'LogPDF' else m.TemperedPDF(s.fun('ll'), s.fun('prior'), vars3, 7)
        ck.prove('both', ir.eq(T_(o.n_dims), T_(3)), text='variables take precedence')
        err = None
        try:
            m.LogPDF(s.fun('ll')) if kind == 'LogPDF' else m.TemperedPDF(s.fun('ll'), s.fun('prior'))
        except ValueError as e:
            err = e
        ck.fact('neither', err is not None, 'no error', text='variables must be given by number or by list')
    return f_


def nested(ck, w, s):
    """a tempered target built from wrapped targets, evaluated per temperature as the sampler does"""
    m = w['resource.logPDF']
    D, nT = s.dim('D'), s.dim('nT')
    x, d = s.arr('x', (nT, D)), s.obj('d')
    T = s.arr('T', (nT,), pos=True)
    f, g = s.fun('ll'), s.fun('prior')
    o = m.TemperedPDF(m.LogPDF(f, n_dims=D), g, n_dims=D)
    i, = fresh_idx(nT)
    row = vec(D, lambda a: x.fn(i, a))
    out = ck.run1(lambda: fakes.jax.vmap(lambda t, y: o.tempered_log_pdf(t, y, d), in_axes=(0, 0))(T, x))
    ck.prove('vmapped', ir.eq(out.fn(i), ir.add(ir.div(logp('ll', row, d), T.fn(i)), logp('prior', row, d))), text='per temperature')
    out = ck.run1(lambda: fakes.jax.vmap(o, in_axes=(0, None))(x, d))
    ck.prove('vmapped-plain', ir.eq(out.fn(i), logp('ll', row, d)), text='plain calls per temperature')
    p = fakes.tree_util.Partial(o.tempered_log_pdf, T[0])
    y = s.arr('y', (D,))
    ck.prove('partial', ir.eq(T_(ck.run1(lambda: p(y, d))), ir.add(ir.div(logp('ll', y, d), T.fn(ZERO)), logp('prior', y, d))), text='as a partial in the temperature')


def ieee(ck, w, s):
    """outside the support: IEEE arithmetic left as written, decided by z3's floating-point theory"""
    m = w['resource.logPDF']
    D = s.dim('D')
    x, d = s.arr('x', (D,)), s.obj('d')
    T = s.real('T', pos=True)
    f, g = s.fun('ll'), s.fun('prior')
    o = m.TemperedPDF(f, g, n_dims=D)
    for tag, temp in (('T', T), ('T=1', 1.0)):
        def go():
            with ir.fp_mode(True):
                return T_(o.tempered_log_pdf(temp, x, d))
        out = norm().canon(ck.run1(go))
        lt, pt, Tt = norm().canon(T_(f(x, d))), norm().canon(T_(g(x, d))), T_(T)

        def setup(E):
            l, p, r = E.real(lt), E.real(pt), E.real(out)
            t = E.real(Tt)
            ninf = lambda y: z3.And(z3.fpIsInf(y), z3.fpIsNegative(y))
            small = lambda y: z3.And(z3.Not(z3.fpIsNaN(y)), z3.Not(z3.fpIsInf(y)), z3.fpLEQ(z3.fpAbs(y), E.const(1e30)))
            dom = z3.And(z3.fpGEQ(t, E.const(2.0 ** -20)), z3.fpLEQ(t, E.const(2.0 ** 20)))
            return l, p, r, ninf, small, dom

        def prior(E):
            l, p, r, ninf, small, dom = setup(E)
            return dom, ninf(p), z3.Or(small(l), ninf(l)), z3.Not(ninf(r))

        def like(E):
            l, p, r, ninf, small, dom = setup(E)
            return dom, ninf(l), small(p), z3.Not(ninf(r))

        def nan(E):
            l, p, r, ninf, small, dom = setup(E)
            return dom, z3.Or(z3.fpIsNaN(l), z3.fpIsNaN(p)), z3.Not(z3.fpIsNaN(r))

        def finite(E):
            l, p, r, ninf, small, dom = setup(E)
            return dom, small(l), small(p), z3.Or(z3.fpIsNaN(r), z3.fpIsInf(r))
        for k, conds, text in (('outside-prior', prior, 'minus infinity where the log prior is minus infinity'), ('outside-likelihood', like, 'minus infinity where the log likelihood is minus infinity'),
                               ('undefined', nan, 'NaN only passes through'), ('inside', finite, 'finite where both are finite')):
            for bits in ((32, 64) if ck.tier != 'quick' or tag == 'T=1' else (32,)):
                c05.decide(ck, norm(), bits, {'ll', 'prior', 'T'}, None, '%s/%s' % (tag, k), conds, text)


def run(ck):
    F = [LP + c + '.' + n for c in ('LogPDF', 'TemperedPDF') for n in ('__init__', '__call__', 'tree_flatten', 'tree_unflatten')] + [LP + 'LogPDF.n_dims']
    ck.unit('LogPDF', unit('LogPDF'), F, 15)
    ck.unit('TemperedPDF', unit('TemperedPDF'), F + [LP + 'TemperedPDF.tempered_log_pdf'], 20)
    ck.unit('nested', nested, F + [LP + 'TemperedPDF.tempered_log_pdf'], 3)
    ck.unit('ieee', ieee, [LP + 'TemperedPDF.tempered_log_pdf'], 8)
    ck.assume('user functions are pure functions of point and data')
