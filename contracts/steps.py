"""Shared by C04, C06, C07, C08, C19: the sampling strategies with a kernel known by contract only."""
from .common import *
from engine.arr import wrapdim

K_ARGS = 5


def target_fp(logpdf, data, n):
    """the target (function and data) as one term: its value at a placeholder point"""
    ph = Arr((arr.D(n),), lambda i: ir.app('pt', 'R', i), 'f')
    t = asarr(logpdf(ph, data))
    if t.ndim != 0:
        raise TypeError('the target returns shape %s' % (t.sh,))
    return t.term()


def kernel_class(w, pre=''):
    base = w['resource.kernel.base'].ProposalBase

    class AbsKernel(base):
        """any local kernel: outputs are functions of (key, position, log density, target, data)"""

        def __init__(self):
            pass

        def _args(self, rng_key, position, log_prob, logpdf, data):
            position = asarr(position)
            lp = asarr(log_prob)
            if position.ndim != 1:
                raise TypeError('kernel got a position of rank %d' % position.ndim)
            if lp.ndim != 0:
                raise TypeError('kernel got a log density of rank %d' % lp.ndim)
            k = fakes.use_key(rng_key)
            tgt = target_fp(logpdf, data, position.sh[0])
            return k, lam_of(position), arr.castT(lp.term(), 'f'), tgt

        def kernel(self, rng_key, position, log_prob, logpdf, data):
            k, x, lp, tgt = self._args(rng_key, position, log_prob, logpdf, data)
            n = asarr(position).sh[0]
            return (Arr((n,), lambda i: ir.app(pre + 'Kpos', 'R', i, k, x, lp, tgt), 'f'),
                    Arr((), lambda: ir.app(pre + 'Klp', 'R', k, x, lp, tgt), 'f'),
                    Arr((), lambda: ir.app(pre + 'Kacc', 'B', k, x, lp, tgt), 'b'))

        def print_parameters(self):
            pass

        save_resource = load_resource = print_parameters

        def __repr__(self):
            return 'AbsKernel'

    class AbsGroup(AbsKernel):
        """any kernel that returns data['n_steps'] states at once"""

        def kernel(self, rng_key, position, log_prob, logpdf, data):
            m = data['n_steps']
            rest = {a: b for a, b in data.items() if a != 'n_steps'}
            k, x, lp, tgt = self._args(rng_key, position, log_prob, lambda y, d: logpdf(y, rest), data)
            n = asarr(position).sh[0]
            md = arr.D(m)
            return (Arr((md, n), lambda s, i: ir.app(pre + 'Gpos', 'R', s, i, k, x, lp, tgt, dT(md)), 'f'),
                    Arr((md,), lambda s: ir.app(pre + 'Glp', 'R', s, k, x, lp, tgt, dT(md)), 'f'),
                    Arr((md,), lambda s: ir.app(pre + 'Gacc', 'B', s, k, x, lp, tgt, dT(md)), 'b'))
    return AbsKernel, AbsGroup


class Setup:
    """One sampling strategy on symbolic resources."""

    def __init__(self, ck, w, s, group, batch, warm=False):
        self.C = s.dim('C')
        self.D = s.dim('D')
        self.N = s.int('N', 1)
        self.th = s.int('th', 1)
        self.c0 = s.int('c0', 0)
        self.cap = s.int('cap', 1, val=None)
        s.ints['cap'] = lambda v: 12
        self.W = ir.neg(ir.idiv(ir.neg(self.N), self.th))
        ctx.C.facts.append(ir.le(ir.add(self.c0, self.W), self.cap))
        self.cap_ = wrapdim(self.cap)
        self.key = s.key('key')
        self.x0 = s.arr('x0', (self.C, self.D))
        self.data = rich_data(s, self.C, self.D, wrapdim(self.N), self.cap_)
        self.f = s.fun('logp')
        L = w['resource.logPDF'].LogPDF
        self.target = L(self.f, n_dims=2)
        Buffer = w['resource.buffers'].Buffer
        State = w['resource.states'].State
        cap = wrapdim(self.cap)
        self.bp = Buffer('p', (self.C, cap, self.D), 1)
        self.bl = Buffer('l', (self.C, cap), 1)
        self.ba = Buffer('a', (self.C, cap), 1)
        self.bp.data = s.arr('oldp', (self.C, cap, self.D))
        self.bl.data = s.arr('oldl', (self.C, cap))
        self.ba.data = s.arr('olda', (self.C, cap))
        self.other = Buffer('o', (3,), 0)
        self.state = State({'P': 'pb', 'L': 'lb', 'A': 'ab', 'training': True}, name='st')
        K, G = kernel_class(w)
        self.kernel = (G if group else K)()
        self.resources = {'logpdf': self.target, 'kern': self.kernel, 'st': self.state, 'pb': self.bp, 'lb': self.bl, 'ab': self.ba, 'oth': self.other}
        self.res0 = dict(self.resources)
        mod = w['strategy.take_steps']
        cls = mod.TakeGroupSteps if group else mod.TakeSerialSteps
        self.B = None
        kw = {}
        if batch:
            self.B = s.int('B', 2)
            kw['chain_batch_size'] = wrapdim(self.B)
        self.make = lambda: cls('logpdf', 'kern', 'st', ['P', 'L', 'A'], wrapdim(self.N), thinning=wrapdim(self.th), **kw)
        self.st = self.make()
        self.st.set_current_position(wrapdim(self.c0))
        self.warm = None
        if warm:
            # an earlier call on other resources, positions, target and data must leave no trace but the write position
            K1, G1 = kernel_class(w, 'w.')
            bufs = [Buffer(n, sh, 1) for n, sh in (('p', (self.C, cap, self.D)), ('l', (self.C, cap)), ('a', (self.C, cap)))]
            for b, n in zip(bufs, ('w.oldp', 'w.oldl', 'w.olda')):
                b.data = s.arr(n, b.data.sh)
            self.warm = (s.key('w.key'), {'logpdf': L(s.fun('w.logp'), n_dims=2), 'kern': (G1 if group else K1)(), 'st': State({'P': 'pb', 'L': 'lb', 'A': 'ab'}, name='st'),
                                          'pb': bufs[0], 'lb': bufs[1], 'ab': bufs[2]}, s.arr('w.x0', (self.C, self.D)), rich_data(s, self.C, self.D, pre='w.'))
            ctx.C.facts.append(ir.le(self.W, self.cap))

    def run(self):
        for b, n in ((self.bp, 'oldp'), (self.bl, 'oldl'), (self.ba, 'olda')):
            rank = 3 if n == 'oldp' else 2
            b.data = Arr(b.data.sh, lambda *i, n=n: ir.app(n, 'R', *i), 'f')
        if self.warm:
            k, r, x, d = self.warm
            self.st = self.make()
            self.st(k, dict(r), x, dict(d))
        self.st.set_current_position(wrapdim(self.c0))
        self.resources = dict(self.res0)
        return self.st(self.key, self.resources, self.x0, self.data)

    def tgt(self):
        return target_fp(self.f, self.data, self.D)

    def lp0(self, c):
        return logp('logp', vec(self.D, lambda i: self.x0.fn(c, i)), self.data)


def find_kernel_app(t, name):
    """the outermost application of the abstract kernel in t"""
    if t.op == 'app' and t.args[0] == name:
        return t
    raise Unsupported('recorded value is not a kernel output: ' + ir.show(t)[:200])


class Iter:
    """the iterate behind a recorded kernel output K(.., k, lam q(tau), l(tau), tgt)"""

    def __init__(self, V, name='Kpos'):
        a = find_kernel_app(V, name)
        off = 2 if name == 'Kpos' else 1
        self.app = a
        self.k, self.x, self.lp, self.tgt = a.args[off:off + 4]
        n = norm()
        if self.x.op != 'lam':
            raise Unsupported('position argument')
        vs, dims, body = ir.open_binder(self.x)
        self.dim = dims[0]
        body = n.canon(body)
        lp = n.canon(self.lp)
        self.static = False
        if not (body.op == 'app' and body.args[0] in ctx.C.scans):
            raise Unsupported('iterate position is not a carried value: ' + ir.show(body)[:200])
        self.q = body.args[0]
        self.sd = ctx.C.scans[self.q]
        self.tau, ix, self.g = self.sd.split(self.q, body.args[1:])
        if not (lp.op == 'app' and lp.args[0] in ctx.C.scans and ctx.C.scans[lp.args[0]] is self.sd):
            raise Unsupported('log density handed to the kernel is not carried with the position: ' + ir.show(lp)[:200])
        self.l = lp.args[0]
        self.tau2, _, self.g2 = self.sd.split(self.l, lp.args[1:])

    def qat(self, t, *i):
        return ir.app(self.q, 'R', t, *i, *self.g)

    def lat(self, t):
        return ir.app(self.l, 'R', t, *self.g)

    def posv(self, t):
        v = ir.fresh('l')
        return ir.lam((v,), (self.dim,), self.qat(t, v))

    def key_at(self, j):
        """the key of step j -> j+1"""
        v = norm().canon(self.qat(ir.add(j, ONE), ir.fresh('f')))
        return find_kernel_app(v, 'Kpos').args[2]


def reach(terms, gens_map=None):
    """all sub-terms reachable from the terms, also through the recurrences they mention"""
    out = []
    seen = set()
    todo = list(terms)
    done = set()
    n = norm()
    while todo:
        t = todo.pop()
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            out.append(x)
            if x.op in ('lam', 'sum', 'all'):
                vs, dims, body = ir.open_binder(x)
                st.extend(dims)
                st.append(n.canon(body))
                continue
            if x.op == 'app' and x.args[0] in ctx.C.scans:
                sd = ctx.C.scans[x.args[0]]
                tm, ix, g = sd.split(x.args[0], x.args[1:])
                gk = (sd.name, g)
                if gk not in done:
                    done.add(gk)
                    m = dict(zip(sd.gens, g))
                    for y in sd.leaves:
                        l = sd.parts(y)
                        ff = [ir.fresh('r') for _ in l[0]]
                        m2 = dict(m)
                        m2.update(zip(l[0], ff))
                        todo.append(n.canon(ir.subst(l[3], m2)))
                        todo.append(n.canon(ir.subst(l[4], m2)))
            for a in x.args:
                if isinstance(a, ir.T):
                    st.append(a)
    return out


def reach1(terms):
    """as reach, but of a recurrence only the components actually mentioned are followed"""
    out, seen, done = [], set(), set()
    st = list(terms)
    n = norm()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        if x.op in ('lam', 'sum', 'all'):
            vs, dims, body = ir.open_binder(x)
            st.extend(dims)
            st.append(n.canon(body))
            continue
        if x.op == 'app' and x.args[0] in ctx.C.scans:
            sd = ctx.C.scans[x.args[0]]
            tm, ix, g = sd.split(x.args[0], x.args[1:])
            gk = (x.args[0], g)
            if gk not in done:
                done.add(gk)
                l = sd.parts(x.args[0])
                m = dict(zip(sd.gens, g))
                m.update(zip(l[0], [ir.fresh('r') for _ in l[0]]))
                st.append(n.canon(ir.subst(l[3], m)))
                st.append(n.canon(ir.subst(l[4], m)))
        for a in x.args:
            if isinstance(a, ir.T):
                st.append(a)
    return out
