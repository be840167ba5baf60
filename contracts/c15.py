"""C15: training keeps the best epoch and uses each example at most once per epoch."""
from .common import *
from engine.arr import wrapdim
from .steps import reach
from . import c05
import z3

NF = 'flowMC.resource.model.nf_model.base:NFModel.'
FM = 'flowMC.resource.model.flowmatching.base:FlowMatchingModel.'


def ZR():
    return const(0, 'R')


def cfg(o):
    return ir.var('cfg:' + o.key(), 'U')


def callee(name, m, sh, args, D):
    """(loss, model, state) of an abstract training callee: functions of everything it is given"""
    r = lambda x: Arr((), lambda: ir.app('%s.%s' % (name, x[0]), x[1], *args), x[2])
    n = type(m).like(m)
    n.u = r(('u', 'U', 'u'))
    n._data_mean = Arr(asarr(m._data_mean).sh, lambda *i: ir.app(name + '.mean', 'R', *i, *args), 'f')
    n._data_cov = Arr(asarr(m._data_cov).sh, lambda *i: ir.app(name + '.cov', 'R', *i, *args), 'f')
    return r(('loss', 'R', 'f')), n, r(('state', 'U', 'u'))


def nf_model(w, u, mean, cov, D, abstract):
    """any normalizing flow: parameters u, whitening statistics, density flowlp"""
    base = w['resource.model.nf_model.base'].NFModel

    class Flow(base):
        def __init__(self):
            self.u, self._data_mean, self._data_cov = u, mean, cov

        @property
        def n_features(self):
            return D

        @staticmethod
        def like(m):
            n = Flow()
            n.u, n._data_mean, n._data_cov = m.u, m._data_mean, m._data_cov
            return n

        def log_prob(self, x):
            x = asarr(x)
            if x.ndim != 1:
                raise TypeError('log_prob takes one point')
            a = (lam_of(x), fakes.fingerprint(self))
            return Arr((), lambda: ir.app('flowlp', 'R', *a), 'f')

        if abstract == 'step':
            def train_step(self, x, optim, state):
                x = asarr(x)
                return callee('TS', self, None, (fakes.fingerprint(self), lam_of(x), dT(x.sh[0]), cfg(optim), fakes.fingerprint(state)), D)
        if abstract == 'epoch':
            def train_epoch(self, rng, optim, state, data, batch_size):
                x = asarr(data)
                return callee('EP', self, None, (fakes.fingerprint(self), lam_of(x), dT(x.sh[0]), cfg(optim), fakes.fingerprint(state), dT(arr.D(batch_size)), fakes.use_key(rng)), D)

        def sample(self, *a, **k):
            raise Unsupported('sample')
        forward = inverse = print_parameters = save_resource = load_resource = sample
    return Flow()


def fm_model(w, u, mean, cov, D, abstract):
    """flow matching with any network (parameters u)"""
    M = w['resource.model.flowmatching.base']
    from .c14 import net_at
    one = wrapdim(ir.add(dT(arr.D(D)), ONE))

    class Net(fakes.Module):
        def __init__(self, u):
            self.w = u
        n_input, n_output, dtype = one, D, fakes._dt('float32', 'f')

        def __call__(self, z):
            z = asarr(z)
            if z.ndim != 1:
                raise TypeError('the network got rank %d' % z.ndim)
            t, v = lam_of(z), asarr(self.w).term()
            return Arr((arr.D(D),), lambda i: ir.app('NET', 'R', i, t, v), 'f')
    base = M.FlowMatchingModel

    class Model(base):
        def __init__(self):
            super().__init__(M.Solver(Net(u)), M.Path(M.CondOTScheduler()), data_mean=mean, data_cov=cov)

        @property
        def u(self):
            return self.solver.model.w

        @u.setter
        def u(self, v):
            self.solver.model.w = v

        @staticmethod
        def like(m):
            n = Model()
            n.solver = M.Solver(Net(m.u))
            n._data_mean, n._data_cov, n.path = m._data_mean, m._data_cov, m.path
            return n
        if abstract == 'step':
            def train_step(self, x, t, dx, optim, state):
                x, t, dx = asarr(x), asarr(t), asarr(dx)
                return callee('TS', self, None, (fakes.fingerprint(self), lam_of(x), lam_of(t), lam_of(dx), dT(x.sh[0]), cfg(optim), fakes.fingerprint(state)), D)
        if abstract == 'epoch':
            def train_epoch(self, rng, optim, state, data, batch_size):
                xs = [asarr(x) for x in data]
                return callee('EP', self, None, (fakes.fingerprint(self), *[lam_of(x) for x in xs], dT(xs[0].sh[0]), cfg(optim), fakes.fingerprint(state), dT(arr.D(batch_size)), fakes.use_key(rng)), D)
    return Model()


class Case:
    """a model with any parameters and whitening, data, optimizer state"""

    def __init__(self, w, s, kind, abstract, scalar=False, n='N'):
        self.kind = kind
        self.D = D = s.dim('D') if not scalar else 1
        self.N = s.int(n, 1)
        self.N_ = wrapdim(self.N)
        self.mean = s.arr('mean', (D,))
        self.cov = s.arr('Ccov', (D, D)) if not scalar else s.real('var', pos=True)
        self.u0 = s.obj('u')
        self.m = (nf_model if kind == 'NF' else fm_model)(w, self.u0, self.mean, self.cov, D, abstract)
        self.data = s.arr('data', (self.N_, D))
        self.state = s.obj('st')
        self.optim = fakes.GT('opt')
        self.ij = fresh_idx(D, D)
        ctx.C.schemas.append(perm_range)
        if kind == 'NF':
            self.arg = self.data
        else:
            self.x0, self.t = s.arr('x0', (self.N_, D)), s.arr('t', (self.N_, 1))
            self.arg = (self.x0, self.data, self.t)

    def model_terms(self, m):
        i, j = self.ij
        c = asarr(m._data_cov)
        return asarr(m.u).term(), asarr(m._data_mean).fn(i), c.fn(*(i, j)[:c.ndim])


# ---------------------------------------------------------------- one step
def step(kind):
    def f(ck, w, s):
        c = Case(w, s, kind, None)
        D = c.D
        if kind == 'NF':
            args = (c.data,)
            go = lambda: c.m.train_step(c.data, c.optim, c.state)
            lp = lambda m, r: ir.app('flowlp', 'R', lam1(D, lambda k: c.data.fn(r, k)), fakes.fingerprint(m))
            objective = lambda m: ir.neg(ir.div(S(c.N_, lambda r: lp(m, r)), c.N))
            text = 'minus the mean log density of the batch'
        else:
            from .c14 import net_at
            dx = s.arr('dx', (c.N_, D))
            go = lambda: c.m.train_step(c.x0, c.t, dx, c.optim, c.state)
            e = lambda m, r, k: ir.sub(net_at(D, k, lambda q: c.x0.fn(r, q), c.t.fn(r, ZERO), asarr(m.u).term()), dx.fn(r, k))
            objective = lambda m: ir.div(S(c.N_, lambda r: S(D, lambda k: ir.mul(e(m, r, k), e(m, r, k)))), ir.mul(c.N, dT(arr.D(D))))
            text = 'the mean squared error of the velocity over the batch'
        for p in ck.paths_of(go):
            loss, m2, st2 = p.result
            ck.prove('loss', ir.eq(T_(loss), objective(c.m)), text='the loss of a step is ' + text + ' for the model before the step')
            # the gradient of the objective, with the model's leaves as variables
            leaves, rb = fakes.flatten(c.m)
            us = [k for k, x in enumerate(leaves) if isinstance(x, Arr)]
            l2, cur = list(leaves), []
            for n, k in enumerate(us):
                x = leaves[k]
                cur.append(lam_of(x) if x.ndim else x.term())
                l2[k] = Arr(x.sh, lambda *i, n=n, x=x: ir.app('model!%d' % n, arr.SORT[x.dt], *i), x.dt)
            g = ir.app('grad_wrt', 'U', objective(rb(l2)), *cur)
            st = c.state.term()
            key, fp = c.optim.key(), fakes.fingerprint(c.m)
            ck.prove('state', ir.eq(asarr(st2).term(), ir.app('opt.state:' + key, 'U', g, st, fp)), text='the optimizer state after the step is that of its update for the gradient of this loss')
            up = fakes.UObj(ir.app('opt.upd:' + key, 'U', g, st, fp))
            want = fakes.apply_updates(c.m, up)
            for nm, a, b in zip(('parameters', 'mean', 'cov'), c.model_terms(m2), c.model_terms(want)):
                ck.prove('model/' + nm, arr.eqT(a, b), text='the model is updated by the optimizer\'s update for this gradient')
    return f


# ---------------------------------------------------------------- one epoch
def perm_range(x):
    if x.args[0] == 'perm':
        return [ir.implies(ir.and_(ir.le(ZERO, x.args[3]), ir.lt(x.args[3], x.args[2])), ir.and_(ir.le(ZERO, x), ir.lt(x, x.args[2])))]
    return ()


def loss_leaf(sd, name):
    for sym in sd.leaves:
        x = norm().canon(sd.parts(sym)[4])
        if x.op == 'app' and x.args[0] == name:
            return sym, x
    return None, None


def index_of(c, batch, vs):
    """the example index of row r of a batch (read off the arrays the batch is made of)"""
    names = {'data'} if c.kind == 'NF' else {'data', 'x0', 't'}
    found = {}
    for x in ir.subterms(batch):
        if x.op == 'app' and x.args[0] in names and len(x.args) == 3:
            found.setdefault(x.args[1], set()).add(x.args[0])
    return found


def check_batch(ck, c, tag, a, j, B, idxf, text):
    """row r of the batch given to the step is example idxf(j, r) (flow matching: its path point, time, velocity)"""
    D = c.D
    r = ctx.C.gen('r', ZERO, B)
    i, = fresh_idx(D)
    e = idxf(j, r)
    if c.kind == 'NF':
        fp, lx, nb = a[:3]
        ck.prove(tag + '/batch', ir.eq(ir.apply_binder(lx, (r, i)), c.data.fn(e, i)), text=text)
    else:
        fp, lx, lt, ld, nb = a[:5]
        sd = lambda k: ir.fn('sqrt', c.cov.fn(k, k) if c.cov.ndim else c.cov.term())
        x1 = ir.div(ir.sub(c.data.fn(e, i), c.mean.fn(i)), sd(i))
        t, x0 = c.t.fn(e, ZERO), c.x0.fn(e, i)
        ck.prove(tag + '/time', ir.eq(ir.apply_binder(lt, (r, ZERO)), t), text=text)
        ck.prove(tag + '/point', ir.eq(ir.apply_binder(lx, (r, i)), ir.add(ir.mul(ir.sub(R(1), t), x0), ir.mul(t, x1))), text='the point on the path from the base sample to the whitened data sample of the same example, at its time')
        ck.prove(tag + '/velocity', ir.eq(ir.apply_binder(ld, (r, i)), ir.sub(x1, x0)), text='the velocity of that path')
    ck.prove(tag + '/batch-size', ir.eq(nb, B))


def epoch(kind, scalar=False):
    def f(ck, w, s):
        c = Case(w, s, kind, 'step', scalar)
        B = s.int('B', 1)
        key = s.key()
        n = ir.idiv(c.N, B)
        seen = 0
        for p in ck.paths_of(lambda: c.m.train_epoch(key, c.optim, c.state, c.arg, wrapdim(B))):
            seen += 1
            val, m2, st2 = p.result
            small = same(ir.b2n(ir.lt(c.N, B)), ONE)
            tag = 'few' if small else 'many'
            got = (T_(val),) + c.model_terms(m2) + (asarr(st2).term(),)
            names = ('loss', 'u', 'mean', 'cov', 'state')
            if small:
                # fewer examples than a batch: one step on all of them
                x = norm().canon(got[0])
                if x.op != 'app' or x.args[0] != 'TS.loss':
                    ck.fact(tag + '/one-step', False, ir.show(x)[:300], text='one step on all examples', hard=False)
                    continue
                a = x.args[1:]
                ck.fact(tag + '/one-step', same(a[0], fakes.fingerprint(c.m)), ir.show(x)[:300], text='the step starts from the model given')
                ck.fact(tag + '/state-given', same(a[-1], c.state.term()) and same(a[-2], cfg(c.optim)), ir.show(x)[:300], text='and the optimizer state given')
                check_batch(ck, c, tag, a, ZERO, c.N, lambda j, r: r, 'all examples')
                for nm, g in zip(names, got):
                    g = norm().canon(g)
                    ck.fact('%s/%s' % (tag, nm), g.op == 'app' and g.args[0] == 'TS.' + nm and all(same(p_, q_) for p_, q_ in zip(g.args[-len(a):], a)), ir.show(g)[:300], text='what the step returns is returned')
                continue
            # floor(N / B) steps
            x = norm().canon(got[0])
            if not ctx.C.scan_list and x.op == 'app' and x.args[0] == 'TS.loss':
                # a single step: right only when there is exactly one batch
                ck.prove(tag + '/one-batch', ir.and_(ir.eq(n, ONE), ir.eq(x.args[3 if kind == 'NF' else 5], B)), text='floor(N / batch) steps on batches of the configured size')
            ok = ck.fact(tag + '/loop', len(ctx.C.scan_list) == 1, '%d loops' % len(ctx.C.scan_list), hard=False, text='one loop over batches')
            if not ok:
                continue
            sd = scans()[-1]
            ck.prove(tag + '/count', ir.eq(sd.n, n), text='floor(N / batch) steps')
            syms = {nm: loss_leaf(sd, 'TS.' + nm)[0] for nm in names}
            x = None
            for nm in names:
                x = x or loss_leaf(sd, 'TS.' + nm)[1]
            if x is None:
                raise Unsupported('the loop carries nothing a step returns')
            a = x.args[1:]
            late = syms['loss'] is None          # the loss of the last pass, not a carried value
            if late:
                del syms['loss']
            if any(v is None for v in syms.values()):
                ck.fact(tag + '/carried', False, 'not carried from step to step: %s' % [k for k in syms if syms[k] is None], text='model and state are carried from step to step')
                continue
            # the state of the loop: initial values and what the step is given
            i, j2 = c.ij
            for nm in names[1:]:
                ix = {'mean': 1, 'cov': asarr(c.m._data_cov).ndim}.get(nm, 0)
                vs = (i, j2)[:ix]
                t0 = init_of(sd, syms[nm], *vs)
                w0 = {'u': c.u0.term(), 'mean': c.mean.fn(i) if nm == 'mean' else None, 'cov': c.cov.fn(*vs) if nm == 'cov' else None, 'state': c.state.term()}[nm]
                ck.prove('%s/start/%s' % (tag, nm), arr.eqT(t0, w0), text='the first step starts from the model and state given')
                st = norm().canon(step_of(sd, syms[nm], sd.j, *vs))
                ck.fact('%s/carry/%s' % (tag, nm), st.op == 'app' and st.args[0] == 'TS.' + nm and all(same(p_, q_) for p_, q_ in zip(st.args[-len(a):], a)), ir.show(st)[:300], text='the results of one and the same step are carried on')
            # the step is given the carried model and state
            m = type(c.m).like(c.m)
            at_ = lambda nm, *v: at(sd, syms[nm], sd.j, *v)
            m.u = Arr((), lambda: at_('u'), 'u')
            m._data_mean = Arr(asarr(c.m._data_mean).sh, lambda *v: at_('mean', *v), 'f')
            m._data_cov = Arr(asarr(c.m._data_cov).sh, lambda *v: at_('cov', *v), 'f')
            ck.prove(tag + '/step-model', arr.eqT(a[0], fakes.fingerprint(m)), text='each step is given the model of the previous one')
            ck.prove(tag + '/step-state', arr.eqT(a[-1], at_('state')), text='each step is given the optimizer state of the previous one')
            ck.fact(tag + '/step-optim', same(a[-2], cfg(c.optim)), 'another optimizer')
            # batches
            perms = sorted({y for y in ir.subterms(norm().canon(a[1])) if y.op == 'app' and y.args[0] == 'perm'}, key=lambda y: y.id)
            if len(perms) != 1:
                ck.fact(tag + '/shuffle', False, 'expected one random permutation of the examples, found %d' % len(perms), hard=False)
                continue
            k = perms[0]
            ck.prove(tag + '/permutation', ir.eq(k.args[2], c.N), text='the examples are permuted')
            pf = lambda e: ir.app('perm', 'I', k.args[1], c.N, e)
            # position in the permutation of row r of batch j
            vs, dims, body = ir.open_binder(a[1])
            pos = norm().canon(k.args[3])
            r = ctx.C.gen('r', ZERO, B)
            lb = a[1] if kind == 'NF' else a[2]
            body = norm().canon(ir.apply_binder(lb, (r, ZERO)))
            ps = sorted({y.args[3] for y in ir.subterms(body) if y.op == 'app' and y.args[0] == 'perm'}, key=lambda y: y.id)
            if len(ps) != 1:
                ck.fact(tag + '/positions', False, '%d positions per row' % len(ps), hard=False)
                continue
            ps = ps[0]
            pos = lambda j, r_: ir.subst(ps, {sd.j: j, r: r_})
            ctx.C.ranges[sd.j] = (ZERO, n)
            check_batch(ck, c, tag, a, sd.j, B, lambda j, r_: pf(pos(j, r_)), 'row r of batch j is the example at position j*B + r of the permutation')
            hy = [ir.le(ZERO, sd.j), ir.lt(sd.j, n)]
            std = same(ps, ir.add(ir.mul(sd.j, B), r))
            if std:
                ck.prove(tag + '/disjoint', ir.and_(ir.eq(ir.idiv(ps, B), sd.j), ir.eq(ir.imod(ps, B), r)), hy, text='batch and row are recovered from the position: no position is used twice; a permutation maps distinct positions to distinct examples')
            else:
                ck.prove(tag + '/disjoint', ir.and_(ir.eq(ir.idiv(ps, n), r), ir.eq(ir.imod(ps, n), sd.j)), hy + [ir.lt(ZERO, n)], aux=True, text='batch and row are recovered from the position')
            ck.prove(tag + '/in-range', ir.and_(ir.le(ZERO, ps), ir.lt(ps, c.N)), hy, aux=not std, text='every position is that of an example')
            for nm, g in zip(names, got):
                ix = {'mean': 1, 'cov': asarr(c.m._data_cov).ndim}.get(nm, 0)
                g = norm().canon(g)
                if nm == 'loss' and late:
                    want = ir.app('TS.loss', 'R', *[ir.subst(norm().canon(y), {sd.j: ir.sub(n, ONE)}) if isinstance(y, ir.T) else y for y in a])
                    ck.prove('%s/returned/%s' % (tag, nm), ir.eq(g, want), text='the loss of the last step is returned')
                    continue
                good = g.op == 'app' and g.args[0] == syms[nm]
                ck.fact('%s/returned/%s' % (tag, nm), good, ir.show(g)[:300], text='the values after the last step are returned')
                if good:
                    ck.prove('%s/returned-last/%s' % (tag, nm), ir.eq(g.args[1], n))
        ck.fact('cases', seen == 2, '%d paths' % seen, text='both cases reached', hard=False)
    return f


# ---------------------------------------------------------------- training
def outer(t, stop):
    """sub-terms of t not below an application of `stop`"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        if x.op == 'app' and x.args[0] == stop:
            continue
        if x.op in ('sum', 'all', 'lam'):
            todo.append(ir.open_binder(x)[2])
        todo += [a for a in x.args if isinstance(a, ir.T)]
    return out


def put(t, *pairs):
    """replace sub-terms (generalise over their values)"""
    memo = {pairs[k]: pairs[k + 1] for k in range(0, len(pairs), 2)}

    def go(x, memo):
        r = memo.get(x)
        if r is None:
            if x.op in ('sum', 'all', 'lam'):
                vs, dims, body = ir.open_binder(x)
                b = go(body, memo)
                d = [go(y, memo) for y in dims]
                r = ir.sum_(vs[0], d[0], b) if x.op == 'sum' else ir.all_(vs[0], d[0], b) if x.op == 'all' else ir.lam(vs, d, b)
            elif any(isinstance(a, ir.T) for a in x.args):
                r = ir.rebuild(x, [go(a, memo) if isinstance(a, ir.T) else a for a in x.args])
            else:
                r = x
            memo[x] = r
        return r
    return go(t, memo)


def train(kind, verbose, scalar=False):
    def f(ck, w, s):
        c = Case(w, s, kind, 'epoch', scalar)
        E, B = s.int('E', 1), s.int('B', 1)
        key = s.key()
        D = c.D
        i, j2 = c.ij
        n = 0
        for p in ck.paths_of(lambda: c.m.train(key, c.arg, c.optim, c.state, wrapdim(E), wrapdim(B), verbose=verbose)):
            n += 1
            tag = 'p%d' % n
            k2, best, bst, losses = p.result
            losses = asarr(losses)
            ck.fact(tag + '/type', isinstance(best, type(c.m)), str(type(best)), hard=False, text='a model is returned')
            ck.prove(tag + '/loss-length', ir.eq(dT(losses.sh[0]), E), text='one loss per epoch')
            if len(ctx.C.scan_list) != 1:
                raise Unsupported('%d loops' % len(ctx.C.scan_list))
            sd = scans()[-1]
            ck.prove(tag + '/epochs', ir.eq(sd.n, E), text='as many epochs as asked for')
            j = sd.j
            ctx.C.ranges[j] = (ZERO, E)
            # what is returned is carried by the loop
            res = dict(zip(('u', 'mean', 'cov'), c.model_terms(best)))
            res['state'] = asarr(bst).term()
            e = ctx.C.gen('e', ZERO, E)
            res['losses'] = losses.fn(e)
            bs, fixed, collected = {}, {}, None
            for nm, t in res.items():
                t = norm().canon(t)
                if nm != 'losses' and not any(x.op == 'app' and x.args[0] in sd.leaves for x in ir.subterms(t)):
                    fixed[nm] = t                    # the loop does not touch it
                    continue
                if nm == 'losses' and not (t.op == 'app' and t.args[0] in sd.leaves):
                    collected = t                    # a list of what each epoch gave
                    continue
                if t.op != 'app' or t.args[0] not in sd.leaves:
                    raise Unsupported('%s returned is not carried by the loop: %s' % (nm, ir.show(t)[:200]))
                bs[nm] = t.args[0]
                ck.prove('%s/end/%s' % (tag, nm), ir.eq(t.args[1], E), text='the values after the last epoch are returned')
            rank = {'u': 0, 'mean': 1, 'cov': asarr(c.m._data_cov).ndim, 'state': 0}
            ix = {nm: (i, j2)[:rank[nm]] for nm in rank}
            STEP = lambda nm, jj: fixed[nm] if nm in fixed else step_of(sd, bs[nm], jj, *ix[nm])
            AT = lambda nm: fixed[nm] if nm in fixed else at(sd, bs[nm], j, *ix[nm])
            INIT = lambda nm: fixed[nm] if nm in fixed else init_of(sd, bs[nm], *ix[nm])
            stp = {nm: norm().canon(STEP(nm, j)) for nm in rank}
            # the training of one epoch
            lv = norm().canon(step_of(sd, bs['losses'], j, j) if collected is None else ir.subst(collected, {e: j}))
            calls = {x for nm in rank for x in outer(stp[nm], 'EP.loss') if x.op == 'app' and x.args[0] == 'EP.loss'} | {x for x in outer(lv, 'EP.loss') if x.op == 'app' and x.args[0] == 'EP.loss'}
            if len(calls) != 1:
                raise Unsupported('%d trainings per epoch' % len(calls))
            L = list(calls)[0]
            a = L.args[1:]
            nd = 1 if kind == 'NF' else 3
            # ... starts from the model and the optimizer state the previous epoch ended with
            cur = {}
            for nm in rank:
                r = loss_leaf(sd, 'EP.' + nm)
                if r[0] is None:
                    ck.fact('%s/carry/%s' % (tag, nm), False, 'what training returns is not carried to the next epoch', text='each epoch continues from the previous one')
                    break
                cur[nm] = r[0]
                ck.fact('%s/carry/%s' % (tag, nm), all(same(x, y) for x, y in zip(r[1].args[-len(a):], a)), ir.show(r[1])[:300], text='the results of one and the same training')
            if len(cur) < len(rank):
                continue
            m = type(c.m).like(c.m)
            at_ = lambda nm, *v: at(sd, cur[nm], j, *v)
            m.u = Arr((), lambda: at_('u'), 'u')
            m._data_mean = Arr((arr.D(D),), lambda *v: at_('mean', *v), 'f')
            m._data_cov = Arr(asarr(c.m._data_cov).sh, lambda *v: at_('cov', *v), 'f')
            ck.prove(tag + '/model-given', arr.eqT(a[0], fakes.fingerprint(m)), text='each epoch starts from the model the previous one ended with')
            for q_, x in enumerate(((c.data,) if kind == 'NF' else c.arg)):
                ck.prove('%s/data-given%d' % (tag, q_), arr.eqT(a[1 + q_], lam_of(x)), text='all the training data')
            ck.prove(tag + '/size-given', ir.and_(ir.eq(a[1 + nd], c.N), ir.eq(a[4 + nd], B)), text='batch size as configured')
            ck.prove(tag + '/state-given', ir.and_(arr.eqT(a[3 + nd], at_('state')), TRUE if a[2 + nd] is cfg(c.optim) else FALSE), text='each epoch starts from the optimizer state the previous one ended with')
            # the first epoch starts from the given parameters, whitened with the statistics of the data
            mean = lambda k: ir.div(S(c.N_, lambda r: c.data.fn(r, k)), c.N)
            ck.prove(tag + '/start/u', arr.eqT(init_of(sd, cur['u']), c.u0.term()), text='the first epoch starts from the parameters given')
            ck.prove(tag + '/start/state', arr.eqT(init_of(sd, cur['state']), c.state.term()))
            ck.prove(tag + '/start/mean', ir.eq(init_of(sd, cur['mean'], i), mean(i)), text='whitening mean = mean of the training data')
            want = asarr(fakes.jax.numpy.cov(c.data.T)) if hasattr(fakes.jax, 'numpy') else asarr(fakes.j_cov(c.data.T))
            ck.prove(tag + '/start/cov', ir.eq(init_of(sd, cur['cov'], *ix['cov']), want.fn(*ix['cov'])), text='whitening covariance = covariance of the training data')
            # losses, in order
            ck.prove(tag + '/losses', ir.eq(lv, L), text='the loss of epoch j is entered at j')
            e2 = ctx.C.gen('e', ZERO, E)
            if collected is None:
                ck.prove(tag + '/losses-kept', ir.eq(step_of(sd, bs['losses'], j, e2), at(sd, bs['losses'], j, e2)), [ir.lt(e2, j)], text='earlier losses are kept')
            # the best epoch
            bl = None
            for nm in rank:
                for x in outer(stp[nm], 'EP.loss'):
                    if x.op == 'app' and x.args[0] in sd.leaves and x.args[1] is j and x.sort == 'R' and len(x.args) == 2 + len(sd.gens) and x.args[0] not in bs.values() and x.args[0] not in cur.values():
                        bl = x.args[0] if bl in (None, x.args[0]) else False
            if not bl:
                raise Unsupported('the best loss is not carried by the loop')
            T0 = init_of(sd, bl)
            nxt = lambda jj: step_of(sd, bl, jj)
            inf = T0.op == 'special' and T0.args[0] == 'inf'
            ck.fact(tag + '/usable', inf or same(ir.b2n(ir.le(R(10 ** 9), T0)), ONE), ir.show(T0), text='every loss below 1e9 is usable')
            usable = (lambda x: TRUE) if inf else (lambda x: ir.lt(x, T0))
            b = ctx.C.gen('b', ZERO, E)
            Lat = lambda t: ir.subst(L, {j: t})
            Lb = Lat(b)
            BL = at(sd, bl, j)
            if not inf:
                ck.prove(tag + '/before/base', ir.lt(Lb, T0), [usable(Lb)])
            # (for any losses: the loss of this epoch and the best loss so far are arbitrary numbers)
            x_, y_ = s.real('new_loss').term(), s.real('best_loss').term()
            s.reals['new_loss'] = lambda v: v.value(y_) + v.rng.choice([0, 0, 0.5, 1.5, -0.5, -1.5])
            gen = lambda t: put(put(norm().canon(t), L, x_), norm().canon(BL), y_)
            z_ = s.real('lowest_loss').term()
            s.reals['lowest_loss'] = lambda v: min(v.value(y_), v.value(x_)) - v.rng.random()
            ck.prove(tag + '/before/step', ir.lt(z_, gen(nxt(j))), [ir.lt(z_, y_), ir.lt(z_, x_)], text='before the first epoch of lowest loss the best loss is higher')
            first = {nm: ir.subst(norm().canon(step_of(sd, cur[nm], j, *ix[nm])), {j: b}) for nm in rank}
            genb = lambda t: put(norm().canon(t), norm().canon(Lb), x_, norm().canon(ir.subst(BL, {j: b})), y_)
            hb = [ir.lt(x_, y_)]
            ck.prove(tag + '/at/loss', ir.eq(genb(nxt(b)), x_), hb, text='that epoch becomes the best')
            for nm in rank:
                ck.prove('%s/at/%s' % (tag, nm), arr.eqT(genb(STEP(nm, b)), genb(first[nm])), hb, text='and what it trained is kept')
            ck.prove(tag + '/after/loss', ir.eq(gen(nxt(j)), y_), [ir.le(y_, x_)], text='later epochs do not replace it unless their loss is lower')
            for nm in rank:
                ck.prove('%s/after/%s' % (tag, nm), arr.eqT(gen(STEP(nm, j)), gen(AT(nm))), [ir.le(y_, x_)])
            # no usable loss
            given = {'u': c.u0.term(), 'mean': c.mean.fn(i), 'cov': c.cov.fn(*ix['cov']), 'state': c.state.term()}
            for nm in rank:
                ck.prove('%s/none/start/%s' % (tag, nm), arr.eqT(INIT(nm), given[nm]), text='the given model and state until an epoch is usable')
                if not inf:
                    s.reals['new_loss'] = lambda v: 10 ** 9 + v.rng.choice([0, 1, 7])
                    ck.prove('%s/none/%s' % (tag, nm), ir.and_(arr.eqT(put(norm().canon(STEP(nm, j)), norm().canon(BL), T0, L, x_), AT(nm)), ir.eq(put(norm().canon(nxt(j)), norm().canon(BL), T0, L, x_), T0)), [ir.le(T0, x_)], text='and as long as none is')
    return f


def train_ieee(kind):
    """losses of NaN: the selection of the best epoch with comparisons as IEEE has them, decided by z3's floating-point theory"""
    def f(ck, w, s):
        c = Case(w, s, kind, 'epoch')
        E_, B = s.int('E', 1), s.int('B', 1)
        key = s.key()

        def go():
            with ir.fp_mode(True):
                k2, best, bst, losses = c.m.train(key, c.arg, c.optim, c.state, wrapdim(E_), wrapdim(B), verbose=False)
                c05.force()
                return asarr(best.u).term(), asarr(bst).term()
        n = 0
        for p in ck.paths_of(go):
            n += 1
            if len(ctx.C.scan_list) != 1:
                raise Unsupported('%d loops' % len(ctx.C.scan_list))
            sd = scans()[-1]
            j = sd.j
            ctx.C.ranges[j] = (ZERO, E_)
            nrm = norm()
            steps, L = {}, set()
            for nm, t in zip(('model', 'state'), p.result):
                t = nrm.canon(t)
                if t.op != 'app' or t.args[0] not in sd.leaves:
                    raise Unsupported('%s returned is not carried by the loop: %s' % (nm, ir.show(t)[:200]))
                steps[nm] = (nrm.canon(step_of(sd, t.args[0], j)), nrm.canon(at(sd, t.args[0], j)))
                L |= {x for x in outer(steps[nm][0], 'EP.loss') if x.op == 'app' and x.args[0] == 'EP.loss'}
            bls = {x for st, _ in steps.values() for x in outer(st, 'EP.loss') if x.op == 'app' and x.args[0] in sd.leaves and x.sort == 'R' and len(x.args) == 2 + len(sd.gens)}
            if len(L) != 1 or len(bls) != 1:
                raise Unsupported('the selection does not compare the loss of the epoch with the best one')
            L, BL = list(L)[0], list(bls)[0]
            nb = nrm.canon(step_of(sd, BL.args[0], j))

            def sel(E, t, ids):
                if t.op == 'ite':
                    return z3.If(E.bool(t.args[0]), sel(E, t.args[1], ids), sel(E, t.args[2], ids))
                return z3.IntVal(ids.setdefault(t, len(ids)))
            nan, pick = z3.fpIsNaN, {}
            for nm, (st, cur) in steps.items():
                tr = [x for x in ir.subterms(st) if x.op == 'app' and x.args[0] == 'EP.' + {'model': 'u', 'state': 'state'}[nm]]
                if len(tr) != 1:
                    raise Unsupported('what training returns is not selected: ' + ir.show(st)[:200])
                tr = tr[0]

                def unusable(E, st=st, cur=cur):
                    ids = {}
                    x, y = E.real(L), E.real(BL)
                    return z3.Not(nan(y)), z3.Or(nan(x), z3.fpGEQ(x, y)), sel(E, st, ids) != z3.IntVal(ids.setdefault(cur, len(ids)))

                def better(E, st=st, tr=tr):
                    ids = {}
                    x, y = E.real(L), E.real(BL)
                    return z3.Not(nan(y)), z3.fpLT(x, y), sel(E, st, ids) != z3.IntVal(ids.setdefault(tr, len(ids)))
                for bits in (32, 64):
                    c05.decide(ck, nrm, bits, {'EP.loss'}, None, 'p%d/%s/unusable' % (n, nm), unusable, 'a loss that is NaN or not lower replaces nothing')
                    c05.decide(ck, nrm, bits, {'EP.loss'}, None, 'p%d/%s/better' % (n, nm), better, 'a lower loss does')

            def best(E):
                x, y, z = E.real(L), E.real(BL), E.real(nb)
                return z3.Not(nan(y)), z3.Or(nan(z), z3.Not(z3.fpEQ(z, z3.If(z3.fpLT(x, y), x, y))))
            for bits in (32, 64):
                c05.decide(ck, nrm, bits, {'EP.loss'}, None, 'p%d/loss' % n, best, 'the best loss is never NaN and is the lower of the two')
    return f


def run(ck):
    ck.assume('C15: jax.random.permutation returns a permutation',
              'C15: optax applies its update rule (an uninterpreted function of the gradient, the optimizer state and the parameters); equinox adds the updates leaf by leaf; jax differentiates exactly')
    for kind, P in (('NF', NF), ('FM', FM)):
        ck.unit(kind + '/train_step', step(kind), [P + 'train_step', P + 'loss_fn'], 5)
        ck.unit(kind + '/train_epoch', epoch(kind), [P + 'train_epoch'], 10)
        for v in (False, True):
            ck.unit('%s/train%s' % (kind, '/verbose' if v else ''), train(kind, v), [P + 'train'], 25)
        ck.unit('%s/train/ieee' % kind, train_ieee(kind), [P + 'train'], 10)
        ck.unit('%s/train/one-feature' % kind, train(kind, False, True), [P + 'train'], 25)
    ck.unit('FM/train_epoch/one-feature', epoch('FM', True), [FM + 'train_epoch'], 10)
