"""C16: the training strategy learns only from recorded recent samples."""
from .common import *
from engine.arr import wrapdim
from engine.prove import Prover

TM = 'flowMC.strategy.train_model:TrainModel.'
FNS = [TM + '__init__', TM + '__call__', 'flowMC.resource.buffers:Buffer.update_buffer', 'flowMC.resource.buffers:Buffer.__init__', 'flowMC.resource.optimizer:Optimizer.__init__']


def model_class(w, log):
    base = w['resource.model.nf_model.base'].NFModel

    class AbsModel(base):
        """any flow: what training returns is a function of everything it is given"""

        def __init__(self, u, nf):
            self.u, self.nf = u, nf

        @property
        def n_features(self):
            return self.nf

        def train(self, rng, data, optim, state, num_epochs, batch_size, verbose=True):
            x = asarr(data)
            if x.ndim != 2:
                raise TypeError('training data of rank %d' % x.ndim)
            E, B = arr.D(num_epochs), arr.D(batch_size)
            rng = asarr(rng)
            k0, k1 = rng, None
            if ctx.C.tag_draws:
                # contract of train for C19: it draws from keys derived from the one given, disjoint from the one returned
                k0 = Arr((), lambda: ir.app('foldin', 'K', rng.term(), ZERO), 'k')
                k1 = ir.app('foldin', 'K', rng.term(), ONE)
            a = (fakes.use_key(k0), lam_of(x), ir.var('cfg:' + optim.key(), 'U'), fakes.fingerprint(state), dT(E), dT(B), asarr(self.u).term())
            log.append((x, a))
            return (Arr((), lambda: k1 if k1 is not None else ir.app('T.key', 'K', *a), 'k'),
                    type(self)(Arr((), lambda: ir.app('T.model', 'U', *a), 'u'), self.nf),
                    Arr((), lambda: ir.app('T.state', 'U', *a), 'u'),
                    Arr((E,), lambda e: ir.app('T.loss', 'R', e, *a), 'f'))

        def log_prob(self, x):
            raise Unsupported('log_prob')

        def sample(self, *a, **k):
            raise Unsupported('sample')

        forward = inverse = __call__ = print_parameters = save_resource = load_resource = log_prob
    return AbsModel


def mask_contract(F):
    """numpy contract of a boolean mask with F true entries in every row (row major selection)"""
    def rule(a, n):
        if a.op != 'app':
            return None
        if a.args[0] == 'mask.count' and a.args[1].op == 'lam' and a.args[1].args[0] == 2:
            return ir.mul(a.args[1].args[2], F)
        if a.args[0] == 'mask.sel':
            ax, r, lm = a.args[1:]
            if ax == 0:
                return ir.idiv(r, F)
            return ir.app('rowsel', 'I', ir.idiv(r, F), ir.imod(r, F), lm)
        return None
    return rule


def in_range(x):
    if x.args[0] in ('choice', 'choice_noreplace'):
        return [ir.le(ZERO, x), ir.lt(x, x.args[2])]
    return ()


def prepare(w, s, loss, warm=False):
    log = []
    M = model_class(w, log)
    C_, T_n, D = s.dim('C'), s.dim('T'), s.dim('D')
    F = s.int('F', 1)
    h = s.int('h', 1)
    ctx.C.facts.append(ir.le(F, dT(arr.D(T_n))))
    N, E, B = s.int('Nmax', 1), s.int('E', 1), s.int('B', 1)
    Buffer, State = w['resource.buffers'].Buffer, w['resource.states'].State
    Opt = w['resource.optimizer'].Optimizer
    mod = w['strategy.train_model'].TrainModel
    key = s.key('key')
    x0 = s.arr('x0', (C_, D))
    u0 = s.obj('u')
    cap, cur = s.int('cap', 1), s.int('cur', 0)
    s.ints['cap'] = lambda v: 12
    ctx.C.facts.append(ir.le(ir.add(cur, E), cap))
    s.interp['isfinite'] = lambda v, x: int(abs(float(x)) * 1e6) % 3 != 0
    s.ints['Nmax'] = lambda v: v.rng.choice([1, 2, 3, 30, 20000])
    ctx.C.schemas.append(in_range)
    ctx.C.rules.append(mask_contract(F))

    def go():
        del log[:]
        bp = Buffer('p', (C_, T_n, D), 1)
        bp.data = s.arr('buf', (C_, T_n, D))
        bl = Buffer('l', (wrapdim(cap),), 0)
        bl.data = s.arr('oldloss', (wrapdim(cap),))
        bl.cursor = wrapdim(cur)
        m = M(u0, D)
        o = Opt(m)
        o.optim_state = s.obj('st')
        oth = State({'training': True}, name='st')
        res = {'model': m, 'data': bp, 'opt': o, 'loss': bl, 'oth': oth}
        kw = {'loss_buffer_name': 'loss'} if loss else {}
        t = mod('model', 'data', 'opt', n_epochs=wrapdim(E), batch_size=wrapdim(B), n_max_examples=wrapdim(N), history_window=wrapdim(h), **kw)
        if warm:
            # an earlier training with the same strategy on another flow, optimizer state, data and losses must leave no trace
            wp, wl = Buffer('p', (C_, T_n, D), 1), Buffer('l', (wrapdim(cap),), 0)
            wp.data, wl.data, wl.cursor = s.arr('w.buf', (C_, T_n, D)), s.arr('w.loss', (wrapdim(cap),)), wrapdim(cur)
            wm = M(s.obj('w.u'), D)
            wo = Opt(wm)
            wo.optim_state = s.obj('w.st')
            t(s.key('w.key'), {'model': wm, 'data': wp, 'opt': wo, 'loss': wl, 'oth': State({}, name='st')}, s.arr('w.x0', (C_, D)), {'d': s.obj('w.d')})
            del log[:]
        out = t(key, res, x0, {'d': s.obj('d')})
        return out, res, (m, bp, o, bl, oth), dict(res)
    return go, log, key, (C_, T_n, D, F, h, N, E, B, cap, cur, u0, x0)


def unit(loss, warm=False):
    def f(ck, w, s):
        Opt = w['resource.optimizer'].Optimizer
        go, log, key, (C_, T_n, D, F, h, N, E, B, cap, cur, u0, x0) = prepare(w, s, loss, warm)
        n = 0
        for p in ck.paths_of(go):
            n += 1
            tag = 'p%d' % n
            (k2, r2, x2), res, (m, bp, o, bl, oth), _ = p.result
            if len(log) != 1:
                ck.fact(tag + '/once', False, '%d trainings' % len(log), text='one training')
                continue
            X, a = log[0]
            W = ir.fn('min', F, h)
            W = norm().canon(W)
            e, i = fresh_idx(N, D)
            c, t = fresh_idx(C_, T_n)
            V = norm().canon(X.fn(e, i))
            if warm:
                l_ = ctx.C.gen('l', ZERO, cap)
                no_trace(ck, tag + '/no-trace', [V, *[y for y in a if isinstance(y, ir.T)], r2['loss'].data.fn(l_), T_(r2['loss'].cursor), asarr(r2['model'].u).term(), fakes.fingerprint(r2['opt'].optim_state), *[x2.fn(*fresh_idx(C_, D))]])
            lms = [x for x in ir.subterms(V) if x.op == 'app' and x.args[0] == 'rowsel']
            if not lms:
                raise Unsupported('training rows are not selected by a mask: ' + ir.show(V)[:200])
            lm = lms[0].args[3]
            if any(x.args[3] is not lm for x in lms):
                raise Unsupported('several masks')
            ii = ctx.C.gen('i', ZERO, dT(arr.D(D)))
            want = ir.all_(ii, dT(arr.D(D)), ir.app('isfinite', 'B', ir.app('buf', 'R', c, t, ii)))
            got = ir.apply_binder(lm, (c, t))
            hold = [ir.implies(got, ir.app('isfinite', 'B', ir.app('buf', 'R', c, t, ctx.C.gen('i', ZERO, dT(arr.D(D)))))), ir.implies(want, got)]
            ck.prove(tag + '/mask', ir.and_(*hold), text='a row is eligible exactly when all its entries are finite')
            ck.prove(tag + '/size', ir.and_(ir.eq(dT(X.sh[0]), N), ir.eq(dT(X.sh[1]), dT(arr.D(D)))), text='as many rows as the configured maximum')
            ch = [x for x in ir.subterms(V) if x.op == 'app' and x.args[0] in ('choice', 'choice_noreplace', 'perm', 'randint', 'uniform', 'normal')]
            ch = sorted(set(ch), key=lambda x: x.id)
            if len(ch) != 1:
                raise Unsupported('expected one draw, found %d' % len(ch))
            kk = ch[0]
            pop = ir.mul(dT(arr.D(C_)), W)
            if kk.args[0] in ('choice', 'choice_noreplace'):
                ck.fact(tag + '/replace', kk.args[0] == 'choice', 'drawn without replacement', text='drawn with replacement')
                ck.prove(tag + '/population', ir.eq(kk.args[2], pop), text='uniformly from the min(F, window) last recorded rows of every chain')
                ck.prove(tag + '/draws', ir.and_(ir.eq(kk.args[3], N), ir.eq(kk.args[4], e)), text='row e is draw e')
            else:
                raise Unsupported('rows drawn by ' + kk.args[0])
            rng = [ir.le(ZERO, kk), ir.lt(kk, pop)]
            q = ir.add(ir.sub(F, W), ir.imod(kk, W))
            cc = ir.idiv(kk, W)
            spec = ir.app('buf', 'R', cc, ir.app('rowsel', 'I', cc, q, lm), i)
            ck.prove(tag + '/window', ir.eq(V, spec), hyps=rng + [ir.le(W, F), ir.le(ONE, W), ir.lt(cc, dT(arr.D(C_))), ir.le(ZERO, cc)],
                     text='draw k gives row F - W + (k mod W) of the F finite rows of chain k div W, in recorded order (W = min(F, history window))')
            ck.prove(tag + '/epochs', ir.and_(ir.eq(a[4], E), ir.eq(a[5], B)), text='the configured epochs and batch size')
            ck.prove(tag + '/start', ir.and_(ir.eq(a[3], ir.var('st', 'U')), ir.eq(a[6], u0.term()), ir.eq(a[2], ir.var('cfg:' + o.optim.key(), 'U'))), text='the stored flow, optimizer and optimizer state are trained')
            nm = r2['model']
            ck.prove(tag + '/model', ir.eq(asarr(nm.u).term(), ir.app('T.model', 'U', *a)), text='the stored flow is replaced by the trained one')
            ck.prove(tag + '/state', ir.eq(fakes.fingerprint(r2['opt'].optim_state), ir.app('T.state', 'U', *a)), text='the stored optimizer state is replaced')
            ck.fact(tag + '/optimizer', r2['opt'] is o and o.optim.key() == Opt(m).optim.key(), 'optimizer changed', text='the optimizer itself is kept')
            ls = ctx.C.gen('l', ZERO, cap)
            j = ctx.C.gen('j', ZERO, E)
            nb = r2['loss']
            if loss:
                ck.prove(tag + '/loss', ir.eq(nb.data.fn(ir.add(cur, j)), ir.app('T.loss', 'R', j, *a)), text='epoch losses are appended at the cursor')
                ck.prove(tag + '/loss-frame', ir.implies(ir.not_(ir.and_(ir.le(cur, ls), ir.lt(ls, ir.add(cur, E)))), ir.eq(nb.data.fn(ls), ir.app('oldloss', 'R', ls))), text='other losses are kept')
                ck.prove(tag + '/loss-cursor', ir.eq(T_(nb.cursor), ir.add(cur, E)), text='the cursor advances by their number')
            else:
                ck.prove(tag + '/loss-frame', ir.eq(nb.data.fn(ls), ir.app('oldloss', 'R', ls)), text='losses are kept')
                ck.prove(tag + '/loss-cursor', ir.eq(T_(nb.cursor), cur), text='the cursor is kept')
            ck.prove(tag + '/loss-shape', ir.eq(dT(nb.data.sh[0]), cap), text='the loss buffer keeps its size')
            ck.prove(tag + '/data', ir.eq(r2['data'].data.fn(c, t, ii), ir.app('buf', 'R', c, t, ii)), text='the data buffer is unchanged')
            c2 = fresh_idx(C_)[0]
            ck.prove(tag + '/positions', ir.eq(x2.fn(c2, ii), ir.app('x0', 'R', c2, ii)), text='the chain positions are unchanged')
            ck.fact(tag + '/others', set(r2) == {'model', 'data', 'opt', 'loss', 'oth'} and r2['oth'] is oth and oth.data == {'training': True} and r2['data'] is bp, 'changed', text='other resources are unchanged')
    return f


def run(ck):
    ck.unit('TrainModel[loss buffer]', unit(True), FNS, 16)
    ck.unit('TrainModel[no loss buffer]', unit(False), FNS, 15)
    ck.unit('TrainModel[later call]', unit(True, True), FNS, 16)
    ck.assume('every chain has the same number F >= 1 of fully finite recorded rows (the sampling strategies write all chains together); boolean mask selection is row-major (numpy contract)',
              'the loss buffer has room for the epochs')
