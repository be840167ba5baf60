"""C08: the preset pipelines fill their buffers and freeze adaptation in production.

The real bundle constructor is run with symbolic step counts, thinnings, loop counts and epochs.  Its
strategy order is a list with two repeated blocks (training, production).  Each block is verified for
a generic repetition t, from the loop invariant
    both cursors at t * W,   loss cursor at t * E,   everything else arbitrary
(W = ceil(n_local/thin) + ceil(n_global/thin)); the prologue and the part between the blocks establish it.
By C11 the sampler executes the order as listed."""
from .steps import *
from .c16 import model_class, mask_contract, in_range
from .ptc import scan_app
from engine.arr import wrapdim, SymList

TS = 'flowMC.strategy.take_steps:'
FNS = [TS + 'TakeSteps.__init__', TS + 'TakeSteps.__call__', TS + 'TakeSteps.set_current_position', 'flowMC.resource.buffers:Buffer.__init__', 'flowMC.resource.buffers:Buffer.update_buffer',
       'flowMC.strategy.train_model:TrainModel.__call__', 'flowMC.strategy.update_state:UpdateState.__call__', 'flowMC.resource.states:State.update', 'flowMC.strategy.lambda_function:Lambda.__call__']
BUN = {False: 'flowMC.resource_strategy_bundle.RQSpline_MALA:RQSpline_MALA_Bundle.__init__', True: 'flowMC.resource_strategy_bundle.RQSpline_MALA_PT:RQSpline_MALA_PT_Bundle.__init__'}
PTF = ['flowMC.strategy.parallel_tempering:ParallelTempering.__call__']

ROLES = ('positions', 'log_prob', 'local_accs', 'global_accs')
STATE = {'target_positions': 'positions', 'target_log_prob': 'log_prob', 'target_local_accs': 'local_accs', 'target_global_accs': 'global_accs'}


def flat(l):
    """a list of names without repetition"""
    return [s[1] for s in SymList.of(l).segs if s[0] == 'one'] if all(s[0] == 'one' for s in SymList.of(l).segs) else None


def blocks(order):
    """[('one', [names]) | ('rep', n, [names])]"""
    out = []
    for s in SymList.of(order).segs:
        if s[0] == 'one':
            if out and out[-1][0] == 'one':
                out[-1][1].append(s[1])
            else:
                out.append(('one', [s[1]]))
        else:
            k = ctx.C.gen('blk', ZERO, dT(s[1]))
            f = s[2](k)
            f = flat(f) if isinstance(f, (SymList, list)) else [f]
            if f is None or not all(isinstance(x, str) for x in f):
                raise Unsupported('strategy order')
            out.append(('rep', dT(s[1]), f))
    return out


class Pipe:
    def __init__(self, ck, w, s, pt):
        self.ck, self.w, self.s, self.pt = ck, w, s, pt
        self.C, self.D = s.dim('C'), s.dim('D')
        self.nl, self.ng, self.lt, self.gt = (s.int(n, 1) for n in ('n_local', 'n_global', 'lthin', 'gthin'))
        self.nT, self.nP, self.E = s.int('n_train', 0, val=[1, 2, 3]), s.int('n_prod', 0, val=[1, 2, 3]), s.int('n_epochs', 1)
        self.nmax, self.B = s.int('n_max', 1), s.int('bs', 1)
        self.Wl, self.Wg = (arr.simp(ir.neg(ir.idiv(ir.neg(a), b))) for a, b in ((self.nl, self.lt), (self.ng, self.gt)))
        self.W = ir.add(self.Wl, self.Wg)
        self.key = s.key('key')
        self.data = rich_data(s, self.C, self.D, arr.wrapdim(self.nl), arr.wrapdim(self.ng))
        self.f = s.fun('logp')
        kw = {}
        mod = w['resource_strategy_bundle.RQSpline_MALA' + ('_PT' if pt else '')]
        cls = mod.RQSpline_MALA_PT_Bundle if pt else mod.RQSpline_MALA_Bundle
        if pt:
            self.nTemp = s.dim('nTemp', 2, val=[2, 3, 4])
            self.np = s.int('n_tempered', None, val=[-1, 0, 1, 3])
            kw = dict(n_temperatures=self.nTemp, n_tempered_steps=wrapdim(self.np), logprior=s.fun('prior'), max_temperature=s.real('maxT', pos=True))
        wd = wrapdim
        self.bundle = cls(s.key('bkey'), self.C, self.D, self.f, wd(self.nl), wd(self.ng), wd(self.nT), wd(self.nP), wd(self.E),
                          local_thinning=wd(self.lt), global_thinning=wd(self.gt), batch_size=wd(self.B), n_max_examples=wd(self.nmax), **kw)

    def install(self):
        """replace the parts known by contract only: kernels and flow"""
        w, r = self.w, self.bundle.resources
        base = w['strategy.take_steps']
        self.Take, self.Serial, self.Group = base.TakeSteps, base.TakeSerialSteps, base.TakeGroupSteps
        self.TrainModel = w['strategy.train_model'].TrainModel
        self.PTS = w['strategy.parallel_tempering'].ParallelTempering
        self.Buffer, self.State, self.Opt = w['resource.buffers'].Buffer, w['resource.states'].State, w['resource.optimizer'].Optimizer
        K, G = kernel_class(w)
        self.log = []
        M = model_class(w, self.log)
        self.M = M

        class FlowKernel(G):
            """any global kernel that holds a flow: outputs also depend on it"""

            def __init__(self, model):
                self.model = model

            def _args(self, rng_key, position, log_prob, logpdf, data):
                k, x, lp, tgt = super()._args(rng_key, position, log_prob, logpdf, data)
                return k, x, lp, ir.app('with_flow', 'U', tgt, asarr(self.model.u).term())
        self.FK = FlowKernel
        real = dict(r)
        self.init_same = real['global_sampler'].model is real['model']
        r['local_sampler'] = K()
        r['model'] = M(self.s.obj('u0'), self.D)
        r['global_sampler'] = FlowKernel(r['model'])
        r['optimizer'].optim_state = self.s.obj('st0')

    def havoc(self):
        """an arbitrary state of everything that holds data"""
        r = self.bundle.resources
        for k, b in r.items():
            if isinstance(b, self.Buffer):
                b.data = self.old(k, b)
        r['model'] = self.M(self.s.obj('u'), self.D)
        r['global_sampler'] = self.FK(self.M(self.s.obj('ug'), self.D))
        r['optimizer'].optim_state = self.s.obj('st')

    def old(self, k, b):
        return Arr(b.data.sh, lambda *i: ir.app('old:' + k, 'R', *i), 'f')

    def steppers(self):
        return [(n, st) for n, st in self.bundle.strategies.items() if isinstance(st, self.Take)]

    def snap(self, res):
        out = {}
        for k, r in res.items():
            if isinstance(r, self.Buffer):
                out[k] = ('buffer', r, r.data, r.cursor, r.cursor_dim)
            elif isinstance(r, self.State):
                out[k] = ('state', dict(r.data))
            elif isinstance(r, self.Opt):
                out[k] = ('opt', r.optim, r.optim_state)
            elif isinstance(r, self.M):
                out[k] = ('model', r)
            elif isinstance(r, self.FK):
                out[k] = ('flow kernel', r.model)
            else:
                out[k] = ('other', r, tuple(sorted(vars(r))), [x for _, x in sorted(vars(r).items())])
        return out

    def attrs(self, st):
        return {k: v for k, v in vars(st).items() if k != 'current_position'}

    def events(self, names, res, x):
        """execute the named strategies in order; (name, strategy, position before, after, snapshot before, after)"""
        out = []
        key = self.key
        for n in names:
            st = self.bundle.strategies[n]
            del self.log[:]
            a = self.snap(res)
            at = {m: self.attrs(q) for m, q in self.bundle.strategies.items()}
            p0 = getattr(st, 'current_position', None)
            key, res2, x = st(key, res, x, self.data)
            p1 = getattr(st, 'current_position', None)
            b = self.snap(res2)
            kept = set(at) == set(self.bundle.strategies) and all(self.attrs(q).keys() == at[m].keys() and all(self.attrs(q)[z] is at[m][z] or self.attrs(q)[z] == at[m][z] for z in at[m]) for m, q in self.bundle.strategies.items())
            out.append(dict(name=n, st=st, p0=p0, p1=p1, a=a, b=b, same=res2 is res, kept=kept, trained=list(self.log)))
            res = res2
            for k, r in res.items():
                # each write is described by its own obligations: what follows is independent of it
                if isinstance(r, self.Buffer) and k in a and r.data is not a[k][2] and k != 'temperatures':
                    r.data = self.old(k, r)
                if isinstance(r, self.M) and a[k][1] is not r:
                    res[k] = self.M(self.s.obj('u%d' % len(out)), self.D)
                if isinstance(r, self.Opt) and r.optim_state is not a[k][2]:
                    r.optim_state = self.s.obj('st%d' % len(out))
            x = Arr((arr.D(self.C), arr.D(self.D)), lambda c, i, n=len(out): ir.app('x%d' % n, 'R', c, i), 'f')
            key = self.s.key('key%d' % len(out))
        return out, res, x


def unchanged(P, k, a, b):
    """term: resource k is as before"""
    if a[0] != b[0]:
        return FALSE
    if a[0] == 'buffer':
        _, r, d, cur, cd = a
        _, r2, d2, cur2, cd2 = b
        if cd != cd2 or len(d.sh) != len(d2.sh):
            return FALSE
        c = T_(cur) if cur is cur2 else None
        g = [] if d is d2 else [ir.eq(dT(u), dT(v)) for u, v in zip(d.sh, d2.sh)]
        if d is not d2:
            ii = fresh_idx(*d.sh)
            g.append(ir.eq(d.fn(*ii), d2.fn(*ii)))
        if cur is not cur2:
            g.append(ir.eq(T_(cur), T_(cur2)))
        return ir.and_(*g)
    if a[0] == 'state':
        return TRUE if a[1] == b[1] else FALSE
    if a[0] == 'opt':
        return ir.and_(TRUE if a[1] is b[1] or a[1].key() == b[1].key() else FALSE, ir.eq(fakes.fingerprint(a[2]), fakes.fingerprint(b[2])))
    if a[0] in ('model', 'flow kernel'):
        return ir.eq(asarr(a[1].u).term(), asarr(b[1].u).term())
    return TRUE if a[1] is b[1] and a[2] == b[2] and all(x is y for x, y in zip(a[3], b[3])) else FALSE


def writes(ck, P, tag, k, a, b, start, length, what):
    """buffer k is written exactly on [start, start+length) of its cursor axis"""
    _, r, d, _, cd = a
    d2 = b[2]
    ck.prove(tag + '/%s/shape' % k, ir.and_(*[ir.eq(dT(u), dT(v)) for u, v in zip(d.sh, d2.sh)]) if len(d.sh) == len(d2.sh) else FALSE, text='%s keeps its shape' % k)
    ii = list(fresh_idx(*d.sh))
    end = ir.add(start, length)
    out = ir.not_(ir.and_(ir.le(start, ii[cd]), ir.lt(ii[cd], end)))
    ck.prove(tag + '/%s/outside' % k, ir.implies(out, ir.eq(d2.fn(*ii), d.fn(*ii))), text='%s: %s leaves every other slot alone' % (k, what))
    m = ctx.C.gen('m', ZERO, length)
    ii[cd] = ir.add(start, m)
    V = norm().canon(d2.fn(*ii))
    V2 = replace_app(V, 'old:' + k, lambda *z: ir.app('other:' + k, 'R', *z))
    ck.prove(tag + '/%s/written' % k, ir.eq(V, V2), text='%s: %s writes every slot of its segment (nothing old is left)' % (k, what))
    return V


def block(ck, P, tag, events, t, phase):
    """obligations of one repetition of a block, from the invariant at t"""
    training = phase == 'training'
    p = ir.mul(t, P.W)
    n_tr, segs = 0, []
    names = {k: k + '_' + phase for k in ROLES}
    names['positions'] = 'positions_' + phase
    cur = ir.mul(t, P.E)
    for j, e in enumerate(events):
        tg = '%s/%d-%s' % (tag, j, e['name'])
        allowed = set()
        a, b = e['a'], e['b']
        if isinstance(e['st'], P.Take):
            g = isinstance(e['st'], P.Group)
            L = P.Wg if g else P.Wl
            segs.append(g)
            ck.prove(tg + '/start', ir.eq(T_(e['p0']), p), text='the segment starts where the previous one ended')
            ck.prove(tg + '/advance', ir.eq(T_(e['p1']), ir.add(p, L)), text='the cursor advances by ceil(steps/thinning)')
            for role in ('positions', 'log_prob', 'global_accs' if g else 'local_accs'):
                k = names[role]
                V = writes(ck, P, tg, k, a[k], b[k], p, L, 'the %s segment' % ('global' if g else 'local'))
                allowed.add(k)
                if g:
                    fl = [x for x in ir.subterms(V) if x.op == 'app' and x.args[0] == 'with_flow']
                    ck.fact(tg + '/%s/flow-used' % k, bool(fl), ir.show(V)[:200], hard=False, text='the global segment comes from the global kernel')
                    for x in sorted(set(fl), key=lambda z: z.id)[:1]:
                        want = asarr(a['model'][1].u).term()
                        if training:
                            ck.fact(tg + '/%s/after-training' % k, n_tr > 0, 'no training before', text='the flow has been trained in this loop')
                            ck.prove(tg + '/%s/flow' % k, ir.eq(x.args[2], want), text='the global step uses the flow as just trained')
                        else:
                            ck.prove(tg + '/%s/flow' % k, ir.eq(x.args[2], ir.var('ug', 'U')), text='the global step uses the frozen proposal')
            p = ir.add(p, L)
        elif isinstance(e['st'], P.TrainModel):
            n_tr += 1
            ck.fact(tg + '/phase', training, 'training in production', text='the flow is trained in the training phase only')
            ck.prove(tg + '/loss/start', ir.eq(T_(a['loss_buffer'][3]), cur), text='the losses are appended where the last ones ended')
            V = writes(ck, P, tg, 'loss_buffer', a['loss_buffer'], b['loss_buffer'], cur, P.E, 'one training')
            ck.prove(tg + '/loss/advance', ir.eq(T_(b['loss_buffer'][3]), ir.add(cur, P.E)), text='the loss cursor advances by the number of epochs')
            cur = ir.add(cur, P.E)
            allowed |= {'loss_buffer', 'model', 'optimizer'}
        elif P.pt and isinstance(e['st'], P.PTS):
            allowed |= {'tempered_positions'} | ({'temperatures'} if training else set())
        if training:
            allowed.add('global_sampler')
        ck.fact(tg + '/keys', set(a) == set(b) and e['same'], 'resources replaced', hard=False, text='the resource dictionary keeps its entries')
        bad = [ir.implies(TRUE, unchanged(P, k, a[k], b[k])) for k in a if k not in allowed and k in b]
        ck.prove(tg + '/frame', ir.and_(*bad), text='no other resource changes')
        ck.fact(tg + '/strategies', e['kept'], 'attributes changed', hard=False, text='strategies keep their settings')
    ck.fact(tag + '/segments', sorted(segs) == [False, True], str(segs), text='one local and one global segment per loop')
    ck.prove(tag + '/advance', ir.eq(p, ir.mul(ir.add(t, ONE), P.W)), text='the loop fills W slots')
    fst = next((e['name'] for e in events if isinstance(e['st'], P.Take)), None)
    for n, st in P.steppers():
        ck.prove(tag + '/cursor-' + n, ir.eq(T_(P.endpos[phase][n]), ir.mul(ir.add(t, ONE), P.W)), text='both cursors are at (t+1) W afterwards', aux=n != fst)
    if training:
        ck.fact(tag + '/trained', n_tr == 1, '%d trainings' % n_tr, text='one training per loop')


def first(P, rep):
    """the sampling strategy that runs first in a block (the other one's cursor is set before it runs)"""
    return next((n for n in rep[2] if isinstance(P.bundle.strategies[n], P.Take)), None)


def unit(pt):
    def f(ck, w, s):
        F = s.int('F', 1)
        ctx.C.schemas.append(in_range)
        ctx.C.rules.append(mask_contract(F))
        box = {}
        t1, t2 = ir.var('t', 'I'), ir.var('tp', 'I')

        def go():
            P = box['P'] = Pipe(ck, w, s, pt)
            P.install()
            b = P.bundle
            res = b.resources
            P.endpos = {}
            x = s.arr('x0', (P.C, P.D))
            P.bl = blocks(b.strategy_order)
            P.kinds = [z[0] for z in P.bl]
            reps = [z for z in P.bl if z[0] == 'rep']
            if len(reps) != 2:
                raise Unsupported('strategy order with %d repeated blocks' % len(reps))
            ctx.C.ranges[t1] = (ZERO, reps[0][1])
            ctx.C.ranges[t2] = (ZERO, reps[1][1])
            # room: (t + 1) W <= n W   (products with t + 1 <= n)
            P.room = []
            for t, n in ((t1, P.nT), (t2, P.nP)):
                for u in (P.W, P.E):
                    P.room.append((t, n, u))
            for t, n, u in P.room:
                ctx.C.facts.append(ir.le(ir.mul(ir.add(t, ONE), u), ir.mul(n, u)))
            out = {}
            k = 0
            P.first = P.snap(res)
            for z in P.bl:
                if z[0] == 'one':
                    if k == 1:
                        for n, st in P.steppers():
                            st.set_current_position(wrapdim(ir.mul(P.nT, P.W)))
                        P.havoc()
                    out[('one', k)] = P.events(z[1], res, x)[0]
                    out[('after', k)] = (P.snap(res), {n: st.current_position for n, st in P.steppers()})
                else:
                    t = (t1, t2)[k]
                    tag = ('training', 'production')[k]
                    P.havoc()
                    out[('entry', k)] = ({n: st.current_position for n, st in P.steppers()}, P.snap(res))
                    for n, st in P.steppers():
                        st.set_current_position(wrapdim(ir.mul(t, P.W)))
                    if tag == 'training':
                        res['loss_buffer'].cursor = wrapdim(ir.mul(t, P.E))
                    out[tag] = P.events(z[2], res, x)[0]
                    P.endpos[tag] = {n: st.current_position for n, st in P.steppers()}
                    k += 1
            return P, out, reps
        n = 0
        for p in ck.paths_of(go):
            n += 1
            P, out, reps = p.result
            tag = 'p%d' % n
            ck.fact(tag + '/order', P.kinds.count('rep') == 2, str(P.kinds), text='prologue, training loops, switch, production loops')
            ck.prove(tag + '/loops', ir.and_(ir.eq(reps[0][1], P.nT), ir.eq(reps[1][1], P.nP)), text='as many loops as configured')
            # buffers as constructed
            for ph, cnt in (('training', P.nT), ('production', P.nP)):
                for role in ROLES:
                    d = P.first[role + '_' + ph]
                    sh = [dT(z) for z in d[2].sh]
                    ii = fresh_idx(*d[2].sh)
                    want = [dT(arr.D(P.C)), ir.mul(cnt, P.W)] + ([dT(arr.D(P.D))] if role == 'positions' else [])
                    ck.prove('%s/size/%s_%s' % (tag, role, ph), ir.and_(*[ir.eq(u, v) for u, v in zip(sh, want)]) if len(sh) == len(want) and d[4] == 1 else FALSE,
                             text='room for exactly loops x (ceil(local/thin) + ceil(global/thin)) samples per chain')
            d = P.first['loss_buffer']
            ck.prove(tag + '/size/loss', ir.eq(dT(d[2].sh[0]), ir.mul(P.nT, P.E)) if len(d[2].sh) == 1 else FALSE, text='room for exactly loops x epochs losses')
            ck.fact(tag + '/proposal-flow', P.init_same, 'another flow', hard=False, text='the global proposal is built on the flow resource')
            frozen = [k + '_training' for k in ROLES] + ['loss_buffer', 'model', 'optimizer', 'global_sampler'] + (['temperatures'] if pt else [])
            for k in (0, 1, 2):
                for e in out.get(('one', k), ()):
                    tg = '%s/%s/%s' % (tag, ('prologue', 'switch', 'epilogue')[k], e['name'])
                    fr = [z for z in e['a'] if not (z == 'tempered_positions' or (z == 'sampler_state' and k == 1))]
                    if k == 1:
                        fr = [z for z in fr if z not in ('global_sampler',)]
                    ck.prove(tg + '/frame', ir.and_(*[unchanged(P, z, e['a'][z], e['b'].get(z, ('gone',))) for z in fr]), text='no buffer, flow, optimizer or ladder changes')
                    ck.fact(tg + '/strategies', e['kept'], 'attributes changed', hard=False, text='strategies keep their settings')
            # the invariant is established
            for k, ph in ((0, 'training'), (1, 'production')):
                pos, sn = out[('entry', k)]
                for n_, v in sorted(pos.items()):
                    ck.prove('%s/%s/enter/%s' % (tag, ph, n_), ir.eq(T_(v), ZERO), text='the first %s segment starts at slot 0' % ph, aux=n_ != first(P, reps[k]))
                if k == 0:
                    ck.prove('%s/%s/enter/loss' % (tag, ph), ir.eq(T_(sn['loss_buffer'][3]), ZERO), text='the first loss goes to slot 0')
                sd = sn['sampler_state'][1]
                ck.fact('%s/%s/enter/training' % (tag, ph), sd.get('training') is (k == 0), str(sd), text='the training flag is %s' % (k == 0))
            for k, ph in ((0, 'training'), (1, 'production')):
                block(ck, P, tag + '/' + ph, out[ph], (t1, t2)[k], ph)
    return f


def run(ck):
    for pt in (False, True):
        ck.unit('RQSpline_MALA%s' % ('_PT' if pt else ''), unit(pt), FNS + [BUN[pt]] + (PTF if pt else []), 80)
