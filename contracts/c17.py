"""C17: Adam optimisation stays in its box, ascends the target, per chain."""
from .common import *
from engine.arr import wrapdim
from engine import fakes as fk
from .steps import reach1

OP = 'flowMC.strategy.optimization:AdamOptimization.'
FNS = [OP + '__init__', OP + '__call__', OP + 'optimize']


def setup(w, s, shared, one=False):
    cls = w['strategy.optimization'].AdamOptimization
    C_, D = s.dim('C'), (1 if one else s.dim('D', 2))
    n = s.int('n', 1)
    x0 = s.arr('x0', (C_, D))
    f = s.fun('logp')
    nb = 1 if shared else D
    b = s.arr('bounds', (nb, 2))
    k = ctx.C.gen('k', ZERO, dT(arr.D(nb)))
    # well-formed box: lower <= upper
    v = ir.fresh('k')
    ctx.C.facts.append(ir.all_(v, dT(arr.D(nb)), ir.le(ir.app('bounds', 'R', v, ZERO), ir.app('bounds', 'R', v, ONE))))
    lvl, lr = s.real('noise'), s.real('lr', pos=True)
    key, data = s.key('key'), rich_data(s, C_, D, wrapdim(n))
    o = cls(f, n_steps=wrapdim(n), learning_rate=lr, noise_level=lvl, bounds=b)
    return o, C_, D, n, x0, f, b, lvl, lr, key, data


def bound(shared, i, w):
    return ir.app('bounds', 'R', ZERO if shared else i, const(w))


def project(shared, i, v):
    return ir.fn('min', ir.fn('max', v, bound(shared, i, 0)), bound(shared, i, 1))


def unit(shared, call, one=False, warm=False):
    def g(ck, w, s):
        o, C_, D, n, x0, f, b, lvl, lr, key, data = setup(w, s, shared, one)
        # interpretation used to look for counterexamples: an ordered box
        s.interp['bounds'] = lambda v, k, e: (-0.4 if int(e) == 0 else 0.3) + 0.05 * (int(k) % 3)
        solver = o.solver
        if call:
            res = {'r': s.obj('r')}
            def go():
                if warm:
                    # an earlier run of the same strategy from other points on other data
                    o(s.key('w.key'), {'r': s.obj('w.r')}, s.arr('w.x0', (C_, D)), rich_data(s, C_, D, pre='w.'))
                return o(key, res, x0, data)
        else:
            go = lambda: o.optimize(key, lambda p, d: -f(p, d), x0, data)
        m = 0
        for p in ck.paths_of(go):
            m += 1
            tag = 'p%d' % m
            if call:
                k2, r2, x = p.result
                ck.fact(tag + '/resources', r2 is res and set(res) == {'r'}, 'resources changed', text='resources are unchanged')
            else:
                k2, x, lp = p.result
            x = asarr(x)
            c, i = fresh_idx(C_, D)
            ck.prove(tag + '/shape', ir.and_(ir.eq(dT(x.sh[0]), dT(arr.D(C_))), ir.eq(dT(x.sh[1]), dT(arr.D(D)))) if x.ndim == 2 else FALSE, text='one point per chain')
            V = norm().canon(x.fn(c, i))
            if warm:
                no_trace(ck, tag + '/no-trace', [V, asarr(k2).term()])
            if not (V.op == 'app' and V.args[0] in ctx.C.scans):
                # the last projection may be outside the loop
                apps = [y for y in reach1([V]) if y.op == 'app' and y.args[0] in ctx.C.scans and len(ctx.C.scans[y.args[0]].leaves[y.args[0]][0]) == 1]
                if not apps:
                    raise Unsupported('the returned point is not the end of an iteration: ' + ir.show(V)[:200])
            Vs = unfold_last(V, n)
            ck.prove(tag + '/in-box', ir.and_(ir.le(bound(shared, i, 0), Vs), ir.le(Vs, bound(shared, i, 1))),
                     hyps=[ir.le(bound(shared, i, 0), bound(shared, i, 1))], text='after at least one step the returned point is inside the bounds, in every dimension')
            if not call:
                lp = asarr(lp)
                xc = vec(D, lambda a: x.fn(c, a))
                ck.prove(tag + '/logp', ir.and_(ir.eq(lp.fn(c), logp('logp', xc, data)), ir.eq(dT(lp.sh[0]), dT(arr.D(C_)))), text='the reported log densities are the target at the returned points')
            # ---- the recurrence
            direct = V.op == 'app' and V.args[0] in ctx.C.scans
            Q = V
            if not direct:
                # the returned point is a function of the carried one: that function of the carried points is the iteration
                apps = {y for y in ir.subterms(V) if y.op == 'app' and y.args[0] in ctx.C.scans}
                if len(apps) != 1:
                    raise Unsupported('%d iterations in the returned point' % len(apps))
                Q, = apps
                # a repeated projection changes nothing: the carried point is the returned one
                if ck.entails(ir.eq(Vs, unfold_last(Q, n)), [ir.le(bound(shared, i, 0), bound(shared, i, 1))]):
                    V, direct = Q, True
            q = Q.args[0]
            sd = ctx.C.scans[q]
            t, ix, gens = sd.split(q, Q.args[1:])
            ck.prove(tag + '/steps', ir.and_(ir.eq(t, n), ir.eq(sd.n, n)), text='the configured number of steps')
            if len(gens) != 1:
                raise Unsupported('generic variables')
            ck.prove(tag + '/own-chain', ir.eq(gens[0], c), text='the point of chain c is the end of the iteration of chain c')
            sub = {sd.gens[0]: c}
            at_ = lambda sym, tt, *ii: ir.app(sym, seq_sort(sd, sym), tt, *ii, c)
            if direct:
                X = lambda tt, a: at_(q, tt, a)
            else:
                X = lambda tt, a: ir.subst(replace_app(V, q, lambda tm, *r: ir.app(q, 'R', tt, *r)), {i: a})
            ini = lambda sym, *ii: ir.subst(init_of(sd, sym, *ii), sub)
            stp = lambda sym, j, *ii: ir.subst(step_of(sd, sym, j, *ii), sub)
            ck.prove(tag + '/start', ir.eq(ini(q, i) if direct else replace_app(X(ZERO, i), q, lambda tm, a, *r: ini(q, a)), x0.fn(c, i)), text='chain c starts at its own position')
            j = ctx.C.gen('j', ZERO, n)
            st = norm().canon(stp(q, j, i))
            Xn = st if direct else norm().canon(replace_app(X(ir.add(j, ONE), i), q, lambda tm, a, *r: stp(q, j, a)))
            ups = [y for y in ir.subterms(st) if y.op == 'app' and isinstance(y.args[0], str) and y.args[0].startswith('opt.upd:')]
            if len(set(ups)) != 1:
                raise Unsupported('%d optimizer updates' % len(set(ups)))
            up = ups[0]
            ck.prove(tag + '/solver', ir.eq(ir.var(up.args[0], 'U'), ir.var('opt.upd:' + solver.key(), 'U')), text='the update is the configured optimizer\'s')
            ck.prove(tag + '/step', ir.eq(Xn, project(shared, i, ir.add(X(j, i), up))), hyps=[ir.le(bound(shared, i, 0), bound(shared, i, 1))],
                     text='each step adds the update and projects on the box')
            ui, G, S_, P = up.args[1:]
            ck.prove(tag + '/update-entry', ir.eq(ui, i))
            vs, dims, body = ir.open_binder(P)
            ck.prove(tag + '/params', ir.eq(body, X(j, *vs)), text='at the current point')
            vs, dims, gb = ir.open_binder(G)
            nm = [y for y in ir.subterms(gb) if y.op == 'app' and y.args[0] == 'normal']
            nm = sorted(set(nm), key=lambda y: y.id)
            if len(nm) != 1:
                raise Unsupported('%d noise draws' % len(nm))
            z = nm[0]
            ck.fact(tag + '/scalar-noise', len(z.args) == 2, 'noise of shape %s' % (z.args[2:],), text='the noise is one scalar')
            xj = vec(D, lambda a: X(j, a))
            ck.prove(tag + '/gradient', ir.eq(gb, ir.mul(ir.neg(grad('logp', xj, data, vs[0])), ir.add(ONE, ir.mul(lvl.term(), z)))),
                     text='the optimizer is fed minus the target gradient at the current point, times 1 + noise level * z (it descends on minus the target)')
            S_ = norm().canon(S_)
            if S_.op == 'app' and S_.args[0] in sd.leaves:
                ck.prove(tag + '/state-now', ir.eq(S_, at_(S_.args[0], j)), text='with the optimizer state of the step before')
                ck.prove(tag + '/state-start', ir.eq(ini(S_.args[0]), ir.app('opt.init:' + solver.key(), 'U', lam_of(vec(D, lambda a: x0.fn(c, a))))), text='a fresh state for every chain')
                ns = norm().canon(stp(S_.args[0], j))
                ck.prove(tag + '/state-next', ir.eq(ns, ir.app('opt.state:' + solver.key(), 'U', G, S_, P)), text='and the state it returns is carried on')
            else:
                raise Unsupported('optimizer state: ' + ir.show(S_)[:200])
            kz = norm().canon(z.args[1])
            root, path = key_path(kz)
            root = norm().canon(root)
            if not (root.op == 'app' and root.args[0] in sd.leaves):
                raise Unsupported('noise key is not carried: ' + ir.show(kz)[:200])
            kq = root.args[0]
            nk = norm().canon(stp(kq, j))
            r2_, path2 = key_path(nk)
            ck.prove(tag + '/noise-fresh', ir.and_(ir.eq(root, at_(kq, j)), ir.eq(r2_, at_(kq, j))), aux=True)
            ck.fact(tag + '/noise-key', len(path) == len(path2) == 1 and path[0][0] is path2[0][0] and path[0][1] is not path2[0][1] and ir.isconst(path[0][1]) and ir.isconst(path2[0][1]),
                    'noise key %s, carried key %s' % (ir.show(kz), ir.show(nk)), text='a fresh key every step', hard=False)
            k0 = norm().canon(ini(kq))
            r0, p0 = key_path(k0)
            ck.prove(tag + '/chain-key', ir.eq(r0, key.term()))
            ck.fact(tag + '/own-key', any(not isinstance(pp[1], ir.T) or c in pp[1].fv for pp in p0), 'chain key %s' % ir.show(k0), text='chain c uses its own key (the split of chain c)')
            c2 = fresh_idx(C_)[0]
            ck.prove(tag + '/key-distinct', ir.implies(ir.eq(p0[-1][1], ir.subst(p0[-1][1], {c: c2})), ir.eq(c, c2)), text='different chains, different keys')
    return g


def unfold_last(V, n):
    """the last step of the iteration, unfolded once (there is at least one step)"""
    if V.op == 'app' and V.args[0] in ctx.C.scans:
        sd = ctx.C.scans[V.args[0]]
        return sd.succ(V.args[0], V.args[1:], ir.sub(V.args[1], ONE))
    if any(isinstance(a, ir.T) for a in V.args) and V.op in ('fn', 'add', 'sub', 'mul', 'neg', 'ite'):
        return ir.rebuild(V, [unfold_last(a, n) if isinstance(a, ir.T) else a for a in V.args])
    return V


def shapes(ck, w, s):
    cls = w['strategy.optimization'].AdamOptimization
    D = s.dim('D', 2)
    f = s.fun('logp')
    x0 = s.arr('x0', (s.dim('C'), D))

    def rejected(b):
        def go():
            o = cls(f, n_steps=3, bounds=b)
            return o.optimize(s.key('key'), lambda p, d: -f(p, d), x0, {})
        out = []
        for p in ctx.explore(go):
            out.append((p.exc, list(p.conds)))
        return out
    m = s.dim('m', 1)
    bad = {'1-d': s.arr('b1', (D,)), '3-d': s.arr('b3', (D, 2, 1)), '0-d': s.arr('b0', ()), 'columns 3': s.arr('b4', (D, 3)), 'columns 1': s.arr('b5', (D, 1)),
           '(2,) vector': s.arr('b6', (2,)), 'shared columns 3': s.arr('b7', (1, 3))}
    for nm, b in bad.items():
        r = rejected(b)
        ck.fact('rejects ' + nm, all(isinstance(e, Exception) for e, _ in r), 'accepted', how='symbolic execution', text='bounds of the wrong shape are rejected')
    # m rows: accepted exactly when m is 1 or D
    b = s.arr('bm', (m, 2))
    n = 0
    for e, conds in rejected(b):
        n += 1
        ok = ir.not_(ir.and_(ir.not_(ir.eq(dT(arr.D(m)), ONE)), ir.not_(ir.eq(dT(arr.D(m)), dT(arr.D(D))))))
        if e is None:
            ck.prove('accepts/%d' % n, ok, hyps=conds, text='bounds are accepted only with one row or one row per dimension')
        else:
            ck.prove('rejects/%d' % n, ir.not_(ok), hyps=conds, text='bounds with one row or one row per dimension are accepted')


def run(ck):
    ck.unit('optimize[per dimension]', unit(False, False), FNS, 14)
    ck.unit('optimize[shared]', unit(True, False), FNS, 14)
    ck.unit('call[per dimension]', unit(False, True), FNS, 14)
    ck.unit('optimize[one dimension]', unit(True, False, True), FNS, 14)
    ck.unit('call[shared]', unit(True, True), FNS, 14)
    ck.unit('call[later call]', unit(False, True, warm=True), FNS, 14)
    ck.unit('shapes', shapes, FNS, 9)
    ck.assume('the optax optimizer is known by contract only: update and state are functions of (configuration, gradient, state, parameters), and it descends along the gradient it is fed',
              'box bounds are ordered: lower <= upper')
