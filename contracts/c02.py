"""C02: the Hamiltonian step."""
from .common import *

LEMMAS = {'Sampling': ['accept_set', 'momentum_covariance', 'shear_upper', 'shear_lower', 'trajectory_volume', 'hmc_detailed_balance'],
          'Invariance': ['drift_preserves', 'kick_preserves', 'flip_preserves', 'trajectory_preserves', 'involution_invariant', 'energy_test_invariant']}

FNS = ['flowMC.resource.kernel.HMC:HMC.kernel', 'flowMC.resource.kernel.HMC:HMC.leapfrog_step',
       'flowMC.resource.kernel.HMC:HMC.leapfrog_kernel', 'flowMC.resource.kernel.HMC:HMC.__init__']


def linalg_rule(a, n):
    """facts about inv / cholesky of symmetric positive definite matrices"""
    if a.op == 'app' and a.args[0] in ('inv', 'chol'):
        i, j, m = a.args[1:4]
        if m.op == 'lam':
            x = factor_of(n, m, True) if a.args[0] == 'inv' else None
            if x is not None:
                # the inverse of a transposed factor is the transposed inverse
                v1, v2 = ir.fresh('a'), ir.fresh('b')
                dims = ir.open_binder(m)[1]
                return ir.app('inv', 'R', j, i, ir.lam([v1, v2], dims, ir.app('chol', 'R', v1, v2, x)))
            # a multiple of the identity
            vs, dims, body = ir.open_binder(m)
            p = n.num(body)
            delta = n.num(ir.b2n(ir.eq(vs[0], vs[1])))
            if len(delta) == 1:
                (dm, _), = delta.items()
                da = dm[0][0]
                rest = {}
                for mm, c in p.items():
                    d = dict(mm)
                    if da not in d:
                        return None
                    del d[da]
                    k = tuple(sorted(d.items(), key=lambda z: ir.okey(z[0])))
                    rest[k] = c
                r = n.to_term(rest, 'R')
                if not any(v in r.fv for v in vs):
                    e = ir.div(ONE, r) if a.args[0] == 'inv' else ir.fn('sqrt', r)
                    return ir.mul(e, ir.b2n(ir.eq(i, j)))
        return None
    if a.op == 'sum':
        (v,), (nn,), body = ir.open_binder(a)
        p = n.num(body)
        if len(p) != 1:
            return None
        (m, c), = p.items()
        for x in range(len(m)):
            for y in range(len(m)):
                f1, f2 = m[x], m[y]
                if x == y:
                    # chol(i,v)^2
                    f, e = f1
                    if e == 2 and f.op == 'app' and f.args[0] == 'inv' and f.args[1] is v and v not in f.args[2].fv and v not in f.args[3].fv:
                        X = factor_of(n, f.args[3])
                        if X is not None:
                            return _rest(n, m, (x,), c, v, ir.app('inv', 'R', f.args[2], f.args[2], X), nn)
                    if e == 2 and f.op == 'app' and f.args[0] == 'chol' and f.args[2] is v and v not in f.args[1].fv and v not in f.args[3].fv:
                        return _rest(n, m, (x,), c, v, ir.apply_binder(f.args[3], (f.args[1], f.args[1])), nn)
                    continue
                (f, e), (g, e2) = f1, f2
                if e != 1 or e2 != 1 or f.op != 'app' or g.op != 'app':
                    continue
                if f.args[0] == 'chol' and g.args[0] == 'chol' and f.args[3] is g.args[3] and f.args[2] is v and g.args[2] is v \
                        and x < y and v not in f.args[1].fv and v not in g.args[1].fv and v not in f.args[3].fv:
                    return _rest(n, m, (x, y), c, v, ir.apply_binder(f.args[3], (f.args[1], g.args[1])), nn)
                if f.args[0] == 'inv' and g.args[0] == 'inv' and f.args[3] is g.args[3] and f.args[1] is v and g.args[1] is v and x < y \
                        and v not in f.args[2].fv and v not in g.args[2].fv and v not in f.args[3].fv:
                    # inv(L)^T inv(L) = inv(L L^T)
                    X = factor_of(n, f.args[3])
                    if X is not None:
                        return _rest(n, m, (x, y), c, v, ir.app('inv', 'R', f.args[2], g.args[2], X), nn)
                if g.args[0] == 'inv' and v not in g.args[3].fv and g.args[3].op == 'lam':
                    # sum_v M[i,v] inv(M)[v,j] = [i==j]  (either position of v when M is symmetric)
                    if g.args[1] is v or g.args[2] is v:
                        oj = g.args[2] if g.args[1] is v else g.args[1]
                        sym = symmetric(n, g.args[3])
                        for pos in range(1, len(f.args)):
                            if f.args[pos] is v:
                                oi = [z for k, z in enumerate(f.args[1:], 1) if k != pos]
                                if len(oi) != 1:
                                    continue
                                left = n.canon(ir.apply_binder(g.args[3], (oi[0], v))) is n.canon(f)
                                right = n.canon(ir.apply_binder(g.args[3], (v, oi[0]))) is n.canon(f)
                                if sym and (left or right) or left and g.args[1] is v or right and g.args[2] is v:
                                    return _rest(n, m, (x, y), c, v, ir.b2n(ir.eq(oi[0], oj)), nn)
    return None


def symmetric(n, m):
    """the matrix is symmetric (an input declared symmetric, or symmetric by its entries)"""
    vs, dims, body = ir.open_binder(m)
    return n.canon(body) is n.canon(ir.subst(body, {vs[0]: vs[1], vs[1]: vs[0]}))


def factor_of(n, m, transposed=False):
    """X when m is the matrix chol(X) (transposed: its transpose)"""
    if m.op != 'lam':
        return None
    vs, dims, body = ir.open_binder(m)
    b = n.canon(body)
    if b.op == 'app' and b.args[0] == 'chol' and list(b.args[1:3]) == list(vs[::-1] if transposed else vs) and not any(v in b.args[3].fv for v in vs):
        return b.args[3]
    return None


def _rest(n, m, drop, c, v, t, nn):
    for k, (a, e) in enumerate(m):
        if k in drop:
            continue
        if v in a.fv:
            return None
        t = ir.mul(t, ir.ipow(a, e) if e != 1 else a)
    return ir.mul(const(c, 'R'), t)


def hmc(ck, w, s, metric):
    D = s.dim('D')
    x = s.arr('x', (D,))
    key = s.key('key')
    data = rich_data(s, D)
    eps = s.real('eps', pos=True)
    L = s.int('L', lo=3)
    nl = arr.wrapdim(ir.sub(L, const(2)))
    f = s.fun('logp')
    H = w['resource.kernel.HMC'].HMC
    dts = dT(arr.D(D))
    if metric == 'matrix':
        M = s.spd('M', D)
        kern = H(M, eps, nl)
        m = lambda i, j: M.fn(i, j)
    elif metric == 'scalar':
        c = s.real('c', pos=True)
        kern = H(c, eps, nl)
        m = lambda i, j: ir.mul(T_(c), ir.b2n(ir.eq(i, j)))
    else:
        kern = H(step_size=eps, n_leapfrog=nl)
        m = lambda i, j: ir.b2n(ir.eq(i, j))
    lp = f(x, data)
    rules = [linalg_rule]
    before = []

    def go():
        if metric == 'scalar':
            # the kernel object has been used before, on another point, target and data
            g, y, d = s.fun('w.logp'), s.arr('w.x', (D,)), s.obj('w.data')
            kern.kernel(s.key('w.key'), y, g(y, d), g, d)
        before[:] = scans()
        return kern.kernel(key, x, lp, f, data)
    for p in ck.paths_of(go):
        pos, lpn, acc = p.result
        i, k2 = fresh_idx(D, D)
        pi = pos.fn(i)
        ut = one_draw([pi], 'uniform') if any(k[0] == 'uniform' for k in draws(pi)) else one_draw([T_(acc)], 'uniform')
        # the trajectory: the recurrence the proposal comes from
        sds = [sd for sd in scans() if sd.leaves and sd not in before]
        if len(sds) != 1:
            raise Unsupported('expected one leapfrog recurrence, found %d' % len(sds))
        sd = sds[0]
        vecs = leaves_of(sd, 1)
        qs = [y for y in vecs if same(init_of(sd, y, i), x.fn(i))]
        ps = [y for y in vecs if y not in qs]
        if len(qs) != 1 or len(ps) != 1:
            raise Unsupported('position / momentum leaves of the leapfrog recurrence not identified')
        q, pm = qs[0], ps[0]
        N = sd.n
        q0 = lambda k: init_of(sd, q, k)
        p0 = lambda k: init_of(sd, pm, k)
        qL = vec(D, lambda k: at(sd, q, N, k))
        pL = vec(D, lambda k: at(sd, pm, N, k))
        # 1. momentum law
        nt = one_draw([p0(i)], 'normal')
        A = lambda a, b: replace_app(p0(a), 'normal', lambda kk, n_, z: ir.b2n(ir.eq(z, b)))
        zero = replace_app(p0(i), 'normal', lambda kk, n_, z: const(0, 'R'))
        ck.prove('momentum-mean', ir.eq(zero, const(0, 'R')), rules=rules, text='the momentum is linear in the noise, mean zero')
        lin = S(D, lambda b: ir.mul(A(i, b), ir.app('normal', 'R', nt, dts, b)))
        ck.prove('momentum-linear', ir.eq(p0(i), lin), rules=rules, text='momentum = A z with z standard normal')
        MA = S(D, lambda a: ir.mul(m(i, a), S(D, lambda b: ir.mul(A(a, b), A(k2, b)))))
        ck.prove('momentum-law', ir.eq(MA, ir.b2n(ir.eq(i, k2))), rules=rules,
                 text='M (A A^T) = I: the momentum covariance is the inverse of the matrix M of the kinetic energy p.M.p/2')
        ck.prove('fresh-uniform', const(ut is not nt), text='the accept uniform is independent of the momentum noise')
        # 2. energy test
        K = lambda pp: ir.mul(half(), S(D, lambda a: ir.mul(pp(a), S(D, lambda b: ir.mul(m(a, b), pp(b))))))
        Hq = lambda qv, pp: ir.sub(K(pp), logp('logp', qv, data))
        accept = ir.lt(log(ir.app('uniform', 'R', ut)), ir.sub(Hq(x, p0), Hq(qL, lambda k: pL.fn(k))))
        ck.prove('energy-test', ir.eq(arr.castT(T_(acc), 'b'), accept), rules=rules, text='accept iff log u < H(q0,p0) - H(qL,pL)')
        ck.prove('move', ir.eq(pi, ir.ite(arr.castT(T_(acc), 'b'), qL.fn(i), x.fn(i))), rules=rules, text='position\' = end of the trajectory if accepted, else the start')
        # 3. trajectory: shears
        j = ctx.C.gen('t', ZERO, N)
        Mp = lambda k: S(D, lambda b: ir.mul(m(k, b), at(sd, pm, j, b)))
        qn = lambda k: step_of(sd, q, j, k)
        pn = lambda k: step_of(sd, pm, j, k)
        dq = ir.sub(qn(i), at(sd, q, j, i))
        ck.prove('drift', ir.const(not mentions(canon(dq, rules=rules), q)), text='the position update does not depend on the position (shear)')
        # p' as a function of (q', p)
        Y = ir.fresh('Y')
        dqf = lambda k: ir.sub(qn(k), at(sd, q, j, k))
        psub = replace_app(pn(i), q, lambda t, k, *g: ir.sub(ir.app('Y', 'R', k), ir.subst(dqf(k), {})))
        dp = canon(ir.sub(psub, at(sd, pm, j, i)), rules=rules)
        ck.prove('kick', ir.const(not mentions(dp, pm)), text='the momentum update is a function of the new position only (shear): the step preserves volume')
        # and they follow Hamilton's equations of this target (the data supplied, the metric of the kinetic energy)
        moves = ir.ite(ir.eq(j, ZERO), const(0, 'R'), ir.mul(T_(eps), Mp(i)))
        ck.prove('drift-velocity', ir.eq(dq, moves), rules=rules, text='every position update after the first is step size * M p (the first is empty)')
        ends = ir.or_(ir.eq(j, ZERO), ir.eq(j, ir.sub(N, ONE)))
        force = ir.mul(T_(eps), grad('logp', vec(D, lambda k: ir.app('Y', 'R', k)), data, i))
        ck.prove('kick-force', ir.eq(dp, ir.mul(ir.ite(ends, half(), const(1, 'R')), force)), rules=rules,
                 text='every momentum update is step size * gradient of the log density at the new position and the data supplied, halved at the two ends')
        # 4. reversibility by induction on the reversed trajectory
        rq, rp = q + '~', pm + '~'
        ren = lambda t: replace_app(replace_app(t, q, lambda tt, k, *g: ir.app(rq, 'R', tt, k, *g)), pm, lambda tt, k, *g: ir.app(rp, 'R', tt, k, *g))
        rsd = ctx.ScanDef(sd.name + '~', sd.n, sd.gens, sd.j)
        rsd.add(rq, 1, lambda k: at(sd, q, N, k), lambda k: ren(step_of(sd, q, sd.j, k)))
        rsd.add(rp, 1, lambda k: ir.neg(at(sd, pm, N, k)), lambda k: ren(step_of(sd, pm, sd.j, k)))
        ctx.C.scans[rq] = rsd
        ctx.C.scans[rp] = rsd
        e = ctx.C.gen('e', ONE, N)
        # base: after one reversed step (fwd unfolding of the last step)
        sub1 = lambda t: t
        fwd = [linalg_rule, last_rule(sd, N)]
        ck.prove('reverse-base-q', ir.eq(at(rsd, rq, ONE, i), at(sd, q, N, i)), rules=fwd, text='reversed trajectory: Q1 = q_L')
        ck.prove('reverse-base-p', ir.eq(at(rsd, rp, ONE, i), ir.neg(at(sd, pm, ir.sub(N, ONE), i))), rules=fwd, text='P1 = -p_(L-1)')
        ih = [inv_exact(rq, e, lambda k, *g: at(sd, q, ir.sub(ir.add(N, ONE), e), k)),
              inv_exact(rp, e, lambda k, *g: ir.neg(at(sd, pm, ir.sub(N, e), k)))]
        ck.prove('reverse-step-q', ir.eq(at(rsd, rq, ir.add(e, ONE), i), at(sd, q, ir.sub(N, e), i)), rules=ih + [linalg_rule],
                 text='if Q_i = q_(L+1-i), P_i = -p_(L-i) then Q_(i+1) = q_(L-i)')
        ck.prove('reverse-step-p', ir.eq(at(rsd, rp, ir.add(e, ONE), i), ir.neg(at(sd, pm, ir.sub(ir.sub(N, e), ONE), i))),
                 rules=ih + [back_rule(sd, e, N), linalg_rule], text='and P_(i+1) = -p_(L-i-1)')
        ck.prove('reverse-end', ir.eq(at(sd, q, ONE, i), at(sd, q, ZERO, i)), rules=rules,
                 text='Q_L = q_1 = q_0 and P_L = -p_0: integrating back from (q_L, -p_L) returns to the start')


def last_rule(sd, N):
    """forward trajectory: value at N in terms of N-1"""
    def rule(a, n):
        if a.op == 'app' and a.args[0] in sd.leaves and a.args[1] is n.canon(N):
            return sd.succ(a.args[0], a.args[1:], ir.sub(N, ONE))
        return None
    return rule


def back_rule(sd, e, N):
    """forward trajectory: value at N-e in terms of N-e-1"""
    def rule(a, n):
        if a.op == 'app' and a.args[0] in sd.leaves and a.args[1] is n.canon(ir.sub(N, e)):
            return sd.succ(a.args[0], a.args[1:], ir.sub(ir.sub(N, e), ONE))
        return None
    return rule


def inv_exact(sym, e, f):
    def rule(a, n):
        if a.op == 'app' and a.args[0] == sym and a.args[1] is e:
            return f(*a.args[2:])
        return None
    return rule


def run(ck):
    for mt in ('matrix', 'scalar', 'default'):
        ck.unit('HMC.kernel[%s metric]' % mt, lambda c, w, s: hmc(c, w, s, mt), FNS, 13)
    ck.assume('jnp.linalg.inv and cholesky are exact on symmetric positive definite matrices: X inv(X) = I, chol(X) chol(X)^T = X, '
              'and of c*I are I/c and sqrt(c)*I',
              'jax.random draws with distinct keys are independent standard normal / uniform(0,1)')
