"""C04: reported position, log density and acceptance flag always agree."""
from .steps import *
from . import c01, c02, c03
from engine import absmodel

KFN = {'GRW': c01.FNS_GRW, 'MALA': c01.FNS_MALA, 'HMC': c02.FNS, 'NF': c03.FNS}
NOISE = {'normal', 'mvn', 'flow.sample'}


def kernel_of(name, w, s, D):
    if name == 'GRW':
        return w['resource.kernel.Gaussian_random_walk'].GaussianRandomWalk(s.real('step', pos=True))
    if name == 'MALA':
        return w['resource.kernel.MALA'].MALA(s.real('step', pos=True))
    if name == 'HMC':
        L = s.int('L', lo=1)
        return w['resource.kernel.HMC'].HMC(s.spd('M', D), s.real('eps', pos=True), wrapdim(L))
    B = s.int('B', lo=1)
    return w['resource.kernel.NF_proposal'].NFProposal(absmodel.flow(s, D), wrapdim(B))


def local(name):
    def f(ck, w, s):
        D = s.dim('D')
        x = s.arr('x', (D,))
        key = s.key('key')
        data = rich_data(s, D)
        fn = s.fun('logp')
        kern = kernel_of(name, w, s, D)
        lp0 = fn(x, data)
        n = 0
        for p in ck.paths_of(lambda: kern.kernel(key, x, lp0, fn, data)):
            n += 1
            tag = 'p%d' % n
            pos, lp, acc = p.result
            step(ck, tag, D, x.fn, pos, asarr(lp), arr.castT(T_(acc), 'b'), data)
    return f


def step(ck, tag, D, given, pos, lp, acc, data, rules=()):
    i, = fresh_idx(D)
    ck.prove(tag + '/shape', ir.eq(dT(pos.sh[0]), dT(arr.D(D))) if pos.ndim == 1 and lp.ndim == 0 else FALSE, text='shapes')
    nrm = norm(rules=rules)
    pi = nrm.canon(pos.fn(i))
    a = nrm.bool(acc)
    pt, pf = ir.replace(pi, {a: TRUE}), ir.replace(pi, {a: FALSE})
    ck.prove(tag + '/rejected', ir.implies(ir.not_(acc), ir.eq(pi, given(i))), rules=rules, text='flag false: the position is the given one')
    pu = replace_app(nrm.canon(pt), 'uniform', lambda *z: ir.app('uniform', 'R', ir.app('foldin', 'K', z[0], const(77)), *z[1:]))
    ck.prove(tag + '/no-accept-draw', ir.implies(acc, ir.eq(pt, pu)), rules=rules, text='flag true: the position does not depend on the accept draw')
    kinds = {k.args[0] for k in reach([nrm.canon(pt)]) if k.op == 'app'}
    ck.fact(tag + '/accepted', bool(kinds & NOISE), 'flag true: the position is %s' % ir.show(pt)[:300], hard=False,
            text='flag true: the position is the proposal (a function of the proposal noise)')
    ck.prove(tag + '/flag', ir.implies(acc, ir.eq(pi, pt)), rules=rules, text='flag true: the position is the proposal')
    ck.prove(tag + '/logp', ir.eq(lp.term(), logp('logp', pos, data)), rules=rules, text='the log density returned is the target at the returned position')


def nf(ck, w, s):
    D, x, key, n, B, f, m, kern, data = c03.setup(ck, w, s)
    lp0 = f(x, data)
    k_ = 0
    for p in ck.paths_of(lambda: kern.kernel(key, x, lp0, f, data)):
        k_ += 1
        tag = 'p%d' % k_
        P, LP, A = p.result
        i, = fresh_idx(D)
        k = ctx.C.gen('k', ZERO, n)
        # carried log densities belong to the carried position
        sds = [sd for sd in scans() if sd.leaves and any(len(sd.leaves[y][0]) == 1 and same(init_of(sd, y, i), x.fn(i)) for y in sd.leaves)]
        if len(sds) != 1:
            raise Unsupported('the accept/reject recurrence was not identified')
        sd = sds[0]
        q = [y for y in leaves_of(sd, 1) if same(init_of(sd, y, i), x.fn(i))][0]
        posat = lambda t: vec(D, lambda a: at(sd, q, t, a))
        lps = [y for y in leaves_of(sd, 0) if seq_sort(sd, y) == 'R' and same(init_of(sd, y), T_(lp0))]
        inv = [inv_rule(y, lambda t, *g: logp('logp', posat(t), data)) for y in lps]
        j = ctx.C.gen('j', ZERO, sd.n)
        for y in lps:
            ck.prove(tag + '/inv/start', ir.eq(at(sd, y, ZERO), logp('logp', posat(ZERO), data)), text='carried log density = target at the carried position')
            ck.prove(tag + '/inv/step', ir.eq(at(sd, y, ir.add(j, ONE)), logp('logp', posat(ir.add(j, ONE)), data)), rules=inv, text='... preserved')
        row = Arr((arr.D(D),), lambda a: P.fn(k, a), 'f')
        prev = lambda a: ir.ite(ir.eq(k, ZERO), x.fn(a), P.fn(ir.sub(k, ONE), a))
        step(ck, tag, D, lambda a: at(sd, q, k, a), row, Arr((), lambda: LP.fn(k)), arr.castT(A.fn(k), 'b'), data, inv)
        ck.prove(tag + '/given', ir.and_(ir.eq(at(sd, q, ZERO, i), x.fn(i)), ir.eq(at(sd, q, ir.add(k, ONE), i), P.fn(k, i))), rules=inv,
                 text='the given position of state 0 is the start, of state k+1 the state k')


def along(group, batch):
    """kernels known by contract; the recorded log densities are those of the recorded positions"""
    def f(ck, w, s):
        S = Setup(ck, w, s, group, batch)
        n = 0
        for p in ck.paths_of(S.run):
            n += 1
            tag = 'p%d' % n
            c, i = fresh_idx(S.C, S.D)
            m = ctx.C.gen('m', ZERO, S.W)
            slot = ir.add(S.c0, m)
            rec = vec(S.D, lambda a: S.bp.data.fn(c, slot, a))
            lrec = S.bl.data.fn(c, slot)
            pt = S.tgt()
            K = 'Gpos' if group else 'Kpos'

            def kc(a, nm):
                """contract of the kernel: lp in = f(x in) => lp out = f(x out)"""
                if a.op == 'app' and a.args[0] == ('Glp' if group else 'Klp'):
                    rest = a.args[2:] if group else a.args[1:]
                    st = (a.args[1],) if group else ()
                    x, lp, tg = rest[1], rest[2], rest[3]
                    if x.op != 'lam' or nm.canon(tg) is not nm.canon(pt):
                        return None
                    xin = Arr((arr.D(S.D),), lambda z: ir.apply_binder(x, (z,)), 'f')
                    if nm.canon(lp) is not nm.canon(logp('logp', xin, S.data)):
                        return None
                    tailargs = rest
                    out = Arr((arr.D(S.D),), lambda z: ir.app(K, 'R', *st, z, *rest), 'f')
                    return logp('logp', out, S.data)
                return None
            rules = [kc]
            if not group:
                it = Iter(norm().canon(S.bp.data.fn(c, slot, i)))
                inv = lambda t: logp('logp', Arr((arr.D(S.D),), lambda z: it.qat(t, z), 'f'), S.data)

                def ir_(a, nm):
                    if a.op == 'app' and a.args[0] == it.l:
                        t, _, g = it.sd.split(it.l, a.args[1:])
                        if all(nm.canon(x) is nm.canon(y) for x, y in zip(g, it.g)):
                            return inv(t)
                    return None
                j = ctx.C.gen('j', ZERO, S.N)
                ck.prove(tag + '/inv/start', ir.eq(it.lat(ZERO), inv(ZERO)), text='the run starts with the target value of the start')
                ck.prove(tag + '/inv/step', ir.eq(it.lat(ir.add(j, ONE)), inv(ir.add(j, ONE))), rules=[ir_, kc], text='every carried log density is the target at the carried position')
                rules = [ir_, kc]
            ck.prove(tag + '/recorded', ir.eq(lrec, logp('logp', rec, S.data)), rules=rules, text='the recorded log density is the target at the recorded position')
    return f


def run(ck):
    for k in ('GRW', 'MALA', 'HMC'):
        ck.unit(k, local(k), KFN[k], 4)
    ck.unit('NFProposal', nf, KFN['NF'], 12)
    from .c06 import FNS, SER, GRP
    for group in (False, True):
        for batch in (False, True):
            ck.unit('Take%sSteps[%s]' % ('Group' if group else 'Serial', 'batched' if batch else 'all at once'), along(group, batch), FNS + (GRP if group else SER), 1)
    ck.assume('along a run the kernel is used through its contract: log density in = target at position in => the same for the outputs (proved for the four kernels)')
