"""C03: the global flow step is an exact independence Metropolis-Hastings sampler."""
from .common import *

LEMMAS = {'Sampling': ['accept_set', 'mh_detailed_balance'], 'Invariance': ['mh_invariant', 'mh_target_invariant']}
from engine import absmodel
from engine.norm import padd

FNS = ['flowMC.resource.kernel.NF_proposal:NFProposal.kernel', 'flowMC.resource.kernel.NF_proposal:NFProposal.sample_flow',
       'flowMC.resource.kernel.NF_proposal:NFProposal.__init__']


def parts(t, c):
    """t with condition c true / false"""
    n = norm()
    tt = n.canon(t)
    cc = n.bool(c)
    return ir.replace(tt, {cc: TRUE}), ir.replace(tt, {cc: FALSE})


def setup(ck, w, s, warm=False):
    D = s.dim('D')
    x = s.arr('x', (D,))
    key = s.key('key')
    n = s.int('n', lo=1)
    B = s.int('B', lo=1)
    f = s.fun('logp')
    m = absmodel.flow(s, D)
    kern = w['resource.kernel.NF_proposal'].NFProposal(m, arr.wrapdim(B))
    data = rich_data(s, D, arr.wrapdim(n), arr.wrapdim(B), n_steps=arr.wrapdim(n))
    return D, x, key, n, B, f, m, kern, data


def nf(ck, w, s, warm=False):
    D, x, key, n, B, f, m, kern, data = setup(ck, w, s, warm)
    lp0 = f(x, data)
    dts = dT(arr.D(D))
    u = T_(m.u)
    np_ = 0
    def go():
        if warm:
            # an earlier call on another point, target and data
            g, y, d = s.fun('w.logp'), s.arr('w.x', (D,)), rich_data(s, D, pre='w.', n_steps=data['n_steps'])
            kern.kernel(s.key('w.key'), y, g(y, d), g, d)
        return kern.kernel(key, x, lp0, f, data)
    for p in ck.paths_of(go):
        np_ += 1
        tag = 'p%d' % np_
        P, LP, A = p.result
        if warm:
            t_, i_ = fresh_idx(n, D)
            no_trace(ck, tag + '/no-trace', [P.fn(t_, i_), LP.fn(t_), A.fn(t_)])
        ck.prove(tag + '/count', ir.and_(ir.eq(dT(P.sh[0]), n), ir.eq(dT(LP.sh[0]), n), ir.eq(dT(A.sh[0]), n), ir.eq(dT(P.sh[1]), dts)),
                 text='n_steps states are returned')
        k = ctx.C.gen('k', ZERO, n)
        i, = fresh_idx(D)
        acc = arr.castT(A.fn(k), 'b')
        nrm = norm()
        # the Markov recurrence: carried position / log density / flow density (identified by their initial values)
        sds = [sd for sd in scans() if sd.leaves and any(len(sd.leaves[y][0]) == 1 and same(init_of(sd, y, i), x.fn(i)) for y in sd.leaves)]
        if len(sds) != 1:
            raise Unsupported('the accept/reject recurrence was not identified')
        sd = sds[0]
        q = [y for y in leaves_of(sd, 1) if same(init_of(sd, y, i), x.fn(i))][0]
        flow0 = ir.app('flowlp', 'R', lam_of(x), u)
        lps = [y for y in leaves_of(sd, 0) if seq_sort(sd, y) == 'R' and same(init_of(sd, y), T_(lp0))]
        nfs = [y for y in leaves_of(sd, 0) if seq_sort(sd, y) == 'R' and same(init_of(sd, y), flow0)]
        posat = lambda t: vec(D, lambda a: at(sd, q, t, a))
        flp = lambda y: ir.app('flowlp', 'R', lam_of(y), u)
        # invariants: carried densities belong to the carried position
        inv = [inv_rule(y, lambda t, *g: logp('logp', posat(t), data)) for y in lps] + [inv_rule(y, lambda t, *g: flp(posat(t))) for y in nfs]
        j = ctx.C.gen('j', ZERO, sd.n)
        for y, spec in [(y, lambda t: logp('logp', posat(t), data)) for y in lps] + [(y, lambda t: flp(posat(t))) for y in nfs]:
            ck.prove(tag + '/inv-' + ('target' if y in lps else 'flow') + '/init', ir.eq(at(sd, y, ZERO), spec(ZERO)), text='carried density = density of the carried position (start)')
            ck.prove(tag + '/inv-' + ('target' if y in lps else 'flow') + '/step', ir.eq(at(sd, y, ir.add(j, ONE)), spec(ir.add(j, ONE))), rules=inv,
                     text='... preserved by every step')
        ck.fact(tag + '/carried', len(lps) == 1 and len(nfs) == 1, 'leaves %r %r' % (lps, nfs), hard=False)
        # the state after step k
        ck.prove(tag + '/state', ir.eq(P.fn(k, i), at(sd, q, ir.add(k, ONE), i)), rules=inv, text='output k is the state after test k')
        # the proposal tested at k
        step = step_of(sd, q, k, i)
        pt, pf = parts(step, acc)
        ck.prove(tag + '/reject-keeps', ir.eq(pf, at(sd, q, k, i)), rules=inv, text='a rejected test leaves the previous state')
        fl = [d for d in draws(pt) if d[0] == 'flow.sample']
        if len(fl) != 1:
            raise Unsupported('proposal is not one draw of the flow (%d)' % len(fl))
        atom = None
        for z in ir.subterms(pt):
            if z.op == 'app' and z.args[0] == 'flow.sample':
                atom = z if atom is None or z is atom else atom
        kk, size, row, ii, uu = atom.args[1:6]
        ck.prove(tag + '/proposal', ir.eq(pt, ir.app('flow.sample', 'R', kk, size, row, i, u)), rules=inv,
                 text='an accepted test moves to a draw of the given flow')
        ck.prove(tag + '/row', ir.and_(ir.le(ZERO, row), ir.lt(row, size)), text='the row exists in the drawn batch')
        k2 = ctx.C.gen('k2', ZERO, n)
        kk2, row2 = ir.subst(kk, {k: k2}), ir.subst(row, {k: k2})
        bidx = lambda t: key_time(t)
        if kk is kk2:
            ck.prove(tag + '/once', ir.implies(ir.eq(row, row2), ir.eq(k, k2)), text='each draw is tested once')
        else:
            ck.prove(tag + '/once', ir.implies(ir.and_(ir.eq(row, row2), ir.eq(bidx(kk), bidx(kk2))), ir.eq(k, k2)),
                     text='each (batch, row) of the draws is tested once')
        prop = vec(D, lambda a: ir.app('flow.sample', 'R', kk, size, row, a, u))
        uts = [d for d in draws(acc) if d[0] == 'uniform']
        if len(uts) != 1:
            raise Unsupported('accept test uses %d uniform keys' % len(uts))
        ut = uts[0][1]
        ratio = ir.sub(ir.sub(logp('logp', prop, data), logp('logp', posat(k), data)), ir.sub(flp(prop), flp(posat(k))))
        ck.prove(tag + '/test', ir.eq(acc, ir.lt(log(ir.app('uniform', 'R', ut)), ratio)), rules=inv,
                 text='accept k iff log u < [f(prop k) - f(current)] - [q(prop k) - q(current)]')
        ck.prove(tag + '/logp', ir.eq(LP.fn(k), logp('logp', vec(D, lambda a: P.fn(k, a)), data)), rules=inv,
                 text='the reported log density is the target at the reported state')
    ck.fact('paths', np_ >= 2, 'expected the batched and the unbatched path, got %d' % np_, hard=False)


def key_time(k):
    """the batch index inside a key term: the time argument of the key sequence it is split from"""
    root, path = key_path(k)
    if root.op == 'app' and root.args[0] in ctx.C.scans:
        return root.args[1]
    for n_, i_ in path:
        if isinstance(i_, ir.T) and not ir.isconst(i_):
            return i_
    raise Unsupported('batch key not recognised')


def run(ck):
    ck.unit('NFProposal.kernel', nf, FNS, 20)
    ck.unit('NFProposal.kernel[later call]', lambda c, w, s: nf(c, w, s, True), FNS, 20)
    ck.assume('a flow model is known to its callers by contract only: sample(key, n) are n independent draws of the density log_prob (C13, C14)',
              'distinct keys give independent draws (C19)')
