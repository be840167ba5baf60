"""C09: parallel tempering leaves the joint tempered distribution invariant."""
from .ptc import *
from . import c05
import z3

LEMMAS = {'Sampling': ['accept_set', 'mh_detailed_balance', 'exchange_detailed_balance'],
          'Invariance': ['exchange_preserves', 'involution_invariant', 'energy_test_invariant']}


def exchange(ck, S, tag, x, c, i):
    E = Exchange(S, x, c, i)
    nT = dT(arr.D(S.nT))
    n_ = E.sd.n
    ck.prove(tag + '/steps', ir.and_(ir.eq(n_, ir.sub(nT, ONE)), ir.eq(E.tm, n_)), text='one exchange step per adjacent pair, all of them applied', aux=True)
    s = ctx.C.gen('s', ZERO, ir.sub(nT, ONE))
    k = ctx.C.gen('k', ZERO, nT)
    lps = E.lps()
    rules = E.rules(lps)
    # which pair does step s treat: upwards or downwards
    u = E.unif(s)
    for y in lps:
        ck.prove(tag + '/lp/start', ir.eq(ir.app(y, 'R', ZERO, k, *E.g), E.ll(ZERO, k)), text='the exchange compares log-likelihoods of the replicas')
        ck.prove(tag + '/lp/step', ir.eq(ir.app(y, 'R', ir.add(s, ONE), k, *E.g), E.ll(ir.add(s, ONE), k)), rules=rules, text='position and log-likelihood are exchanged together')
    done = False
    orders = [('up', s), ('down', ir.sub(ir.sub(nT, const(2)), s))]
    st = norm(rules=rules).canon(E.step(s, k, i))
    pick = orders[0][1]
    for nm, p in orders:
        q = prove.quick
        other = ir.and_(ir.not_(ir.eq(k, p)), ir.not_(ir.eq(k, ir.add(p, ONE))))
        from engine.prove import Prover
        if Prover([], rules, budget=6).prove(ir.implies(other, ir.eq(E.at(ir.add(s, ONE), k, i), E.at(s, k, i)))):
            pick = p
            break
    p, p1 = pick, ir.add(pick, ONE)
    A = E.accept(s, p)
    nxt = lambda kk: E.at(ir.add(s, ONE), kk, i)
    cur = lambda kk: E.at(s, kk, i)
    oth = ir.and_(ir.not_(ir.eq(k, p)), ir.not_(ir.eq(k, p1)))
    ck.prove(tag + '/others', ir.implies(oth, ir.eq(nxt(k), cur(k))), rules=rules, text='only the pair moves')
    ck.prove(tag + '/lower', ir.eq(nxt(p), ir.ite(A, cur(p1), cur(p))), rules=rules, text='the colder replica takes the hotter position exactly when log u < (1/T_cold - 1/T_hot)(l_hot - l_cold)')
    ck.prove(tag + '/upper', ir.eq(nxt(p1), ir.ite(A, cur(p), cur(p1))), rules=rules, text='and the hotter one the colder position')
    rd = reach1([norm().canon(u)])
    ck.fact(tag + '/independent', not any(a.op == 'app' and a.args[0] in ('Kpos', 'Klp', 'll') for a in rd), 'accept draw depends on the state', text='the uniform does not depend on the state')
    return E


def unit(training, warm=False):
    def f(ck, w, s):
        S = PTSetup(ck, w, s, training, warm)
        n = 0
        for pth in ck.paths_of(S.run):
            n += 1
            tag = 'p%d' % n
            key, res, x = pth.result
            c, i = fresh_idx(S.C, S.D)
            nT = dT(arr.D(S.nT))
            ck.prove(tag + '/shape', ir.and_(ir.eq(dT(x.sh[0]), dT(arr.D(S.C))), ir.eq(dT(x.sh[1]), dT(arr.D(S.D)))), text='one position per chain')
            if warm:
                no_trace(ck, tag + '/no-trace', [x.fn(c, i), S.tp.data.fn(c, ctx.C.gen('k', ZERO, ir.sub(nT, ONE)), i), S.T.data.fn(ctx.C.gen('k', ZERO, nT))])
            E = exchange(ck, S, tag, x, c, i)
            k = ctx.C.gen('k', ZERO, nT)
            km = ctx.C.gen('k', ZERO, ir.sub(nT, ONE))
            ck.prove(tag + '/cold', ir.eq(x.fn(c, i), E.at(E.sd.n, ZERO, i)), text='the cold replica is handed on')
            ck.prove(tag + '/others-kept', ir.eq(S.tp.data.fn(c, km, i), E.at(E.sd.n, ir.add(km, ONE), i)), text='the other replicas are kept for the next call')
            # local moves
            q, qs, tm, ix, g = scan_app(E.at(ZERO, k, i), 'the start of the exchange')
            ck.prove(tag + '/local/length', ir.and_(ir.eq(tm, S.N), ir.eq(qs.n, S.N)), text='every replica takes all its kernel steps before the exchange')
            qat = lambda t, a: ir.app(q, 'R', t, a, *g)
            qrow = lambda t: vec(S.D, lambda a: qat(t, a))
            start = lambda a: ir.ite(ir.eq(k, ZERO), S.x0.fn(c, a), ir.app('tp', 'R', c, ir.sub(k, ONE), a))
            ck.prove(tag + '/local/start', ir.eq(qat(ZERO, i), start(i)), text='replica 0 starts at the chain position, replica k at the kept replica k-1')
            j = ctx.C.gen('j', ZERO, S.N)
            V = norm().canon(qat(ir.add(j, ONE), i))
            if not (V.op == 'app' and V.args[0] == 'Kpos'):
                raise Unsupported('a replica step is not a kernel output: ' + ir.show(V)[:200])
            kk, xx, lp, tg = V.args[2:6]
            ck.prove(tag + '/local/step', ir.eq(V, ir.app('Kpos', 'R', i, kk, lam_of(qrow(j)), lp, S.tgt(k))), text='a step is the kernel at the own position on log-likelihood/T_k + log-prior')
            # log density handed to the kernel: the tempered target at the current position (invariant)
            lpc = norm().canon(lp)
            if lpc.op == 'app' and lpc.args[0] in ctx.C.scans:
                l = lpc.args[0]
                lat = lambda t: ir.app(l, 'R', t, *g)
                lst = norm().canon(lat(ir.add(j, ONE)))
                ck.prove(tag + '/local/lp-start', ir.eq(lat(ZERO), S.tempered(k, qrow(ZERO))), text='the log density handed to the first step is the tempered target at the start',
                         aux=lpc is not norm().canon(lat(j)))
                ck.prove(tag + '/local/lp-step', ir.eq(lst, ir.app('Klp', 'R', kk, lam_of(qrow(j)), lat(j), S.tgt(k))), text='and afterwards the one the kernel returned', aux=True)
                ck.prove(tag + '/local/lp-current', ir.eq(lp, lat(j)), text='of the current state', aux=True)
            else:
                ck.prove(tag + '/local/lp', ir.eq(lp, S.tempered(k, qrow(j))), text='the log density handed to the kernel is the tempered target at the position', aux=True)
            keys = {a.args[2] for a in reach([V]) if a.op == 'app' and a.args[0] == 'Kpos'}
            ck.fact(tag + '/state', S.state.data == {'training': training, 'P': 'p'} and S.other.data is S.od and set(res) == set(S.res) and all(res[a] is S.res[a] for a in res), 'other resources changed', text='nothing else changes')
    return f


def ieee(ck, w, s):
    """comparisons with NaN and infinities as IEEE has them: a point of NaN or minus-infinite likelihood is never handed to the colder replica"""
    S = PTSetup(ck, w, s, False)

    def go():
        with ir.fp_mode(True):
            key, res, x = S.run()
            c, i = fresh_idx(S.C, S.D)
            x.fn(c, i)
            c05.force()
            return x, c, i
    n = 0
    for pth in ck.paths_of(go):
        n += 1
        x, c, i = pth.result
        E = Exchange(S, x, c, i)
        lps = E.lps()
        if len(lps) != 1:
            raise Unsupported('%d carried log-likelihoods' % len(lps))
        y = lps[0]
        nT = dT(arr.D(S.nT))
        j = ctx.C.gen('s', ZERO, ir.sub(nT, ONE))
        nrm = norm()
        for nm, p in (('up', j), ('down', ir.sub(ir.sub(nT, const(2)), j))):
            p1 = ir.add(p, ONE)
            st = nrm.canon(E.step(j, p, i))
            cold, hot = nrm.canon(E.at(j, p, i)), nrm.canon(E.at(j, p1, i))
            if hot in ir.subterms(st):
                break
        else:
            raise Unsupported('the colder replica does not take the hotter position: ' + ir.show(st)[:300])
        lc, lh = (nrm.canon(ir.app(y, 'R', j, q_, *E.g)) for q_ in (p, p1))
        tc, th = nrm.canon(S.Tt(p)), nrm.canon(S.Tt(p1))

        inv = {t.args[2]: t for t in ir.subterms(st) if t.op == 'app' and t.args[0] == 'fp.div' and t.args[2] in (tc, th) and same(nrm.canon(t.args[1]), ONE)}

        def bad(F):
            h, a, b = F.real(lh), F.real(tc), F.real(th)
            extra = []
            if len(inv) == 2:        # rounded division is monotone in the divisor: 0 <= 1/b <= 1/a for 0 < a <= b
                ra, rb = (F.memo.setdefault(inv[t], z3.Const('inv%d' % q, F.S)) for q, t in enumerate((tc, th)))
                extra = [z3.fpGEQ(rb, F.const(0)), z3.fpGEQ(ra, rb)]
            return (z3.fpGT(a, F.const(0)), z3.fpLEQ(a, b), z3.Not(z3.fpIsInf(b)), z3.Or(z3.fpIsNaN(h), z3.And(z3.fpIsInf(h), z3.fpIsNegative(h))),
                    *extra, z3.Not(F.real(st) == F.real(cold)))

        def undefined(F):
            a, b = F.real(tc), F.real(th)
            return z3.fpGT(a, F.const(0)), z3.fpLEQ(a, b), z3.Not(z3.fpIsInf(b)), z3.fpIsNaN(F.real(lc)), z3.Not(F.real(st) == F.real(cold))
        for bits in ((32, 64) if ck.tier != 'quick' else (32,)):
            c05.decide(ck, nrm, bits, {'T', E.e, y}, None, 'p%d/unusable-hot' % n, bad, 'a hotter replica of NaN or minus infinite log-likelihood stays hotter')
            c05.decide(ck, nrm, bits, {'T', E.e, y}, None, 'p%d/undefined-cold' % n, undefined, 'nothing is below NaN: no swap when the colder log-likelihood is NaN')


def run(ck):
    for t in (True, False):
        ck.unit('ParallelTempering[%s]' % ('training' if t else 'production'), unit(t), FNS, 13)
    ck.unit('ParallelTempering[later call]', unit(True, True), FNS, 13)
    ck.unit('exchange[ieee]', ieee, FNS, 2)
    ck.assume('the local kernel is known by contract only (C01/C02/C04): outputs are functions of key, position, log density, target and data',
              'all temperatures are non-zero')
