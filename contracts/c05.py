"""C05: a chain never moves to a point of NaN or minus-infinite density.

The kernels are executed with IEEE arithmetic left uninterpreted symbol by symbol (ir.fp_mode): no
rearrangement, no folding.  z3's floating-point theory then shows that no values whatsoever (NaN,
infinities, overflow) of the target, the gradients, the flow density, the draws, the carried log density
and the parameters make the acceptance test true when the target at the proposal is NaN or -inf."""
from .common import *
from . import c01, c02, c03, c04
from engine import fp, absmodel, numeval
from engine.check import Ob
import time
import z3

KFN = {'GRW': c01.FNS_GRW, 'MALA': c01.FNS_MALA, 'HMC': c02.FNS}


def evaluate(f):
    with ir.fp_mode(True):
        return f()


def step(ck, tag, D, prev, pos_t, acc_t, i, pos_fn, acc_raw, data, given=()):
    """pos_t, acc_t: returned position entry and flag as IEEE terms; prev: the previous position entry"""
    nrm = norm()
    pi, A = nrm.canon(pos_t), nrm.bool(acc_t)
    prev = nrm.canon(prev)
    # the proposal: the position returned when the test succeeds
    prop = vec(D, lambda a: ir.replace(nrm.canon(pos_fn(a)), {A: TRUE}))
    v = logp('logp', prop, data)
    v = nrm.canon(v)
    used = v in [nrm.canon(x) for x in ir.subterms(A) if x.op == 'app' and x.args[0] == 'logp']
    for bits in (32, 64):
        def never(E):
            lp = E.real(v)
            return E.bool(A), z3.Or(z3.fpIsNaN(lp), z3.And(z3.fpIsInf(lp), z3.fpIsNegative(lp)))

        def unchanged(E):
            return z3.Not(E.bool(A)), z3.Not(E.real(pi) == E.real(prev))

        def proposal(E):
            return E.bool(A), z3.Not(E.real(pi) == E.real(nrm.canon(prop.fn(i))))
        decide(ck, nrm, bits, given, v, tag + '/never-accepted', never, 'no accepted step has a proposal of NaN or -inf log density',
               '' if used else 'the acceptance test does not look at the target at the proposal: ' + ir.show(A)[:300])
        decide(ck, nrm, bits, given, A, tag + '/unchanged', unchanged, 'flag false: the previous position, bit for bit')
        decide(ck, nrm, bits, given, A, tag + '/proposal', proposal, 'flag true: the proposal at which the target was evaluated')
    return A, prop


def decide(ck, nrm, bits, given, keep, id, conds, text, why=''):
    """first with everything that does not mention the decisive term abstracted to arbitrary values, then in full"""
    ob = Ob('%s.%s/%s/float%d' % (ck.prop, ck.cur, id, bits), text)
    t0 = time.time()
    ob.how = 'z3 floating point'
    for k in (keep, None):
        E = fp.Enc(nrm.canon, bits, given, k)
        cs = conds(E)
        r, m = fp.unsat(E, *cs, timeout=(20 if ck.tier == 'quick' else 120) * 1000)
        if r is True:
            break
        if r is False and k is None and E.opaque:
            more = pinned(E)
            if more is not None:
                r2, m2 = fp.unsat(E, *cs, *more, timeout=(20 if ck.tier == 'quick' else 120) * 1000)
                if r2 is False:
                    m, E.opaque = m2, ()
    if r is True:
        ob.status = 'discharged'
    elif r is False and not E.opaque:
        ob.status = 'refuted'
        ob.detail = 'float assignment: %s %s' % (m, why)
    else:
        ob.detail = 'no answer' if r is None else 'assignment over uninterpreted functions: %s %s (%s)' % (m, why, [ir.show(t)[:60] for t in list(E.opaque)[:4]])
    ob.seconds = time.time() - t0
    ck.obs.append(ob)


def pinned(E):
    """sizes fixed to small numbers, expressions of sizes only evaluated: an assignment found then is a genuine one"""
    v = numeval.Val(1)
    out = []
    for c in E.opaque:
        if any(x.op == 'var' and x.sort != 'I' and x.args[0] != 'pi' or x.op == 'app' and x.args[0] not in ('log', 'sqrt') for x in ir.subterms(c)):
            return None
        try:
            r = v.ev(c)
        except (numeval.NoEval, ValueError, ArithmeticError):
            return None
        z = E.names[c]
        out.append((z if r else z3.Not(z)) if c.sort == 'B' else z3.fpEQ(z, z3.FPVal(float(r), E.S)))
    return out


def local(name):
    def f(ck, w, s):
        D = s.dim('D')
        x = s.arr('x', (D,))
        key = s.key('key')
        data = s.obj('data')
        fn = s.fun('logp')
        kern = c04.kernel_of(name, w, s, D)
        lp0 = s.real('lp_in')
        n = 0

        def go():
            with ir.fp_mode(True):
                pos, lp, acc = kern.kernel(key, x, lp0, fn, data)
                i, = fresh_idx(D)
                a = arr.castT(T_(acc), 'b')
                force()
                return pos, i, pos.fn(i), a, evaluated(pos)
        for p in ck.paths_of(go):
            n += 1
            pos, i, pi, a, pf = p.result
            step(ck, 'p%d' % n, D, x.fn(i), pi, a, i, pf, a, data)
    return f


def force():
    """recurrences are evaluated lazily: do it in this arithmetic"""
    k = 0
    while k < len(ctx.C.scan_list):
        sd = ctx.C.scan_list[k]
        for y in list(sd.leaves):
            sd.parts(y)
        k += 1


def evaluated(pos):
    def f(a):
        with ir.fp_mode(True):
            return pos.fn(a)
    return f


def nf(ck, w, s):
    D, x, key, n, B, f, m, kern, data = c03.setup(ck, w, s)
    lp0 = s.real('lp_in')

    def go():
        with ir.fp_mode(True):
            P, LP, A = kern.kernel(key, x, lp0, f, data)
            k = ctx.C.gen('k', ZERO, n)
            i, = fresh_idx(D)
            a = arr.castT(A.fn(k), 'b')
            t = P.fn(k, i)
            force()
            return P, k, i, t, a
    np_ = 0
    for p in ck.paths_of(go):
        np_ += 1
        tag = 'p%d' % np_
        P, k, i, t, a = p.result
        sds = [sd for sd in scans() if sd.leaves and any(len(sd.leaves[y][0]) == 1 and same(init_of(sd, y, i), x.fn(i)) for y in sd.leaves)]
        if len(sds) != 1:
            raise Unsupported('the accept/reject recurrence was not identified')
        sd = sds[0]
        q = [y for y in leaves_of(sd, 1) if same(init_of(sd, y, i), x.fn(i))][0]
        ck.prove(tag + '/given', ir.and_(ir.eq(at(sd, q, ZERO, i), x.fn(i)), ir.eq(at(sd, q, ir.add(k, ONE), i), t)),
                 text='the previous position of state 0 is the start, of state k+1 the state k')
        step(ck, tag, D, at(sd, q, k, i), step_of(sd, q, k, i), a, i, lambda z: step_of(sd, q, k, z), a, data)


def run(ck):
    for k in ('GRW', 'MALA', 'HMC'):
        ck.unit(k, local(k), KFN[k], 3)
    ck.unit('NFProposal', nf, c03.FNS, 8)
    ck.assume('float operations are IEEE 754 with round to nearest as compiled (XLA does not reassociate or drop NaN checks on the CPU); exp, log: NaN, sign and limit behaviour of the IEEE functions',
              'gradients, leapfrog integration, Gaussian densities by library code and sums enter as arbitrary floats (NaN and infinities included)')
