"""C10: temperature adaptation keeps a valid ladder and stops after training."""
from .ptc import *


def unit(training, warm=False):
    def f(ck, w, s):
        S = PTSetup(ck, w, s, training, warm)
        n = 0
        for pth in ck.paths_of(S.run):
            n += 1
            tag = 'p%d' % n
            key, res, x = pth.result
            c, i_ = fresh_idx(S.C, S.D)
            nT = dT(arr.D(S.nT))
            last = ir.sub(nT, ONE)
            Tn = S.T.data
            if warm:
                no_trace(ck, tag + '/no-trace', [Tn.fn(ctx.C.gen('k', ZERO, nT))])
            ck.prove(tag + '/shape', ir.eq(dT(Tn.sh[0]), nT) if Tn.ndim == 1 else FALSE, text='the ladder keeps its length')
            if not training:
                k = ctx.C.gen('k', ZERO, nT)
                ck.prove(tag + '/frozen', ir.eq(Tn.fn(k), S.Tt(k)), text='the ladder is unchanged outside training')
                continue
            E = Exchange(S, x, c, i_)
            lps = E.lps()
            E.unif(ZERO)
            cv = ir.fresh('c')
            Cn = dT(arr.D(S.C))
            ctx.C.ranges[cv] = (ZERO, Cn)
            ec = Exchange(S, x, cv, i_)
            ec.unif(ZERO)
            E.sd.info['unfold'] = False
            new = norm().canon(Tn.fn(ctx.C.gen('k', ZERO, nT)))
            # the loop over interior temperatures, if there is one
            sym = None
            if new.op == 'app' and new.args[0] in ctx.C.scans:
                sym = new.args[0]
                sd = ctx.C.scans[sym]
                g = new.args[3:]
                L = lambda t, k: ir.app(sym, 'R', t, k, *g)
                t = ctx.C.gen('t', ZERO, sd.n)
                k = ctx.C.gen('k', ZERO, nT)
                # entries not yet treated are the old ones; treated ones stay
                ck.prove(tag + '/inv/old/start', ir.eq(L(ZERO, k), S.Tt(k)), text='the loop starts from the old ladder', aux=True)
                ck.prove(tag + '/inv/old/step', ir.implies(ir.or_(ir.lt(ir.add(t, ONE), k), ir.eq(k, ZERO)), ir.eq(L(ir.add(t, ONE), k), S.Tt(k))),
                         hyps=[ir.implies(ir.or_(ir.lt(t, k), ir.eq(k, ZERO)), ir.eq(L(t, k), S.Tt(k)))], text='entry 0 and entries not reached yet are the old ones', aux=True)
                ck.prove(tag + '/inv/stay', ir.implies(ir.le(k, t), ir.eq(L(ir.add(t, ONE), k), L(t, k))), text='an entry once set is not changed again', aux=True)
                ck.prove(tag + '/inv/length', ir.eq(sd.n, ir.sub(nT, const(2))), text='one pass per interior temperature', aux=True)
                fin = sd.n
                inv_old = lambda t_, k_: ir.implies(ir.or_(ir.lt(t_, k_), ir.eq(k_, ZERO)), ir.eq(L(t_, k_), S.Tt(k_)))
                ck.prove(tag + '/coldest', ir.eq(Tn.fn(ZERO), S.Tt(ZERO)), hyps=[inv_old(fin, ZERO)], text='the coldest temperature never changes')
                ck.prove(tag + '/hottest', ir.eq(Tn.fn(last), S.Tt(last)), hyps=[inv_old(fin, last)], text='the hottest temperature never changes')
                im = ctx.C.gen('i', ZERO, ir.sub(last, ONE))
                i = ir.add(im, ONE)
                # entry i is set in pass i-1 and stays
                E_ = ir.sub(norm().canon(step_of(sd, sym, im, i)), L(im, im))
                # lemma (inv/stay, by induction over the passes): the final entries are those set
                Ti = ir.replace(norm().canon(Tn.fn(i)), {norm().canon(L(fin, i)): L(i, i)})
                Tm = ir.replace(norm().canon(Tn.fn(im)), {norm().canon(L(fin, im)): L(im, im)})
                E_ = ir.replace(E_, {norm().canon(L(im, i)): S.Tt(i)})
                ck.prove(tag + '/set', ir.eq(ir.sub(Ti, Tm), E_), rules=[inv_rule(sym, lambda t_, k_, *g_: S.Tt(k_) if same(t_, im) and same(k_, i) else None)],
                         text='the new gap is the one computed in pass i-1 (entries stay once set)', aux=True)
                # L(im, i-1) is already final: gap does not depend on it
            else:
                ck.prove(tag + '/coldest', ir.eq(Tn.fn(ZERO), S.Tt(ZERO)), text='the coldest temperature never changes')
                ck.prove(tag + '/hottest', ir.eq(Tn.fn(last), S.Tt(last)), text='the hottest temperature never changes')
                im = ctx.C.gen('i', ZERO, ir.sub(last, ONE))
                i = ir.add(im, ONE)
                E_ = ir.sub(Tn.fn(i), Tn.fn(im))
            gap = ir.sub(S.Tt(i), S.Tt(im))
            ctx.C.facts.append(ir.lt(S.Tt(im), S.Tt(i)))
            rules = E.rules(lps)
            # number of swaps of pair p over the chains, as recorded by the exchange
            def rate(p):
                return ir.sum_(cv, Cn, ir.b2n(ec.accept(p, p)))
            ra, rb = norm(rules=rules).canon(rate(im)), norm(rules=rules).canon(rate(i))
            En = norm(rules=rules).canon(E_)
            a, b = ir.var('swaps_colder', 'I'), ir.var('swaps_hotter', 'I')
            for v in (a, b):
                ctx.C.ranges[v] = (ZERO, ir.add(Cn, ONE))
                s.ints[v.args[0]] = lambda v_: v_.rng.randrange(0, 3)
            F = ir.replace(En, {ra: a, rb: b})
            nomore = not any(y.op == 'app' and (y.args[0] in ('uniform', 'Kpos', 'Klp', 'll', 'x0', 'tp') or y.args[0] == E.e) for y in ir.subterms(F))
            ck.fact(tag + '/rates-only', nomore, 'the new gap depends on more than the swap counts: ' + ir.show(F)[:600], hard=False, text='the new gap depends on draws and positions only through the swap rates of the two pairs')
            if not nomore:
                # the abstraction of the two rates does not apply: compare with the rates themselves
                F, a, b = En, ra, rb
            ck.prove(tag + '/equal', ir.eq(ir.replace(F, {a: b}), gap) if nomore else ir.implies(ir.eq(a, b), ir.eq(F, gap)), text='equal swap rates: gap unchanged')
            ck.prove(tag + '/positive', ir.lt(ZERO, F), hyps=[ir.le(a, Cn), ir.le(b, Cn)], text='the new gap is positive')
            ck.prove(tag + '/larger', ir.implies(ir.lt(b, a), ir.lt(gap, F)), text='the colder pair swaps more: larger gap')
            ck.prove(tag + '/smaller', ir.implies(ir.lt(a, b), ir.lt(F, gap)), text='the hotter pair swaps more: smaller gap')
            if not nomore:
                continue
            # the factor depends on nothing else
            F2 = replace_app(F, 'T', lambda k_: ir.app('T2', 'R', k_))
            g2 = replace_app(gap, 'T', lambda k_: ir.app('T2', 'R', k_))
            ctx.C.facts.append(ir.lt(ir.app('T2', 'R', im), ir.app('T2', 'R', i)))
            if sym is not None:
                F2 = replace_app(F2, sym, lambda *z: ir.app('L2', 'R', *z))
            ck.prove(tag + '/factor', ir.eq(ir.mul(F, g2), ir.mul(F2, gap)), text='the factor does not depend on the ladder')
    return f


def run(ck):
    for t in (True, False):
        ck.unit('ParallelTempering[%s]' % ('training' if t else 'production'), unit(t), FNS, 2)
    ck.unit('ParallelTempering[later call]', unit(True, True), FNS, 2)
    ck.assume('exp is positive and strictly increasing with exp(0) = 1', 'the old ladder is strictly increasing')
