"""C06: a sampling run records exactly its own consecutive iterates."""
from .steps import *

TS = 'flowMC.strategy.take_steps:'
FNS = [TS + 'TakeSteps.__call__', TS + 'TakeSteps.set_current_position', 'flowMC.resource.buffers:Buffer.update_buffer', 'flowMC.resource.buffers:Buffer.__init__']
SER = [TS + 'TakeSerialSteps.body', TS + 'TakeSerialSteps.sample']
GRP = [TS + 'TakeGroupSteps.sample']


def record(ck, S, p, tag, group):
    key, res, last = p.result
    c, i = fresh_idx(S.C, S.D)
    m = ctx.C.gen('m', ZERO, S.W)
    slot = ir.add(S.c0, m)
    s = ctx.C.gen('s', ZERO, S.cap)
    out = []
    for b, nm in ((S.bp, 'oldp'), (S.bl, 'oldl'), (S.ba, 'olda')):
        sh = b.data.sh
        want = (S.C, S.cap, S.D) if nm == 'oldp' else (S.C, S.cap)
        ck.prove(tag + '/%s/shape' % nm[3:], ir.and_(*[ir.eq(dT(a), dT(arr.D(e))) for a, e in zip(sh, want)]) if len(sh) == len(want) else FALSE, text='the buffer keeps its shape')
        args = (c, s, i) if nm == 'oldp' else (c, s)
        outside = ir.not_(ir.and_(ir.le(S.c0, s), ir.lt(s, ir.add(S.c0, S.W))))
        ck.prove(tag + '/%s/frame' % nm[3:], ir.implies(outside, ir.eq(b.data.fn(*args), ir.app(nm, 'R', *args))), text='entries outside the written segment are unchanged')
    V = norm().canon(S.bp.data.fn(c, slot, i))
    VL = norm().canon(S.bl.data.fn(c, slot))
    VA = norm().canon(S.ba.data.fn(c, slot))
    if S.warm:
        no_trace(ck, tag + '/no-trace', [V, VL, VA, last.fn(c, i), T_(S.st.current_position)])
    ck.prove(tag + '/cursor', ir.eq(T_(S.st.current_position), ir.add(S.c0, S.W)), text='the write position advances by the number of samples written, ceil(n/t)')
    # handed-on position = the last recorded one
    lastrec = S.bp.data.fn(c, ir.sub(ir.add(S.c0, S.W), ONE), i)
    ck.prove(tag + '/handed-on', ir.and_(ir.eq(last.fn(c, i), lastrec), ir.eq(dT(last.sh[0]), dT(arr.D(S.C))), ir.eq(dT(last.sh[1]), dT(arr.D(S.D)))), text='the position handed on is the last recorded one')
    ck.fact(tag + '/resources', res.keys() == S.res0.keys() and all(res[k] is S.res0[k] for k in res), 'resources changed', hard=False)
    ck.fact(tag + '/other-state', S.state.data == {'P': 'pb', 'L': 'lb', 'A': 'ab', 'training': True}, str(S.state.data))
    x0 = vec(S.D, lambda a: S.x0.fn(c, a))
    if group:
        a = find_kernel_app(V, 'Gpos')
        st, ii, k, x, lp, tgt, n = a.args[1:]
        mt = ir.mul(m, S.th)
        ck.prove(tag + '/order', ir.eq(V, ir.app('Gpos', 'R', mt, i, k, lam_of(x0), S.lp0(c), S.tgt(), S.N)),
                 text='slot cursor+m holds iterate 1+m t of the run of N steps from (x0, f(x0)) on the given target and data')
        ck.prove(tag + '/logp', ir.eq(VL, ir.app('Glp', 'R', mt, k, lam_of(x0), S.lp0(c), S.tgt(), S.N)), text='matching log density')
        ck.prove(tag + '/acc', ir.eq(VA, ir.b2n(ir.app('Gacc', 'B', mt, k, lam_of(x0), S.lp0(c), S.tgt(), S.N))), text='matching acceptance')
        return None
    it = Iter(V)
    ck.prove(tag + '/order', ir.and_(ir.eq(it.tau, ir.mul(m, S.th)), ir.eq(it.tau2, ir.mul(m, S.th))), text='slot cursor+m holds the output of step 1+m t')
    ck.prove(tag + '/same-chain', ir.and_(*[ir.eq(a, b) for a, b in zip(it.g, it.g2)]), text='position and log density of the same chain')
    ck.prove(tag + '/start', ir.and_(ir.eq(it.qat(ZERO, i), S.x0.fn(c, i)), ir.eq(it.lat(ZERO), S.lp0(c))), text='iterate 1 starts from the given position and its target value')
    j = ctx.C.gen('j', ZERO, S.N)
    kj = it.key_at(j)
    args = (kj, it.posv(j), it.lat(j), S.tgt())
    ck.prove(tag + '/continue', ir.and_(ir.eq(it.qat(ir.add(j, ONE), i), ir.app('Kpos', 'R', i, *args)), ir.eq(it.lat(ir.add(j, ONE)), ir.app('Klp', 'R', *args))),
             text='each later iterate is one kernel step from its predecessor position and log density on the given target and data')
    ck.prove(tag + '/logp', ir.eq(VL, ir.app('Klp', 'R', it.k, it.x, it.lp, it.tgt)), text='matching log density')
    ck.prove(tag + '/acc', ir.eq(VA, ir.b2n(ir.app('Kacc', 'B', it.k, it.x, it.lp, it.tgt))), text='matching acceptance')
    return it


def unit(group, batch, warm=False):
    def f(ck, w, s):
        S = Setup(ck, w, s, group, batch, warm)
        n = 0
        for p in ck.paths_of(S.run):
            n += 1
            record(ck, S, p, 'p%d' % n, group)
    return f


def run(ck):
    for group in (False, True):
        for batch in (False, True):
            ck.unit('Take%sSteps[%s]' % ('Group' if group else 'Serial', 'batched' if batch else 'all at once'), unit(group, batch), FNS + (GRP if group else SER), 12)
        ck.unit('Take%sSteps[later call]' % ('Group' if group else 'Serial'), unit(group, False, True), FNS + (GRP if group else SER), 12)
    ck.assume('the kernel is known by contract only: its outputs are functions of key, position, log density, target and data')
