"""Specification functions shared by the contracts."""
from engine import ir, arr, fakes, ctx
from engine.ir import const, ZERO, ONE, TRUE, FALSE
from engine.arr import Arr, asarr, dT, lam_of
from engine.check import draws, idx, fresh_idx, T_
from engine.ctx import Unsupported


def half():
    from fractions import Fraction
    return const(Fraction(1, 2), 'R')


def R(x):
    from fractions import Fraction
    return const(Fraction(x), 'R')


def lam1(n, f):
    """lambda over one index"""
    v = ir.fresh('l')
    return ir.lam((v,), (dT(arr.D(n)),), f(v))


def vec(n, f, dt='f'):
    return Arr((arr.D(n),), f, dt)


def S(n, f):
    """sum_{i<n} f(i)"""
    v = ir.fresh('s')
    return ir.sum_(v, dT(arr.D(n)), f(v))


def rich_data(s, *dims, pre='', **more):
    """user data of every kind: an opaque entry, a nested array, a Python number, and arrays whose leading dimension coincides with sizes of the run"""
    d = {'data': s.obj(pre + 'data'), 'more': {'c': s.real(pre + 'dc'), 'flag': True}, 'two': 2}
    for i, n in enumerate(dims):
        d['per%d' % i] = s.arr(pre + 'dper%d' % i, (n,))
        d['rows%d' % i] = s.arr(pre + 'drows%d' % i, (n, s.dim('DR')))
    return {**d, **more}


def logp(name, x, data):
    return ir.app(name, 'R', lam_of(x), fakes.fingerprint(data))


def grad(name, x, data, i):
    """d name / d x_i at x"""
    return ir.app('D0:' + name, 'R', i, lam_of(x), fakes.fingerprint(data))


def log(t):
    return ir.fn('log', t)


def one_draw(terms, kind, n_static=None):
    """the unique key of the draws of this kind"""
    ks = [k for k in draws(*terms) if k[0] == kind]
    if len(ks) != 1:
        raise Unsupported('expected exactly one %s key, found %d' % (kind, len(ks)))
    return ks[0][1]


def key_path(k):
    """(root, [(n, i), ...]) of a split chain, innermost last"""
    p = []
    while k.op == 'app' and k.args[0] in ('split', 'foldin'):
        if k.args[0] == 'split':
            p.append((k.args[2], k.args[3]))
        else:
            p.append(('fold', k.args[2]))
        k = k.args[1]
    return k, list(reversed(p))


# ---------------------------------------------------------------- recurrences
def norm(hyps=(), rules=(), **kw):
    from engine.prove import Prover
    return Prover(hyps, rules=rules, **kw).norm(list(hyps))


def canon(t, hyps=(), rules=()):
    return norm(hyps, rules).canon(t)


def same(a, b, hyps=(), rules=()):
    from engine.prove import Prover
    from engine.arr import eqT
    return bool(Prover(hyps, rules=rules, budget=5).prove(eqT(a, b)))


def scans():
    return list(ctx.C.scan_list)


def leaves_of(sd, rank=None):
    out = []
    for sym in sd.leaves:
        fv = sd.leaves[sym][0]
        if rank is None or len(fv) == rank:
            out.append(sym)
    return out


def seq_sort(sd, sym):
    return sd.parts(sym)[3].sort


def at(sd, sym, t, *i):
    """value of a sequence at time t"""
    return ir.app(sym, seq_sort(sd, sym), t, *i, *sd.gens)


def init_of(sd, sym, *i):
    l = sd.parts(sym)
    return ir.subst(l[3], dict(zip(l[0], i)))


def step_of(sd, sym, j, *i):
    l = sd.parts(sym)
    m = dict(zip(l[0], i))
    m[sd.j] = j
    return ir.subst(l[4], m)


def replace_app(t, name, f, memo=None):
    """replace every application of `name` by f(*args) (also below binders)"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'app' and t.args[0] == name:
        r = f(*[replace_app(a, name, f, memo) if isinstance(a, ir.T) else a for a in t.args[1:]])
    elif t.op in ('sum', 'all', 'lam'):
        vs, dims, body = ir.open_binder(t)
        d2 = [replace_app(d, name, f, memo) for d in dims]
        b2 = replace_app(body, name, f, {})
        if t.op == 'sum':
            r = ir.sum_(vs[0], d2[0], b2)
        elif t.op == 'all':
            r = ir.all_(vs[0], d2[0], b2)
        else:
            r = ir.lam(vs, d2, b2)
    elif any(isinstance(a, ir.T) for a in t.args):
        r = ir.rebuild(t, [replace_app(a, name, f, memo) if isinstance(a, ir.T) else a for a in t.args])
    else:
        r = t
    memo[t] = r
    return r


def mentions(t, name):
    return any(x.op == 'app' and x.args[0] == name for x in ir.subterms(t))


def inv_rule(sym, f):
    """rewrite rule for a proved invariant: sym(t, idx, gens) -> f(t, idx, gens)"""
    def rule(a, n):
        if a.op == 'app' and a.args[0] == sym:
            return f(*a.args[1:])
        return None
    return rule


def no_trace(ck, id, terms):
    """the results of a call mention nothing an earlier call was given (its inputs have names starting with 'w.')"""
    from .steps import reach1
    bad = sorted({t.args[0] for t in reach1([norm().canon(x) for x in terms]) if t.op in ('app', 'var') and isinstance(t.args[0], str) and t.args[0].startswith('w.')})
    return ck.fact(id, not bad, 'depends on the %s of an earlier call' % ', '.join(x[2:] for x in bad), text='nothing of an earlier call on other inputs enters')


def tempty():
    return ctx.C
