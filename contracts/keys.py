"""Key words: the derivation path of a PRNG key in the free algebra generated by split and fold_in.

A key is a word of letters over a root; split(k, n)[i] appends the letter i (the number n of keys asked for is
ignored: with the default generator split(k, 2)[i] and split(k, 3)[i] are the same key, so equal letters collide);
fold_in(k, d) appends a letter of its own kind.  A key carried by a loop whose step appends the word w is
the initial word followed by w repeated t times."""
from .common import *
from .steps import reach1
from engine.prove import Prover
from engine.check import DRAWS
from engine import prove as _pv

USERS = set(DRAWS) | {'Kpos', 'Klp', 'Kacc', 'Gpos', 'Glp', 'Gacc', 'T.model', 'T.loss', 'T.state', 'T.key', 'flow.sample',
                      'EP.loss', 'EP.u', 'EP.mean', 'EP.cov', 'EP.state'}


COMM = {'add', 'mul', 'and', 'or', 'eq', 'max', 'min'}


class Letter:
    def __init__(self, i, kind='s'):
        self.i, self.kind = i, kind

    def __repr__(self):
        return ('' if self.kind == 's' else 'fold:') + ir.show(self.i)


class Pow:
    def __init__(self, w, m):
        self.w, self.m = w, m

    def __repr__(self):
        return '(%s)^%s' % (self.w, ir.show(self.m))


def word(k, depth=0):
    """-> (root term, [Letter | Pow])"""
    if depth > 40:
        raise Unsupported('key word')
    k = norm().canon(k)
    if k.op == 'app' and k.args[0] == 'split':
        r, w = word(k.args[1], depth + 1)
        return r, w + [Letter(k.args[3])]
    if k.op == 'app' and k.args[0] == 'foldin':
        r, w = word(k.args[1], depth + 1)
        return r, w + [Letter(k.args[2], 'f')]
    if k.op == 'app' and k.args[0] in ctx.C.scans:
        sd = ctx.C.scans[k.args[0]]
        t, ix, g = sd.split(k.args[0], k.args[1:])
        l = sd.parts(k.args[0])
        m = dict(zip(sd.gens, g))
        m.update(zip(l[0], ix))
        r0, w0 = word(ir.subst(l[3], m), depth + 1)
        j = ir.fresh('j')
        m[sd.j] = j
        st = ir.subst(l[4], m)
        base, lets = norm().canon(st), []
        while not (base.op == 'app' and base.args[0] == k.args[0]):
            if base.op == 'app' and base.args[0] == 'split':
                lets.append(Letter(base.args[3]))
            elif base.op == 'app' and base.args[0] == 'foldin':
                lets.append(Letter(base.args[2], 'f'))
            else:
                raise Unsupported('the key carried by the loop becomes ' + ir.show(st)[:200])
            base = norm().canon(base.args[1])
        t2, ix2, g2 = sd.split(k.args[0], base.args[1:])
        if not (t2 is j and all(same(a, b) for a, b in zip(ix2, ix)) and all(same(a, b) for a, b in zip(g2, g))):
            raise Unsupported('the key carried by the loop comes from another key: ' + ir.show(st)[:200])
        lets.reverse()
        if any(j in x.i.fv for x in lets):
            raise Unsupported('loop-dependent key derivation')
        if not lets:
            return r0, w0
        return r0, w0 + [Pow(lets, t)]
    if k.op == 'ite':
        raise Unsupported('key depends on a condition')
    return k, []


def params(*terms):
    """generic index variables (not the symbolic sizes of the unit)"""
    s = ctx.C.keysym
    out = set()
    for t in terms:
        for v in t.fv:
            if v.sort == 'I' and v.args[0] not in s.ints:
                out.add(v)
    return out


class Use:
    def __init__(self, key, tag, site, kind):
        self.key, self.tag, self.site, self.kind = key, tag, site, kind

    def renamed(self):
        ps = params(self.key, *self.tag)
        m = {}
        for p in sorted(ps, key=lambda v: v.id):
            q = ir.fresh('r')
            ctx.C.ranges[q] = ctx.C.ranges.get(p, (ZERO, None))
            m[p] = q
        # ranges that mention renamed variables
        for p, q in m.items():
            lo, hi = ctx.C.ranges[q]
            ctx.C.ranges[q] = (ir.subst(lo, m) if isinstance(lo, ir.T) else lo, ir.subst(hi, m) if isinstance(hi, ir.T) else hi)
        return Use(ir.subst(self.key, m), tuple(ir.subst(t, m) for t in self.tag), self.site, self.kind)


def uses(terms):
    """every random draw on which the terms depend, with its key and context"""
    out = {}
    for x in reach1(terms):
        if x.op != 'app' or x.args[0] not in USERS:
            continue
        for a in x.args[1:]:
            if isinstance(a, ir.T) and a.sort == 'K':
                a = norm().canon(a)
                if a.op == 'app' and a.args[0] == 'use':
                    u = Use(a.args[1], tuple(norm().canon(z) for z in a.args[3:]), a.args[2], x.args[0])
                else:
                    raise Unsupported('untagged draw ' + ir.show(x)[:200])
                out.setdefault(a, u)
                break
    # identical families up to the names of their index variables
    res, seen = [], set()
    for a in sorted(out, key=lambda t: t.id):
        c = canonical(a)
        if c not in seen:
            seen.add(c)
            res.append(out[a])
    return res


def canonical(t):
    """structure of the term up to renaming of parameters"""
    names, memo = {}, {}

    def parts(x):
        """operands; sums and products without regard to how they are bracketed"""
        if x.op not in ('add', 'mul'):
            return x.args
        out, todo = [], list(x.args)
        while todo:
            y = todo.pop()
            if y.op == x.op:
                todo.extend(y.args)
            else:
                out.append(y)
        return out

    def shape(x):
        """structure with every parameter anonymous, for ordering the operands of commutative operators"""
        if x not in memo:
            if x.op == 'var':
                memo[x] = hash('p' if x.sort == 'I' and x.args[0] not in ctx.C.keysym.ints else repr(x.args))
            else:
                p = [shape(a) if isinstance(a, ir.T) else hash(repr(a)) for a in parts(x)]
                memo[x] = hash((x.op,) + tuple(sorted(p) if x.op in COMM else p))
        return memo[x]

    def go(x):
        if x.op == 'var':
            if x.sort == 'I' and x.args[0] not in ctx.C.keysym.ints:
                return ('p', names.setdefault(x, len(names)))
            return x
        args = parts(x)
        if x.op in COMM:
            args = sorted(args, key=shape)
        return (x.op,) + tuple(go(a) if isinstance(a, ir.T) else a for a in args)
    return go(t)


def valid(goal, hyps):
    if goal is TRUE:
        return True
    return bool(Prover([h for h in hyps], budget=4).prove(goal))


def absurd(hyps):
    return valid(FALSE, hyps) if hyps else False


def letters_differ(a, b, hyps):
    if a.kind != b.kind:
        return False                     # a split and a fold of the same key may collide
    if ir.isconst(a.i) and ir.isconst(b.i):
        return a.i is not b.i
    return valid(ir.not_(ir.eq(a.i, b.i)), hyps)


def letters_same(a, b):
    return a.kind == b.kind and (a.i is b.i or (ir.isconst(a.i) and ir.isconst(b.i) and a.i is b.i))


def same_word(w, v):
    return len(w) == len(v) and all(isinstance(x, Letter) and isinstance(y, Letter) and letters_same(x, y) for x, y in zip(w, v))


def incomparable(u, v, hyps, depth=0):
    """neither word is a prefix of the other, under hyps"""
    if depth > 24:
        return False
    if absurd(hyps):
        return True
    if not u and not v:
        return False
    if not u or not v:
        w = u or v
        if any(isinstance(x, Letter) for x in w):
            return False
        # only repetitions left: they would all have to be ... present or empty, either way comparable
        return False
    a, b = u[0], v[0]
    if isinstance(a, Letter) and isinstance(b, Letter):
        if letters_differ(a, b, hyps):
            return True
        if a.kind != b.kind:
            return False
        return incomparable(u[1:], v[1:], hyps + ([] if letters_same(a, b) else [ir.eq(a.i, b.i)]), depth + 1)
    if isinstance(a, Pow) and isinstance(b, Pow) and same_word(a.w, b.w):
        d1 = ir.sub(b.m, a.m)
        return (incomparable(u[1:], v[1:], hyps + [ir.eq(a.m, b.m)], depth + 1)
                and incomparable(u[1:], b.w + [Pow(b.w, ir.sub(d1, ONE))] + v[1:], hyps + [ir.lt(a.m, b.m)], depth + 1)
                and incomparable(a.w + [Pow(a.w, ir.sub(ir.neg(d1), ONE))] + u[1:], v[1:], hyps + [ir.lt(b.m, a.m)], depth + 1))
    if isinstance(a, Pow):
        return (incomparable(u[1:], v, hyps + [ir.eq(a.m, ZERO)], depth + 1)
                and incomparable(a.w + [Pow(a.w, ir.sub(a.m, ONE))] + u[1:], v, hyps + [ir.le(ONE, a.m)], depth + 1))
    return incomparable(v, u, hyps, depth + 1)


def disjoint(A, B, hyps=()):
    """every instance of use A and every other instance of use B have incomparable keys"""
    B2 = B.renamed()
    ra, wa = word(A.key)
    rb, wb = word(B2.key)
    hy = list(hyps)
    if not same(ra, rb):
        if ra.op == 'var' and rb.op == 'var':
            return None
        raise Unsupported('keys of different origin: %s and %s' % (ir.show(ra)[:80], ir.show(rb)[:80]))
    if A.site is B2.site and len(A.tag) == len(B2.tag):
        hy.append(ir.not_(ir.and_(*[ir.eq(x, y) for x, y in zip(A.tag, B2.tag)])))
    # every index is in its range
    return incomparable(wa, wb, hy)


def show(U):
    r, w = word(U.key)
    return '%s.%s at %s' % (ir.show(r), w, ir.show(U.site)[:60])


def discipline(ck, tag, terms, root, returned=None, min_uses=1, text=''):
    """the obligations of C19 for one unit"""
    us = uses(terms)
    ck.fact(tag + '/draws', len(us) >= min_uses, '%d draws found' % len(us), text='the results depend on the draws', hard=False)
    for k, A in enumerate(us):
        r, w = word(A.key)
        ck.fact(tag + '/origin%d' % k, same(r, root), 'the draw uses %s' % ir.show(r)[:100], text='every draw uses a key derived from the given one')
        for m in range(k, len(us)):
            B = us[m]
            ok = disjoint(A, B)
            ck.fact(tag + '/distinct%d.%d' % (k, m), ok, '%s and %s may coincide or one is derived from the other' % (show(A), show(B)), how='key words + z3',
                    text='instances of these draws never share a key, nor is one key derived from the other', hard=concrete(A, B))
    if returned is not None:
        r, w = word(returned)
        ck.fact(tag + '/returned-origin', same(r, root), 'returned key %s' % ir.show(returned)[:200], text='the returned key is derived from the given one')
        R_ = Use(returned, (), ir.var('@returned', 'U'), 'returned')
        for k, A in enumerate(us):
            ck.fact(tag + '/returned%d' % k, disjoint(A, R_), 'returned key %s, draw %s' % (show(R_), show(A)), how='key words + z3', text='the returned key is neither one used for a draw nor an ancestor or descendant of one',
                    hard=concrete(A, R_))
    return us


def concrete(A, B):
    return True
