from rac.c09 import *
lib.CASES.clear()


@case(14)
def ladder(r):
    C, nT, D = r.choice([1, 2, 3, 6, 40]), r.int(2, 6), 1
    ll, pr, T, data, res, pt = build(r, C, nT, D, 1, True)
    x = jnp.asarray(r.vec(C, D))
    u = r.uniform(0.05, 0.95)
    r.note(uniform=u)
    for call in range(2):
        old = np.asarray(res['T'].data)
        sim = Sim(ll, pr, data, old, 1, u)
        out = [sim.chain([np.asarray(x)[c]] + list(np.asarray(res['tp'].data)[c])) for c in range(C)]
        if min(o[2] for o in out) < 1e-7:
            raise Skip('a decision on its boundary')
        rate = np.mean([o[1] for o in out], 0)
        with REC.record(uniform=lambda v: jnp.full_like(v, u)):
            _, _, x = pt(r.key(), res, x, data)
        new = np.asarray(res['T'].data)
        check(new.shape == old.shape, 'ladder shape %s', new.shape)
        close(new[0], old[0], 'coldest temperature', 1e-12)
        close(new[-1], old[-1], 'hottest temperature', 1e-12)
        facs = {}
        for i in range(1, nT - 1):
            f = (new[i] - new[i - 1]) / (old[i] - old[i - 1])
            c, h = rate[i - 1], rate[i]
            eps = 4e-15 * max(abs(new[i]), abs(old[i])) / abs(old[i] - old[i - 1])      # what rounding of the ladder does to the factor
            small = np.isfinite(f) and f < 1e-3 and abs(new[i] - new[i - 1]) < 1e-9 * abs(new[i])      # the gap has underflowed
            if not eps < 1e-3:
                continue
            if not np.isfinite(f) or small:
                check(c < h or not np.isfinite(f) and c > h, 'gap %d has factor %r with rates %r %r', i, f, c, h)
                continue
            check(f > 0, 'gap %d scaled by %r', i, f)
            if c == h:
                check(abs(f - 1) < 1e-6 + eps, 'gap %d scaled by %r with equal swap rates', i, f)
            elif abs(f - 1) > eps or eps < 1e-9:
                check((f > 1) == (c > h), 'gap %d scaled by %r with swap rates %r (colder) and %r (hotter)', i, f, c, h)
            k = (c, h)
            if k in facs and max(f, facs[k]) < 1e6 and min(f, facs[k]) > 1e-5:
                check(abs(f / facs[k] - 1) < 1e-4 + 10 * eps, 'factor %r and %r for the same swap rates', f, facs[k])
            facs[k] = f
        # restart from a fresh strictly increasing ladder
        if not (np.diff(new) > 1e-6).all() or new.max() > 1e3:
            res['T'].data = jnp.asarray(T)


@case(5)
def frozen(r):
    C, nT, D = r.int(1, 4), r.int(2, 5), r.int(1, 2)
    ll, pr, T, data, res, pt = build(r, C, nT, D, r.int(1, 3), False)
    x = jnp.asarray(r.vec(C, D))
    for _ in range(2):
        _, _, x = pt(r.key(), res, x, data)
        same(res['T'].data, T, 'ladder outside training')
    res['st'].data['training'] = True
    _, _, x = pt(r.key(), res, x, data)
    res['st'].data['training'] = False
    t1 = np.asarray(res['T'].data)
    _, _, x = pt(r.key(), res, x, data)
    same(res['T'].data, t1, 'ladder after training')
