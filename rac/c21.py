from rac.common import *
from flowMC.resource.logPDF import TemperedPDF, Variable


def fns(r, D):
    a, b = jnp.asarray(r.vec(D)), jnp.asarray(r.vec(D))

    def ll(x, data):
        return -jnp.sum((x - a) ** 2) * data['s'] + jnp.sin(x[0])

    def pr(x, data):
        return jnp.sum(jnp.cos(x + b)) * 0.5 + data['s']
    return ll, pr


@case(12)
def wrappers(r):
    D = r.int(1, 4)
    ll, pr = fns(r, D)
    data = {'s': jnp.asarray(r.uniform(0.5, 2))}
    x = jnp.asarray(r.vec(D, scale=2))
    kind = r.choice(['n_dims', 'variables', 'both'])
    twins = r.random() < 0.4            # nothing asks for distinct names
    vs = [Variable('v' if twins else 'v%d' % i, r.random() < 0.5) for i in range(D)]
    kw = {'n_dims': D} if kind == 'n_dims' else {'variables': vs} if kind == 'variables' else {'variables': vs, 'n_dims': D + 2}
    T = r.choice([1.0, r.uniform(0.2, 9), 37.5])
    r.note(dims=D, given_by=kind, T=T, x=x)
    L, P = LogPDF(ll, **kw), TemperedPDF(ll, pr, **kw)
    fl = lambda o: jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(o), jax.tree_util.tree_leaves(o))
    want, wp = val(ll, x, data), val(pr, x, data)
    for tag, l, p in (('', L, P), ('flattened ', fl(L), fl(P)), ('twice flattened ', fl(fl(L)), fl(fl(P)))):
        check(type(l) is LogPDF and type(p) is TemperedPDF, '%stype %s %s', tag, type(l), type(p))
        close(l(x, data), want, tag + 'LogPDF call', 1e-9)
        close(p(x, data), want, tag + 'TemperedPDF plain call', 1e-9)
        close(p.tempered_log_pdf(jnp.asarray(T), x, data), want / T + wp, tag + 'tempered value', 1e-9)
        close(p.tempered_log_pdf(1.0, x, data), want + wp, tag + 'posterior at T=1', 1e-9)
        check(l.n_dims == D and p.n_dims == D, '%sn_dims %s %s, expected %d', tag, l.n_dims, p.n_dims, D)
        names = [(v.name, v.continuous) for v in l.variables]
        check(len(names) == D and names == [(v.name, v.continuous) for v in p.variables], tag + 'variables differ')
        if kind != 'n_dims':
            check(names == [(v.name, v.continuous) for v in vs], tag + 'variables changed')
        else:
            check(names == [(v.name, v.continuous) for v in L.variables], tag + 'variables changed')
    # through jit and vmap as an argument
    got = jax.jit(lambda o, y: o(y, data))(L, x)
    close(got, want, 'jitted', 1e-9)
    Ts, X = jnp.asarray(r.np.uniform(0.5, 5, 3)), jnp.asarray(r.vec(3, D))
    got = jax.vmap(lambda o, t, y: o.tempered_log_pdf(t, y, data), in_axes=(None, 0, 0))(P, Ts, X)
    close(got, [val(ll, X[i], data) / float(Ts[i]) + val(pr, X[i], data) for i in range(3)], 'vmapped tempered values', 1e-9)


@case(4)
def outside_the_support(r):
    D = r.int(1, 3)
    x = jnp.asarray(r.vec(D))
    big = r.uniform(-50, 50)
    for T in (1.0, r.uniform(0.2, 9), 40.0):
        for l, p, want in ((big, -np.inf, -np.inf), (-np.inf, big, -np.inf), (-np.inf, -np.inf, -np.inf), (np.nan, big, np.nan), (big, np.nan, np.nan), (0.0, -np.inf, -np.inf), (-np.inf, 0.0, -np.inf)):
            o = TemperedPDF(lambda y, d: jnp.sum(y) * 0 + l, lambda y, d: jnp.sum(y) * 0 + p, n_dims=D)
            for tt in (T, jnp.asarray(T)):
                got = float(o.tempered_log_pdf(tt, x, {}))
                r.note(T=T, log_likelihood=l, log_prior=p)
                check(np.array_equal(got, want, equal_nan=True), 'tempered value %s, expected %s (log-likelihood %s, log-prior %s, T %s)', got, want, l, p, T)
            got = float(o(x, {}))
            check(np.array_equal(got, l, equal_nan=True), 'plain value %s, expected %s', got, l)


@case(4)
def dims_required(r):
    ll, pr = fns(r, 2)
    for mk in (lambda: LogPDF(ll), lambda: TemperedPDF(ll, pr)):
        try:
            mk()
        except ValueError:
            continue
        check(False, 'no error without variables or n_dims')
    for n in range(1, 6):
        check(LogPDF(ll, n_dims=n).n_dims == n and TemperedPDF(ll, pr, n_dims=n).n_dims == n, 'n_dims')
    # nested wrapped targets
    D = 2
    data = {'s': jnp.asarray(1.3)}
    x = jnp.asarray(r.vec(D))
    P = TemperedPDF(LogPDF(ll, n_dims=D), LogPDF(pr, n_dims=D), n_dims=D)
    close(P.tempered_log_pdf(2.0, x, data), val(ll, x, data) / 2 + val(pr, x, data), 'nested tempered', 1e-9)
