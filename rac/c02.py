from rac.common import *
from flowMC.resource.kernel.HMC import HMC


def leap(f, data, M, eps, n, x, p):
    """n position updates with half momentum kicks at both ends"""
    g = lambda y: gradient(f, y, data)
    x, p = np.array(x, float), np.array(p, float)
    p = p + 0.5 * eps * g(x)
    for k in range(n):
        x = x + eps * (M @ p)
        p = p + (0.5 if k == n - 1 else 1.0) * eps * g(x)
    return x, p


def metric(r, D):
    kind = r.choice(['dense', 'diag', 'scalar', 'default'])
    if kind == 'dense':
        A = r.vec(D, D, scale=0.6)
        M = A @ A.T + 0.5 * np.eye(D)
        return kind, {'condition_matrix': jnp.asarray(M)}, M
    if kind == 'diag':
        M = np.diag(r.np.uniform(0.3, 2.5, D))
        return kind, {'condition_matrix': jnp.asarray(M)}, M
    if kind == 'scalar':
        s = round(r.uniform(0.3, 2.5), 3)
        return kind, {'condition_matrix': s}, s * np.eye(D)
    return kind, {}, np.eye(D)


def step(r, forced=None, scale=1.0):
    D = r.int(1, 3)
    f = target(r, D)
    data = {'scale': r.choice([1.0, 0.5])}
    x = r.vec(D, scale=scale)
    kind, kw, M = metric(r, D)
    eps = round(r.uniform(0.05, 0.6 if scale == 1.0 else 0.2), 3)
    L = r.int(1, 5)
    f, data = rich(r, f, data, D, L)
    key = r.key()
    r.note(D=D, x=x, metric=kind, M=M, step=eps, n_leapfrog=L)
    kern = HMC(step_size=eps, n_leapfrog=L, **kw)
    force = {'uniform': (lambda u: jnp.full_like(u, forced))} if forced is not None else {}
    lp = f(jnp.asarray(x), data)
    with REC.record(**force):
        pos, lpn, acc = kern.kernel(key, jnp.asarray(x), lp, wrapped(r, f, D), data)
    u = float(REC.of('uniform', 1)[0][2])
    nz = REC.of('normal')
    mv = REC.of('multivariate_normal')
    if len(nz) == 1 and not mv:
        z = np.asarray(nz[0][2])
        # any factor S of inv(M) gives the right law: accept the momentum of the Cholesky and of the symmetric root
        w, V = np.linalg.eigh(np.linalg.inv(M))
        cands = [np.linalg.cholesky(np.linalg.inv(M)) @ z, np.linalg.inv(np.linalg.cholesky(M)).T @ z, V @ np.diag(np.sqrt(w)) @ V.T @ z]
    elif len(mv) == 1 and not nz:
        cands = [np.asarray(mv[0][2])]
    else:
        raise Skip('momentum draw not identified')
    lu = np.log(u) if u > 0 else -np.inf
    msgs = []
    for p in cands:
        H0 = -val(f, x, data) + 0.5 * p @ M @ p
        for n in (L, L + 1):
            y, q = leap(f, data, M, eps, n, x, p)
            H1 = -val(f, y, data) + 0.5 * q @ M @ q
            ratio = H0 - H1
            if abs(lu - ratio) < 1e-6:
                return
            exp = lu < ratio
            want = y if exp else x
            if bool(acc) == bool(exp) and np.allclose(pos, want, rtol=1e-7, atol=1e-8):
                if not exp and forced is None:
                    return
                return
            msgs.append('momentum %s, %d position updates: log u = %.6g, energy difference %.6g -> expected flag %s, position %s' % (
                np.round(p, 5).tolist(), n, lu, ratio, bool(exp), np.round(want, 6).tolist()))
    raise Fail('flag %s, position %s; %s' % (bool(acc), np.asarray(pos).tolist(), ' / '.join(msgs[:2])))


@case(8)
def hmc_step(r):
    step(r)


@case(6)
def hmc_certain_accept(r):
    step(r, 1e-300)


@case(6)
def hmc_marginal(r):
    step(r, r.choice([0.9, 0.97, 0.999]))


@case(5)
def hmc_far_away(r):
    step(r, r.choice([None, 1e-300]), r.choice([8.0, 60.0, 1000.0]))


@case(4)
def leapfrog_reversible_and_volume_preserving(r):
    """the step map (position, momentum) -> (position, momentum) of the real integrator"""
    D = r.int(1, 3)
    f = target(r, D)
    data = {'scale': 1.0}
    kind, kw, M = metric(r, D)
    eps = round(r.uniform(0.05, 0.5), 3)
    L = r.int(1, 5)
    kern = HMC(step_size=eps, n_leapfrog=L, **kw)
    x, p = r.vec(D), r.vec(D)
    r.note(D=D, x=x, p=p, M=M, step=eps, n_leapfrog=L)
    Mj = jnp.asarray(M)
    pot = lambda y, d: -f(y, d)
    kin = lambda q, m: 0.5 * jnp.dot(q, jnp.dot(m, q))
    lk = jax.tree_util.Partial(kern.leapfrog_kernel, kin, pot)
    step_ = lambda a, b: kern.leapfrog_step(lk, a, b, data, Mj)
    y, q = step_(jnp.asarray(x), jnp.asarray(p))
    a, b = step_(y, -q)
    close(a, x, 'position after reversing the trajectory', 1e-7)
    close(-b, p, 'momentum after reversing the trajectory', 1e-7)
    J = jax.jacfwd(lambda v: jnp.concatenate(step_(v[:D], v[D:])))(jnp.concatenate([jnp.asarray(x), jnp.asarray(p)]))
    close(np.linalg.det(np.asarray(J)), 1.0, 'determinant of the trajectory map', 1e-7)


@case(4)
def acceptance_frequency_law(r):
    """with the momentum held fixed the flag is set with probability min(1, exp(-energy error))"""
    D = r.int(2, 5)
    f = target(r, D)
    data = {'scale': 1.0}
    x = r.vec(D)
    L = r.int(1, 3)
    eps = r.choice([0.5, 0.7, 0.9, 1.1])
    kern = HMC(jnp.eye(D), eps, L)
    r.note(D=D, x=x, step=eps, n_leapfrog=L, momentum=FIX[:D])
    n = 4000
    freq, pos, acc = acceptance_frequency(r, kern, f, x, data, n=n)
    p = FIX[:D]
    H0 = -val(f, x, data) + 0.5 * p @ p
    want = []
    for m in (L, L + 1):
        y, q = leap(f, data, np.eye(D), eps, m, x, p)
        want.append(min(1.0, float(np.exp(H0 + val(f, y, data) - 0.5 * q @ q))))
    check(any(abs(freq - w) < 5.5 * np.sqrt(max(w * (1 - w), 1e-3) / n) for w in want), 'accepted %.4f of %d trajectories with the same momentum, expected %s', freq, n, np.round(want, 4).tolist())
