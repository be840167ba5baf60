from rac.common import *
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.kernel.MALA import MALA


def mh(r, kern, drift, h, forced, scale=1.0):
    D = r.int(1, 4)
    f = target(r, D)
    data = {'scale': r.choice([1.0, 0.5])}
    x = r.vec(D, scale=scale)
    key = r.key()
    r.note(D=D, x=x, step=h)
    f, data = rich(r, f, data, D)
    t = wrapped(r, f, D)
    lp = f(jnp.asarray(x), data)
    force = {}
    if forced is not None:
        force['uniform'] = lambda u: jnp.full_like(u, forced)
    with REC.record(**force):
        pos, lpn, acc = kern.kernel(key, jnp.asarray(x), lp, t, data)
    u = float(REC.of('uniform', 1)[0][2])
    if REC.of('normal'):
        raise_if = [a for a in REC.of('normal') if np.shape(a[2]) == (D,)]
        if len(raise_if) != 1:
            raise Skip('noise draw not identified')
        z = np.asarray(raise_if[0][2])
    else:
        raise Skip('noise draw not identified')
    judge(r, f, data, x, h, z, u, drift, pos, lpn, acc)


def judge(r, f, data, x, h, z, u, drift, pos, lpn, acc):
    g = lambda y: gradient(f, y, data)
    mean = (lambda y: y + 0.5 * h * h * g(y)) if drift else (lambda y: y)
    prop = mean(x) + h * z
    q = lambda b, a: -0.5 * np.sum((b - mean(a)) ** 2) / (h * h)
    ratio = val(f, prop, data) - val(f, x, data) + q(x, prop) - q(prop, x)
    lu = np.log(u) if u > 0 else -np.inf
    r.note(u=u, noise=z, proposal=prop, log_ratio=ratio, flag=bool(acc), position=np.asarray(pos))
    if abs(lu - ratio) < 1e-7:
        return
    exp = lu < ratio
    check(np.shape(pos) == np.shape(x), 'position of shape %s', np.shape(pos))
    check(bool(acc) == bool(exp), 'flag %s but log u = %.6g, log ratio = %.6g', bool(acc), lu, ratio)
    close(pos, prop if exp else x, 'position after %s' % ('acceptance' if exp else 'rejection'), 1e-9)


def mala_draws(r, kern, forced, scale=1.0):
    """MALA draws its noise inside a scan: run it without jit so that the draws are concrete"""
    h = kern.step_size
    D = r.int(1, 4)
    f = target(r, D)
    data = {'scale': r.choice([1.0, 0.5])}
    x = r.vec(D, scale=scale)
    key = r.key()
    r.note(D=D, x=x, step=h)
    f, data = rich(r, f, data, D)
    t = wrapped(r, f, D)
    force = {}
    if forced is not None:
        force['uniform'] = lambda u: jnp.full_like(u, forced)
    lp = f(jnp.asarray(x), data)
    with jax.disable_jit():
        with REC.record(**force):
            pos, lpn, acc = kern.kernel(key, jnp.asarray(x), lp, t, data)
        u = float(REC.of('uniform', 1)[0][2])
        zs = [np.asarray(a[2]) for a in REC.of('normal') if np.shape(a[2]) == (D,)]
    if not zs or any(not np.array_equal(zs[0], z) for z in zs):
        raise Skip('noise draw not identified')
    judge(r, f, data, x, h, zs[0], u, True, pos, lpn, acc)
    if forced is None:
        p2, l2, a2 = jax.jit(lambda k, y: kern.kernel(k, y, f(y, data), f, data))(key, jnp.asarray(x))
        close(p2, pos, 'jitted and eager step', 1e-8)


@case(8)
def grw_step(r):
    h = round(r.uniform(0.05, 2.5), 3)
    mh(r, GaussianRandomWalk(h), False, h, None)


@case(4)
def grw_extreme_uniform(r):
    h = round(r.uniform(0.05, 1.0), 3)
    mh(r, GaussianRandomWalk(h), False, h, r.choice([0.0, 1e-300, 1e-4, 1 - 1e-12]))


@case(8)
def mala_step(r):
    mala_draws(r, MALA(round(r.uniform(0.05, 1.6), 3)), None)


@case(4)
def mala_extreme_uniform(r):
    mala_draws(r, MALA(round(r.uniform(0.05, 1.0), 3)), r.choice([0.0, 1e-300, 1e-4, 1 - 1e-12]))


@case(6)
def far_away(r):
    """starting points far in the tail: large gradients, large drifts"""
    mala_draws(r, MALA(r.choice([0.2, 0.5, 0.8])), r.choice([None, 1e-300]), r.choice([10.0, 100.0, 3000.0]))
    h = r.choice([0.5, 20.0, 300.0])
    mh(r, GaussianRandomWalk(h), False, h, r.choice([None, 1e-300]), r.choice([10.0, 300.0]))


@case(4)
def acceptance_frequency_law(r):
    """with the noise held fixed the flag is set with probability min(1, Metropolis-Hastings ratio)"""
    D = r.int(1, 5)
    f = target(r, D)
    data = {'scale': 1.0}
    x = r.vec(D)
    dt = r.choice([0.3, 0.6, 1.0])
    z = FIX[:D]
    langevin = r.random() < 0.5
    kern = MALA(dt) if langevin else GaussianRandomWalk(dt)
    r.note(D=D, x=x, step=dt, noise=z, langevin=langevin)
    n = 4000
    freq, pos, acc = acceptance_frequency(r, kern, f, x, data, n=n)
    drift = (lambda y: 0.5 * dt * dt * gradient(f, y, data)) if langevin else (lambda y: 0 * y)
    y = x + drift(x) + dt * z
    q = lambda a, b: -0.5 * np.sum((b - a - drift(a)) ** 2) / dt ** 2
    w = min(1.0, float(np.exp(val(f, y, data) - val(f, x, data) + q(y, x) - q(x, y))))
    check(abs(freq - w) < 5.5 * np.sqrt(max(w * (1 - w), 1e-3) / n), 'accepted %.4f of %d steps with the same noise, expected %.4f', freq, n, w)
    if acc.any():
        close(pos[acc], np.broadcast_to(y, pos[acc].shape), 'accepted position', 1e-6)
