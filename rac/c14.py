from rac.common import *
from scipy.integrate import solve_ivp
from flowMC.resource.model.common import MLP
from flowMC.resource.model.flowmatching.base import CondOTScheduler, FlowMatchingModel, Path, Scheduler, Solver


def make(r, white=True):
    D = r.int(1, 4)
    net = perturb(r, MLP([D + 1, r.int(3, 6), D], r.key(), activation=jax.nn.tanh), 0.5)
    scalar = D == 1 and r.random() < 0.5
    kw = {}
    mean, cov = np.zeros(D), np.eye(D)
    if white and r.random() < 0.8:
        mean = r.vec(D)
        if scalar:
            cov = np.asarray(0.3 + 2 * r.random())
        else:
            A = r.vec(D, D, scale=0.5)
            cov = A @ A.T + np.diag(r.np.uniform(0.3, 2.0, D))
        kw = dict(data_mean=jnp.asarray(mean), data_cov=jnp.asarray(cov))
    m = FlowMatchingModel(Solver(net), Path(CondOTScheduler()), **kw)
    r.note(D=D, mean=mean, cov=cov, weights=[np.asarray(v) for v in jax.tree.leaves(net) if hasattr(v, 'shape')])
    return D, net, mean, np.sqrt(np.diag(np.atleast_2d(cov))), m


def field(net):
    f = jax.jit(lambda t, y: net(jnp.concatenate([y, jnp.atleast_1d(t)])))
    d = jax.jit(lambda t, y: jnp.trace(jax.jacfwd(lambda v: net(jnp.concatenate([v, jnp.atleast_1d(t)])))(y)))
    return lambda t, y: np.asarray(f(t, y)), lambda t, y: float(d(t, y))


def solve(f, y0, t0, t1):
    s = solve_ivp(f, (t0, t1), np.asarray(y0, float), rtol=1e-9, atol=1e-10)
    if not s.success:
        raise Skip('reference integrator')
    return s.y[:, -1]


@case(6)
def sampling(r):
    D, net, mean, sd, m = make(r)
    v, _ = field(net)
    n = r.int(1, 3)
    dt = r.choice([0.02, 0.05])
    for obj, a, b in ((m.solver, 0.0, 1.0), (m, mean, sd)):
        with REC.record():
            out = np.asarray(obj.sample(r.key(), n, dt=dt))
            noise = REC.of('normal')
        check(out.size == n * D, 'sample of shape %s', out.shape)
        out = out.reshape(n, D)
        if len(noise) != 1:
            raise Skip('%d blocks of noise' % len(noise))
        z = np.asarray(noise[0][2])
        check(z.shape == (n, D), 'noise of shape %s', z.shape)
        for k in range(n):
            close(out[k], solve(v, z[k], 0.0, 1.0) * b + a, 'draw %d against the velocity field integrated from 0 to 1' % k, 2e-4)


@case(6)
def density(r):
    D, net, mean, sd, m = make(r)
    v, dv = field(net)
    x = r.vec(D, scale=1.2) * sd + mean
    r.note(x=x)

    def ref(y):
        s = solve(lambda t, u: np.append(v(t, u[:-1]), dv(t, u[:-1])), np.append(y, 0.0), 1.0, 0.0)
        return -0.5 * s[:-1] @ s[:-1] - 0.5 * D * np.log(2 * np.pi) + s[-1]
    out = np.asarray(m.solver.log_prob(jnp.asarray(x), dt=r.choice([0.02, 0.05])))
    check(out.size == 1, 'log density of shape %s', out.shape)
    close(out.ravel(), [ref(x)], 'solver log density', 3e-4)
    out = np.asarray(m.log_prob(jnp.asarray(x)))
    check(out.size == 1, 'log density of shape %s', out.shape)
    close(out.ravel(), [ref((x - mean) / sd) - np.log(sd).sum()], 'model log density', 3e-3)


@case(5)
def consistent(r):
    """the density reported at a draw is the density of the draw (Jacobian of the map from the noise)"""
    D, net, mean, sd, m = make(r)
    v, _ = field(net)
    with REC.record():
        x = np.asarray(m.sample(r.key(), 1, dt=0.02)).reshape(D)
        noise = REC.of('normal', 1)
    z = np.asarray(noise[0][2])[0]
    G = lambda y: solve(v, y, 0.0, 1.0) * sd + mean
    h = 1e-4
    J = np.stack([(G(z + h * e) - G(z - h * e)) / (2 * h) for e in np.eye(D)], 1)
    want = -0.5 * z @ z - 0.5 * D * np.log(2 * np.pi) - np.linalg.slogdet(J)[1]
    close(np.asarray(m.log_prob(jnp.asarray(x))).ravel(), [want], 'log density of a draw', 5e-3)


@case(8)
def paths(r):
    sch = CondOTScheduler()
    for t in (0.0, 1.0, r.random()):
        a, da, s, ds = [float(v) for v in sch(t)]
        h = 1e-6
        p, q = sch(t + h), sch(t - h)
        close(da, (float(p[0]) - float(q[0])) / (2 * h), 'd_alpha', 1e-5)
        close(ds, (float(p[2]) - float(q[2])) / (2 * h), 'd_sigma', 1e-5)
        if t in (0.0, 1.0):
            close([a, s], [t, 1 - t], '(alpha, sigma) at %s' % t)

    class Trig(Scheduler):
        def __call__(self, t):
            return jnp.sin(t * jnp.pi / 2), jnp.pi / 2 * jnp.cos(t * jnp.pi / 2), jnp.cos(t * jnp.pi / 2), -jnp.pi / 2 * jnp.sin(t * jnp.pi / 2)
    D, B = r.int(1, 4), r.int(1, 4)
    x0, x1 = r.vec(B, D), r.vec(B, D)
    t = r.np.uniform(0, 1, (B, 1))
    r.note(D=D, x0=x0, x1=x1, t=t)
    for p in (Path(sch), Path(Trig())):
        x, dx = p.sample(jnp.asarray(x0), jnp.asarray(x1), jnp.asarray(t))
        a, _, s, _ = [np.asarray(v) for v in p.scheduler(jnp.asarray(t))]
        close(x, s * x0 + a * x1, 'point on the path')
        for k in range(B):
            d = jax.jacfwd(lambda u: p.sample(jnp.asarray(x0[k]), jnp.asarray(x1[k]), u)[0])(float(t[k, 0]))
            close(np.asarray(dx)[k], d, 'velocity of row %d' % k)
    for v, e in ((0.0, x0), (1.0, x1)):
        close(Path(sch).sample(jnp.asarray(x0), jnp.asarray(x1), jnp.full((B, 1), v))[0], e, 'end of the path at %s' % v)


@case(8)
def objective(r):
    D, net, mean, sd, m = make(r)
    B = r.int(1, 5)
    x, t, dx = r.vec(B, D), r.np.uniform(0, 1, (B, 1)), r.vec(B, D)
    r.note(B=B)
    val, g = m.loss_fn(jnp.asarray(x), jnp.asarray(t), jnp.asarray(dx))

    def obj(nt):
        e = [nt(jnp.asarray(np.append(x[k], t[k]))) - dx[k] for k in range(B)]
        return sum(jnp.sum(v ** 2) for v in e) / (B * D)
    close(float(val), float(obj(net)), 'loss')
    import equinox as eqx
    w = eqx.filter_grad(obj)(net)
    a, b = jax.tree.leaves(eqx.filter(g.solver.model, eqx.is_array)), jax.tree.leaves(eqx.filter(w, eqx.is_array))
    check(len(a) == len(b), 'gradient structure')
    for p, q in zip(a, b):
        close(p, q, 'gradient of the loss', 1e-6)
