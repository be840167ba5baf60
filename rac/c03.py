from rac.common import *
import equinox as eqx
from flowMC.resource.kernel.NF_proposal import NFProposal

LOG = []


class StubFlow(eqx.Module):
    """a flow whose samples are recorded; its log density is any function (it need not be normalised)"""
    shift: jax.Array
    scale: jax.Array
    n: int = eqx.field(static=True)

    @property
    def n_features(self):
        return self.n

    def log_prob(self, x):
        y = (x - self.shift) / self.scale
        return -0.5 * jnp.sum(y * y) - jnp.sum(jnp.log(jnp.abs(self.scale))) - 0.1 * jnp.sum(jnp.cos(x))

    def sample(self, rng_key, n_samples):
        s = jax.random.normal(rng_key, (n_samples, self.n)) * self.scale + self.shift
        LOG.append((rng_key, s))
        return s


def independent(r, n, B, forced=None, far=1.0):
    D = r.int(1, 3)
    f = target(r, D)
    data = {'scale': r.choice([1.0, 0.6])}
    x = r.vec(D, scale=far)
    f, data = rich(r, f, data, n, B, D)
    flow = StubFlow(jnp.asarray(r.vec(D, scale=0.3)), jnp.asarray(r.np.uniform(0.6, 1.6, D) * far), D)
    key = r.key()
    r.note(D=D, x=x, n_steps=n, batch=B)
    kern = NFProposal(flow, n_NFproposal_batch_size=B)
    if r.random() < 0.3:
        # the kernel has been used before
        r.note(later_call=True)
        with jax.disable_jit():
            kern.kernel(r.key(), jnp.asarray(r.vec(D)), jnp.asarray(0.3), wrapped(r, f, D), {**data, 'n_steps': n})
    lp = f(jnp.asarray(x), data)
    del LOG[:]
    force = {'uniform': forced} if forced else {}
    with jax.disable_jit():
        with REC.record(**force):
            P, LP, A = kern.kernel(key, jnp.asarray(x), lp, wrapped(r, f, D), {**data, 'n_steps': n})
        us = [float(v) for a in REC.of('uniform') for v in np.ravel(a[2])]
    if any(isinstance(s, jax.core.Tracer) for _, s in LOG):
        raise Skip('flow sampled under tracing')
    prop = np.concatenate([np.asarray(s) for _, s in LOG])
    check(np.shape(P) == (n, D) and np.shape(LP) == (n,) and np.shape(A) == (n,), 'outputs of shapes %s %s %s', np.shape(P), np.shape(LP), np.shape(A))
    if len(us) > n:
        raise Skip('%d uniforms drawn for %d tests' % (len(us), n))
    if len(us) < n:
        raise Fail('%d uniforms drawn for %d tests' % (len(us), n))
    check(len(prop) >= n, 'only %d proposals drawn for %d steps', len(prop), n)
    check(len({np.asarray(k).tobytes() for k, _ in LOG}) == len(LOG), 'two batches of proposals drawn with the same key')
    cur, l, q = np.array(x), val(f, x, data), float(flow.log_prob(jnp.asarray(x)))
    for k in range(n):
        y = prop[k]
        ly, qy = val(f, y, data), float(flow.log_prob(jnp.asarray(y)))
        ratio = (ly - l) - (qy - q)
        lu = np.log(us[k]) if us[k] > 0 else -np.inf
        if abs(lu - ratio) < 1e-7:
            return
        if lu < ratio:
            cur, l, q = y, ly, qy
        check(bool(A[k]) == bool(lu < ratio), 'step %d of %d (batch %d): flag %s but log u = %.6g, log ratio %.6g', k, n, B, bool(A[k]), lu, ratio)
        close(P[k], cur, 'state %d of %d (batch %d)' % (k, n, B), 1e-8)
        close(LP[k], l, 'log density %d' % k, 1e-7)


@case(5)
def nf_one_batch(r):
    independent(r, r.int(1, 6), 50)


@case(8)
def nf_many_batches(r):
    B = r.int(1, 4)
    independent(r, r.int(B + 1, 3 * B + 2), B)


@case(4)
def nf_exact_batches(r):
    B = r.int(1, 4)
    independent(r, B * r.int(1, 3), B)


@case(4)
def nf_accept_all(r):
    B = r.int(2, 4)
    independent(r, r.int(1, 9), B, forced=lambda u: jnp.full_like(u, 1e-300))


@case(5)
def nf_far_away(r):
    """a wide flow and a start in the tail: large log density differences of either sign"""
    B = r.int(2, 4)
    independent(r, r.int(1, 9), B, forced=r.choice([None, lambda u: jnp.full_like(u, 1e-300)]), far=r.choice([5.0, 12.0, 100.0]))


@case(2)
def nf_real_flow(r):
    """with a real flow: jitted run equals the oracle fed with the recorded states"""
    D = r.int(1, 2)
    m = tiny_flow(r, D, 1, scale=0.3)
    f = target(r, D)
    x = jnp.asarray(r.vec(D))
    n, B = r.int(2, 5), r.int(1, 6)
    r.note(n_steps=n, batch=B)
    kern = NFProposal(m, n_NFproposal_batch_size=B)
    P, LP, A = jax.jit(lambda k, y: kern.kernel(k, y, f(y, {}), f, {'n_steps': n}))(r.key(), x)
    prev = np.asarray(x)
    for k in range(n):
        close(LP[k], val(f, P[k], {}), 'log density at state %d' % k, 1e-6)
        if not bool(A[k]):
            same(P[k], prev, 'rejected state %d' % k)
        else:
            check(not np.array_equal(np.asarray(P[k]), prev), 'accepted state %d did not move', k)
        prev = np.asarray(P[k])
