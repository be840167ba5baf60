from rac.c06 import *
from rac.c04 import local_kernel, stub
from flowMC.resource.kernel.NF_proposal import NFProposal
lib.CASES.clear()


def run(r, C, D, N, kern, group, B, key, x, f, data):
    r2 = lib.Rng(1)
    res, _ = setup(r2, C, D, N, kern, f)
    st = (TakeGroupSteps if group else TakeSerialSteps)('logpdf', 'kern', 'st', ['P', 'L', 'A'], N, chain_batch_size=B)
    k, res, last = st(key, res, x, data)
    return [np.asarray(res[b].data) for b in 'pla'] + [np.asarray(last), np.asarray(k)]


def kern_for(r, group, D):
    if group:
        return NFProposal(stub(r, D), r.int(1, 4))
    return RandKernel() if r.random() < 0.4 else local_kernel(r, D)


@case(6)
def batching(r):
    C, D, N = r.int(2, 7), r.int(1, 2), r.int(1, 4)
    group = r.random() < 0.4
    f = target(r, D)
    kern = kern_for(r, group, D)
    key, x = r.key(), jnp.asarray(r.vec(C, D))
    f, data = rich(r, f, {}, C, D, N)
    ref = run(r, C, D, N, kern, group, 0, key, x, f, data)
    for B in sorted({1, 2, 3, C - 1, C, C + 2}):
        if B < 1:
            continue
        r.note(chains=C, steps=N, group=group, batch=B)
        got = run(r, C, D, N, kern, group, B, key, x, f, data)
        for a, b, n in zip(got, ref, ('positions', 'log densities', 'acceptances', 'last position', 'key')):
            close(a, b, '%s with chain batches of %d against all at once' % (n, B), 1e-9)


@case(6)
def other_chains_do_not_matter(r):
    C, D, N = r.int(2, 5), r.int(1, 2), r.int(1, 4)
    group = r.random() < 0.4
    B = r.choice([0, 2, 3])
    f = target(r, D)
    kern = kern_for(r, group, D)
    key, x = r.key(), r.vec(C, D)
    f, data = rich(r, f, {}, C, D, N)
    c = r.randrange(C)
    y = x.copy()
    y[c] += r.choice([1.0, np.nan])
    r.note(chains=C, steps=N, group=group, batch=B, perturbed_chain=c)
    a = run(r, C, D, N, kern, group, B, key, jnp.asarray(x), f, data)
    b = run(r, C, D, N, kern, group, B, key, jnp.asarray(y), f, data)
    keep = [k for k in range(C) if k != c]
    for u, v, n in zip(a[:4], b[:4], ('positions', 'log densities', 'acceptances', 'last position')):
        same(u[keep], v[keep], '%s of the other chains' % n)


@case(2)
def chains_use_different_keys(r):
    C, D, N = 4, 1, 3
    x = jnp.asarray(np.tile(r.vec(1, D), (C, 1)))
    a = run(r, C, D, N, RandKernel(), False, r.choice([0, 2]), r.key(), x, lambda y, d: -0.5 * jnp.sum(y * y), {})
    for i in range(C):
        for j in range(i):
            check(not np.allclose(a[0][i], a[0][j]), 'chains %d and %d share their noise', i, j)
