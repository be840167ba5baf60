from rac.common import *
from flowMC.Sampler import Sampler


class Probe:
    """a strategy that records what it received and returns fresh key, resources and positions"""

    def __init__(self, name, log, keep=False):
        self.name, self.log, self.keep = name, log, keep

    def __call__(self, rng_key, resources, initial_position, data):
        x = jnp.asarray(initial_position) * 1.5 + 1.0
        k = jax.random.split(rng_key)[0]
        res = resources if self.keep else dict(resources, **{'n%d' % len(self.log): self.name})
        self.log.append((self.name, (rng_key, resources, initial_position, data), (k, res, x)))
        return k, res, x


@case(25)
def runs_in_order(r):
    D, C = r.int(1, 3), r.int(1, 4)
    log = []
    names = ['a', 'b', 'c', 'd']
    strat = {n: Probe(n, log, r.random() < 0.3) for n in names}
    order = [r.choice(names) for _ in range(r.int(0, 6))]
    at = None
    if r.random() < 0.4:
        at = r.int(0, len(order))
        order.insert(at, r.choice(['zz', 'A', '']))
    r.note(order=order)
    x0 = jnp.asarray(r.vec(D) if r.random() < 0.3 else r.vec(C, D))
    data = r.choice([{'d': 1}, {}, None, {'y': jnp.ones(3)}])
    key, res = r.key(), {'start': 0}
    how = r.choice(['explicit', 'both', 'preset'])
    r.note(how=how)

    class B:
        pass
    b = B()
    kw = {}
    if how != 'preset':
        kw = dict(resources=res, strategies=strat, strategy_order=list(order))
    if how == 'preset':
        b.resources, b.strategies, b.strategy_order = res, strat, list(order)
    else:
        b.resources, b.strategies, b.strategy_order = {'bundle': 1}, {'q': Probe('bundle', log)}, ['q']
    if how != 'explicit':
        kw['resource_strategy_bundles'] = b
    s = Sampler(D, C, key, **kw)
    err = None
    try:
        s.sample(x0, data)
    except Exception as e:
        err = e
    exp = order if at is None else order[:at]
    check([e[0] for e in log] == exp, 'ran %s instead of %s', [e[0] for e in log], exp)
    if (err is None) != (at is None):
        if err is not None:
            raise err
        raise Fail('an unknown strategy name did not raise an error')
    cur = (key, res, jnp.atleast_2d(x0))
    for n, got, ret in log:
        same(got[0], cur[0], 'key received by ' + n)
        check(got[1] is cur[1], 'resources received by %s', n)
        same(got[2], cur[2], 'positions received by ' + n)
        check(got[3] is data, 'data received by %s', n)
        cur = ret
    if err is None:
        check(s.resources is cur[1], 'the sampler does not keep the final resources')


@case(6)
def sources(r):
    class B:
        pass
    b = B()
    b.resources, b.strategies, b.strategy_order = {'r': 1}, {'s': 2}, ['s']
    key = r.key()
    R, T, O = r.choice([({'x': 1}, {'y': 2}, ['y']), ({}, {}, []), ({}, {'y': 2}, ['y'])])
    s = Sampler(2, 2, key, resources=R, strategies=T, strategy_order=O, resource_strategy_bundles=b)
    check(s.resources is R and s.strategies is T and s.strategy_order is O, 'the preset took precedence over explicit resources and strategies')
    for kw in ({}, {'resources': R}, {'strategies': T, 'strategy_order': O}):
        s = Sampler(2, 2, key, resource_strategy_bundles=b, **kw)
        check(s.resources is b.resources and s.strategies is b.strategies and s.strategy_order is b.strategy_order, 'the preset was not used')
        try:
            Sampler(2, 2, key, **kw)
        except Exception:
            continue
        raise Fail('no error without resources, strategies and preset')
