"""Abstract collaborators used by the contracts of their callers (only their contract is known)."""
from . import ir, arr, fakes
from .arr import Arr, asarr, D, dT, lam_of
from .fakes_eqx import Module


class AbsFlow(Module):
    """Any flow model: one opaque parameter value `u`; density and sampler are functions of it.

    contract: log_prob(x) = flowlp(x, u); sample(key, n) row k = flow.sample(key, n, k, u)."""

    def __init__(self, u, n_features):
        self.u = u
        self._nf = n_features

    @property
    def n_features(self):
        return self._nf

    def log_prob(self, x):
        x = asarr(x)
        if x.ndim != 1:
            raise TypeError('log_prob takes one point')
        lx, u = lam_of(x), asarr(self.u).term()
        return Arr((), lambda: ir.app('flowlp', 'R', lx, u), 'f')

    def sample(self, rng_key=None, n_samples=None, **kw):
        if rng_key is None:
            rng_key = kw['rng_key']
        k = fakes.use_key(rng_key)
        n = D(n_samples)
        u = asarr(self.u).term()
        return Arr((n, D(self._nf)), lambda r, i: ir.app('flow.sample', 'R', k, dT(n), r, i, u), 'f')

    def __call__(self, *a, **k):
        raise fakes.Unsupported('forward of an abstract flow')

    def __repr__(self):
        return 'AbsFlow'


def flow(s, D_, name='u'):
    return AbsFlow(s.obj(name), D_)
