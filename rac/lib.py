"""Runtime assertion checking of the contracts on the real code (bounded, never counted as proved)."""
import os
import sys
import random
import time
import traceback
import io
import contextlib
import zlib


class Fail(Exception):
    """a contract is violated by the real code on this input"""


class Skip(Exception):
    """the contract cannot be monitored here (nothing is concluded)"""


CASES = []


def case(n=4, slow=False):
    def deco(f):
        CASES.append((f.__name__, f, n, slow))
        return f
    return deco


class Rng(random.Random):
    def __init__(self, seed):
        super().__init__(seed)
        import numpy as np
        self.np = np.random.RandomState(seed % (2 ** 32))
        self.notes = {}

    def note(self, **kw):
        for k, v in kw.items():
            self.notes[k] = describe(v)
        return list(kw.values())[0] if len(kw) == 1 else None

    def key(self):
        import jax
        s = self.randrange(2 ** 31)
        self.notes.setdefault('jax_seeds', []).append(s)
        return jax.random.PRNGKey(s)

    def vec(self, *shape, scale=1.0):
        return self.np.randn(*shape) * scale

    def int(self, a, b):
        return self.randint(a, b)


def describe(v):
    try:
        import numpy as np
        a = np.asarray(v)
        if a.dtype == object:
            return repr(v)[:300]
        if a.size <= 64:
            return a.tolist()
        return 'array of shape %s, first entries %s' % (a.shape, a.ravel()[:8].tolist())
    except Exception:
        return repr(v)[:300]


def check(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


def close(a, b, what, tol=1e-6, atol=None):
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Fail('%s: shapes %s and %s' % (what, a.shape, b.shape))
    atol = tol if atol is None else atol
    ok = np.isclose(a, b, rtol=tol, atol=atol, equal_nan=True)
    if not ok.all():
        i = tuple(int(x[0]) for x in np.where(~np.atleast_1d(ok)))
        raise Fail('%s: %r is not the expected %r (first difference at %s)' % (what, np.atleast_1d(a)[i].item(), np.atleast_1d(b)[i].item(), i))


def same(a, b, what):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Fail('%s: shapes %s and %s' % (what, a.shape, b.shape))
    ok = (a == b) | ((a != a) & (b != b))
    if not np.all(ok):
        i = tuple(int(x[0]) for x in np.where(~np.atleast_1d(ok)))
        raise Fail('%s: %r is not %r (first difference at %s)' % (what, np.atleast_1d(a)[i].item(), np.atleast_1d(b)[i].item(), i))


# ------------------------------------------------------------------ recorded draws
class Recorder:
    """records the concrete results of jax.random calls (installed before flowMC is imported)"""
    NAMES = ['normal', 'uniform', 'multivariate_normal', 'choice', 'permutation', 'exponential', 'randint', 'categorical', 'bernoulli', 'gumbel', 'shuffle', 'truncated_normal']

    def __init__(self):
        self.on = False
        self.log = []
        self.depth = 0
        self.force = {}

    def install(self):
        import jax
        import jax.random as jr
        import functools
        for n in self.NAMES:
            if not hasattr(jr, n):
                continue
            orig = getattr(jr, n)

            @functools.wraps(orig)
            def f(*a, __n=n, __o=orig, **k):
                if not self.on or self.depth:
                    return __o(*a, **k)
                self.depth += 1
                try:
                    r = __o(*a, **k)
                    if __n in self.force:
                        r = self.force[__n](r)
                finally:
                    self.depth -= 1
                self.log.append((__n, a[0] if a else k.get('key'), r, a, k))
                return r
            setattr(jr, n, f)

    @contextlib.contextmanager
    def record(self, **force):
        self.on, self.log, self.force = True, [], force
        try:
            yield self
        finally:
            self.on, self.force = False, {}

    def of(self, kind, n=None):
        out = [x for x in self.log if x[0] == kind]
        import jax
        for x in out:
            if isinstance(x[2], jax.core.Tracer):
                raise Skip('%s drawn under tracing' % kind)
        if n is not None and len(out) != n:
            raise Skip('expected %d %s draws, saw %d' % (n, kind, len(out)))
        return out


REC = Recorder()
REPO = os.environ.get('VERIF_REPO', '/repo')


def in_repo(tb):
    """the exception was raised at or below a frame of the code under check"""
    src = os.path.realpath(REPO) + '/src/'
    frames = traceback.extract_tb(tb)
    here = os.path.dirname(os.path.abspath(__file__))
    last_h = max([i for i, f in enumerate(frames) if f.filename.startswith(here)], default=-1)
    return any(os.path.realpath(f.filename).startswith(src) for f in frames[last_h + 1:])


def seed_of(base, name, k):
    return zlib.crc32(('%s/%s/%d' % (base, name, k)).encode())


def run_case(f, seed):
    """-> (status, message, notes)"""
    r = Rng(seed)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            f(r)
        return 'ok', '', r.notes
    except Skip as e:
        return 'skip', str(e), r.notes
    except Fail as e:
        return 'fail', str(e), r.notes
    except Exception as e:
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        if in_repo(e.__traceback__):
            return 'fail', 'the code raises %s: %s\n%s' % (type(e).__name__, str(e)[:400], tb[-1500:]), r.notes
        return 'skip', 'harness: %s: %s\n%s' % (type(e).__name__, str(e)[:300], tb[-1200:]), r.notes
