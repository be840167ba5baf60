from rac.common import *
from flowMC.Sampler import Sampler
from flowMC.resource.buffers import Buffer
from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle

ROLES = ('positions', 'log_prob', 'local_accs', 'global_accs')


def leaves(m):
    return [np.asarray(x) for x in jax.tree_util.tree_leaves(m) if hasattr(x, 'shape')]


def same_tree(a, b):
    a, b = leaves(a), leaves(b)
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


class Spy:
    """runs the strategy and hands what it saw before and after to a monitor"""

    def __init__(self, name, st, mon):
        self.__dict__.update(name=name, st=st, mon=mon)

    def __call__(self, key, res, x, data):
        self.mon('before', self.name, res)
        out = self.st(key, res, x, data)
        self.mon('after', self.name, out[1])
        return out

    def __getattr__(self, k):
        return getattr(self.st, k)


def run_bundle(r, pt):
    D, C = r.int(2, 3), r.int(1, 3)
    nl, ng = r.int(1, 4), r.int(1, 4)
    lt, gt = r.int(1, 3), r.int(1, 3)
    nT, nP, E = r.int(1, 3), r.int(1, 3), r.int(1, 2)
    r.note(preset='PT' if pt else 'plain', n_dims=D, n_chains=C, n_local=nl, n_global=ng, local_thinning=lt, global_thinning=gt, n_training=nT, n_production=nP, n_epochs=E)
    f = target(r, D)
    kw = dict(n_temperatures=r.int(2, 4), n_tempered_steps=r.choice([-1, 1, 2]), logprior=lambda x, d: -0.01 * jnp.sum(x ** 2)) if pt else {}
    cls = RQSpline_MALA_PT_Bundle if pt else RQSpline_MALA_Bundle
    b = cls(r.key(), C, D, f, nl, ng, nT, nP, E, mala_step_size=0.3, rq_spline_hidden_units=[4], rq_spline_n_bins=3, rq_spline_n_layers=2,
            batch_size=r.choice([8, 64]), n_max_examples=r.choice([12, 40]), local_thinning=lt, global_thinning=gt, chain_batch_size=r.choice([0, 2]), **kw)
    W = -(-nl // lt) - (-ng // gt)
    for ph, n in (('training', nT), ('production', nP)):
        for role in ROLES:
            sh = (C, n * W) + ((D,) if role == 'positions' else ())
            check(b.resources[role + '_' + ph].data.shape == sh, 'buffer %s has shape %s, not %s', role + '_' + ph, b.resources[role + '_' + ph].data.shape, sh)
    check(b.resources['loss_buffer'].data.shape == (nT * E,), 'the loss buffer has shape %s, not %s', b.resources['loss_buffer'].data.shape, (nT * E,))
    frozen = [k + '_training' for k in ROLES] + ['loss_buffer', 'model', 'optimizer', 'global_sampler'] + (['temperatures'] if pt else [])
    st = {'phase': 'training', 'snap': None, 'trained': None, 'cur': {}, 'calls': [], 'buf': None}

    def content(res, k):
        x = res[k]
        if isinstance(x, Buffer):
            return np.array(x.data)
        if k == 'optimizer':
            return leaves(x.optim_state)
        if k == 'global_sampler':
            return leaves(x.model)
        return leaves(x)

    def eq(a, b):
        if isinstance(a, list):
            return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)

    def mon(when, name, res):
        if when == 'before':
            st['calls'].append(name)
            ph = res['sampler_state'].data['target_positions'].split('_')[-1]
            if ph == 'production' and st['snap'] is None and name in ('local_stepper', 'global_stepper', 'parallel_tempering', 'model_trainer'):
                st['snap'] = {k: content(res, k) for k in frozen}
            if name == 'global_stepper' and ph == 'training':
                check(st['trained'] is not None, 'global steps before any training')
                check(same_tree(res['global_sampler'].model, st['trained']), 'a global step uses a flow other than the one just trained')
            if name in ('local_stepper', 'global_stepper'):
                st['buf'] = {k: np.array(x.data) for k, x in res.items() if isinstance(x, Buffer)}
            return
        if name == 'model_trainer':
            st['trained'] = res['model']
        if st['snap'] is not None:
            for k in frozen:
                check(eq(content(res, k), st['snap'][k]), '%s changed during production (strategy %s)', k, name)
        if name in ('local_stepper', 'global_stepper'):
            ph = res['sampler_state'].data['target_positions'].split('_')[-1]
            L = -(-nl // lt) if name == 'local_stepper' else -(-ng // gt)
            c = st['cur'].get(ph, 0)
            acc = ('local_accs_' if name == 'local_stepper' else 'global_accs_') + ph
            for k, x in res.items():
                if not isinstance(x, Buffer):
                    continue
                new, old = np.array(x.data), st['buf'][k]
                if k in ('positions_' + ph, 'log_prob_' + ph, acc):
                    check(not np.isfinite(old[:, c:c + L]).any(), '%s: slots %d..%d written twice', k, c, c + L - 1)
                    check(new[:, c:c + L].shape[1] == L and np.isfinite(new[:, c:c + L]).all(), '%s: slots %d..%d not all written by %s', k, c, c + L - 1, name)
                    a, z = np.delete(new, slice(c, c + L), axis=1), np.delete(old, slice(c, c + L), axis=1)
                    check(np.array_equal(a, z), '%s: %s wrote outside slots %d..%d', k, name, c, c + L - 1)
                else:
                    check(np.array_equal(new, old, equal_nan=True), '%s changed by %s', k, name)
            st['cur'][ph] = c + L

    b.strategies = {k: Spy(k, v, mon) for k, v in b.strategies.items()}
    s = Sampler(D, C, r.key(), resource_strategy_bundles=b)
    s.sample(jnp.asarray(r.vec(C, D)), {'scale': 1.0})
    res = s.resources
    check(st['cur'] == {'training': nT * W, 'production': nP * W}, 'segments end at %s', st['cur'])
    for ph in ('training', 'production'):
        for role in ('positions', 'log_prob'):
            check(np.isfinite(np.asarray(res[role + '_' + ph].data)).all(), 'unfilled slots in %s', role + '_' + ph)
        a, g = (np.isfinite(np.asarray(res[k + '_accs_' + ph].data)) for k in ('local', 'global'))
        check((a ^ g).all(), 'a slot without (or with two) acceptance flags in the %s buffers', ph)
    check(not np.isneginf(np.asarray(res['loss_buffer'].data)).any(), 'unfilled losses: %s', np.asarray(res['loss_buffer'].data))
    check(st['calls'].count('model_trainer') == nT, '%d trainings', st['calls'].count('model_trainer'))


@case(2)
def plain(r):
    run_bundle(r, False)


@case(2)
def tempered(r):
    run_bundle(r, True)
