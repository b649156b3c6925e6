"""Random neural forecasters (JAX) shared by the neural checks."""
import contextlib
import io
import os
import tempfile
import numpy as np
import pandas as pd
from rv import models as M


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


def clear():
    try:
        import jax
        jax.clear_caches()
    except Exception:
        pass


def data(rng, T=None, k=None, n=None, hours=None):
    """features and targets in uneven units"""
    x, y = M.dataset(rng, n=n or int(rng.integers(120, 260)), T=T, k=k or int(rng.integers(3, 6)), all_hours=hours)
    y.columns = ['tgt_%d' % i for i in range(y.shape[1])]
    x = x * rng.choice([0.1, 1.0, 20.0], x.shape[1]) + rng.uniform(-3, 3, x.shape[1])
    y = y * float(rng.choice([0.1, 1.0, 30.0])) + float(rng.uniform(-50, 50))
    return x, y


def train_kw(rng):
    return dict(n_epochs=int(rng.integers(1, 4)), batch_size=int(rng.choice([16, 32, 60])), stats_step=int(rng.integers(1, 6)),
                learning_rate=float(rng.choice([1e-3, 1e-2, 1e-1])), rel_tol=float(rng.choice([-1, -1e9, 1e-4])), stopping_rounds=int(rng.choice([2, 50])),
                n_hidden_x=int(rng.integers(3, 12)), n_layers=int(rng.integers(2, 4)))


def jobjective(y, c):
    import jax.numpy as jnp
    return jnp.mean(y ** 2)


def cls(name):
    from pyforecaster.forecasting_models.neural_models import base_nn, ICNN, INN
    for m in (base_nn, ICNN, INN):
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


def subset(rng, names, lo=1, hi=None):
    hi = hi or len(names)
    k = int(rng.integers(lo, hi + 1))
    return [str(c) for c in rng.permutation(np.asarray(names, dtype=object))[:k]]


def convex_settings(rng, x, y, name):
    """constructor settings of a partially input-convex network and what they imply"""
    T = y.shape[1]
    kw = dict(train_kw(rng), n_out=T)
    opt = subset(rng, list(x.columns), 1, x.shape[1] - 1)
    kw.update(optimization_vars=opt, n_latent=int(rng.integers(1, 6)), init_type=['normal', 'uniform'][rng.integers(2)],
              augment_ctrl_inputs=bool(rng.random() < 0.4), inverter_learning_rate=float(rng.choice([1e-2, 1e-1, 1.0])),
              normalize_target=bool(rng.random() < 0.7), subtract_mean_when_normalizing=bool(rng.random() < 0.5),
              val_ratio=[None, 0.3][rng.integers(2)])
    if rng.random() < 0.4:
        kw['unnormalized_inputs'] = list(opt) if rng.random() < 0.7 else list(x.columns)
    if name == 'StructuredPICNN':
        kw['objective_fun'] = jobjective
    if name in ('PICNN', 'PIQCNNSigmoid', 'RecStablePICNN') and rng.random() < 0.3:
        lo = rng.uniform(-3, -0.5, T)
        kw.update(z_min=lo, z_max=lo + rng.uniform(0.5, 4, T))
    if name in ('PICNN', 'PIQCNNSigmoid', 'RecStablePICNN') and rng.random() < 0.3:
        kw.update(probabilistic=True, probabilistic_loss_kind=['crps', 'maximum_likelihood'][rng.integers(2)])
    if name == 'PICNN' and rng.random() < 0.25:
        kw['causal_df'] = pd.DataFrame(rng.integers(0, 2, (len(opt), T)), index=opt, columns=y.columns)
    if name == 'LatentStructuredPICNN':
        kw.update(n_encoder_layers=int(rng.integers(1, 4)), n_decoder_layers=int(rng.integers(1, 4)), n_embeddings=int(rng.integers(2, 6)))
        if rng.random() < 0.3:
            kw['n_latent'] = None
    return kw


def fit(m, x, y, seed, **k):
    np.random.seed(seed)
    return quiet(m.fit, x.copy(), y.copy(), **k)


@contextlib.contextmanager
def scratch():
    import shutil
    d = tempfile.mkdtemp(prefix='rv_nn_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


ALL = ['NN', 'FFNN', 'FFNN', 'LSTMNN', 'PICNN', 'PICNN', 'RecStablePICNN', 'PIQCNN', 'PIQCNNSigmoid', 'StructuredPICNN', 'LatentStructuredPICNN',
       'CausalInvertibleNN']


def any_settings(rng, x, y, name, q=None):
    T, k = y.shape[1], x.shape[1]
    if name in ('NN', 'FFNN', 'LSTMNN'):
        kw = dict(train_kw(rng), n_out=T, normalize_target=bool(rng.random() < 0.75), val_ratio=[None, 0.3][rng.integers(2)],
                  subtract_mean_when_normalizing=bool(rng.random() < 0.5))
        if rng.random() < 0.3:
            kw['unnormalized_inputs'] = subset(rng, list(x.columns))
        if name == 'FFNN':
            kw.update(split_heads=bool(rng.random() < 0.4), skip_connection=bool(rng.random() < 0.4))
            if rng.random() < 0.3:
                kw['selector'] = rng.integers(0, k, T)
        if name == 'LSTMNN':
            kw['n_layers'] = 2
    elif name == 'CausalInvertibleNN':
        kw = dict(learning_rate=1e-3, batch_size=32, n_layers=int(rng.integers(1, 4)), n_epochs=int(rng.integers(1, 3)), rel_tol=-1, stats_step=5,
                  n_prediction_layers=2, n_hidden_y=int(rng.integers(4, 10)), val_ratio=[None, 0.3][rng.integers(2)], n_in=k, n_out=T, end_to_end='full')
        ex = subset(rng, list(x.columns))[:max(0, k - T - 1)]
        if ex and rng.random() < 0.5:
            kw['names_exogenous'] = ex
    else:
        kw = convex_settings(rng, x, y, name)
        if name == 'StructuredPICNN':
            kw['normalize_target'] = False
            kw['probabilistic'] = True
        if name == 'PIQCNN':
            for c in ('z_min', 'z_max', 'probabilistic'):
                kw.pop(c, None)
    kw['q_vect'] = q if q is not None else np.sort(rng.choice(np.arange(1, 100), int(rng.integers(3, 8)), replace=False)) / 100
    kw['conditional_to_hour'] = bool(rng.random() < 0.6)
    return kw


def loader(name, kw):
    """what a user has to repeat when loading: functions are not stored, the invertible network checks its sizes"""
    k = {}
    if name == 'StructuredPICNN':
        k['objective_fun'] = kw['objective_fun']
    if name == 'CausalInvertibleNN':
        k.update(n_in=kw['n_in'], n_out=kw['n_out'])
    return k


def fitted(name, kw, x, y, seed, **k):
    m = cls(name)(**kw)
    fit(m, x, y, seed, **k)
    return m
