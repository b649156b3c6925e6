"""Forecaster zoo and regression datasets shared by the forecaster checks."""
import numpy as np
import pandas as pd
from rv import data as D


def dataset(rng, n=None, T=None, k=None, step='1h', tz='rand', noise=1.0, all_hours=None):
    """features x (k columns), targets y (T columns) on a DatetimeIndex; noise depends on the hour."""
    k = k or int(rng.integers(2, 5))
    T = T or int(rng.integers(1, 5) if rng.random() < 0.92 else rng.integers(5, 13))
    n = n or int(rng.integers(150, 320) if rng.random() < 0.94 else rng.integers(320, 1000))
    idx = D.index(rng, n, step=step, tz=tz)
    if rng.random() < 0.3:
        idx = idx + pd.Timedelta(int(rng.choice([5, 20, 40, 59])), unit='min')      # rows off the full hour
    if all_hours is False:
        keep = ~np.isin(idx.hour, rng.choice(24, size=int(rng.integers(1, 12)), replace=False))
        idx = idx[keep]
        n = len(idx)
    x = pd.DataFrame(rng.normal(0, 1, (n, k)), index=idx, columns=['f%d' % i for i in range(k)])
    w = rng.normal(0, 1, (k, T))
    sd = (0.1 + rng.uniform(0, 1, 24))[np.asarray(idx.hour)]
    y = x.values @ w + 0.3 * np.sin(x.values[:, [0]] * 2) + noise * sd[:, None] * rng.normal(0, 1, (n, T)) + \
        noise * 0.5 * np.cos(np.asarray(idx.hour) / 24 * 6.28)[:, None] + rng.normal(0, 5)
    y = pd.DataFrame(y, index=idx, columns=['tgt_%d' % i for i in range(T)] if rng.random() < 0.7 else list(range(T)))
    return x, y


def q_vect(rng):
    k = rng.integers(4)
    if k == 0:
        return None
    if k == 1:
        return np.round(np.linspace(0.05, 0.95, int(rng.integers(2, 12 if rng.random() < 0.7 else 25))), 4)
    if k == 2:
        return np.sort(rng.choice(np.arange(1, 100), int(rng.integers(2, 9)), replace=False)) / 100
    return np.arange(11) / 10


NAMES = ['linear', 'lgb', 'hybrid', 'energy', 'qrf', 'rff', 'arff']
RESIDUAL = [n for n in NAMES if n != 'qrf']
SEEDED = ['hybrid', 'rff', 'arff']     # draw from the global numpy generator at fit


def settings(rng, name, T):
    """random constructor settings of a model (JSON-like dict)."""
    s = {}
    if name == 'linear':
        s['kind'] = ['linear', 'ridge'][rng.integers(2)]
    if name in ('lgb', 'hybrid', 'energy'):
        s.update(n_estimators=int(rng.integers(5, 15)), num_leaves=int(rng.integers(3, 9)), min_child_samples=int(rng.integers(3, 10)),
                 learning_rate=float(rng.choice([0.1, 0.3])), n_jobs=1)
    if name == 'lgb':
        s['n_jobs_predict'] = 1
        s['objective'] = ['regression', 'regression', 'regression_l1', 'huber'][rng.integers(4)]
    if name == 'hybrid':
        s['n_single'] = int(rng.integers(0, T + 1))
        s['red_frac_multistep'] = float(rng.choice([0.5, 1.0]))
    if name == 'energy':
        s['n_single'] = T
    if name == 'qrf':
        s.update(n_estimators=int(rng.integers(5, 12)), n_single=int(rng.integers(0, T + 1)), parallel=False,
                 random_state=int(rng.integers(100)), max_depth=int(rng.integers(3, 7)))
    if name in ('rff', 'arff'):
        s.update(dim_kernel=int(rng.integers(4, 20)), std_kernel=float(rng.choice([0.1, 0.5])))
    if name == 'arff':
        s['n_models'] = int(rng.integers(1, 4))
    return s


def make(name, **kw):
    from pyforecaster.forecaster import LinearForecaster, LGBForecaster
    from pyforecaster.forecasting_models.gradientboosters import LGBMHybrid, LGBEnergyAware
    from pyforecaster.forecasting_models.randomforests import QRF
    from pyforecaster.forecasting_models.random_fourier_features import RFFRegression, AdditiveRFFRegression
    c = dict(linear=LinearForecaster, lgb=LGBForecaster, hybrid=LGBMHybrid, energy=LGBEnergyAware, qrf=QRF, rff=RFFRegression,
             arff=AdditiveRFFRegression)[name]
    return c(**kw)


def fit(name, x, y, seed=0, **kw):
    f = make(name, **kw)
    np.random.seed(seed)
    f.fit(x, y)
    return f


def split(n, ratio):
    """reference split: index of the first held-out row, held-out slice"""
    if ratio is None:
        return n, slice(0, n)
    k = n - int(n * ratio)
    return k, slice(k, n)


def residual_quantiles(res, hours, q, conditional, at_hours):
    """reference residual quantiles for rows at hours `at_hours`: (rows, T, Q)"""
    res = np.asarray(res)
    if conditional and len(np.unique(hours)) == 24:
        tab = {h: np.quantile(res[hours == h], q, axis=0).T for h in range(24)}
        return np.stack([tab[h] for h in at_hours])
    return np.repeat(np.quantile(res, q, axis=0).T[None], len(at_hours), 0)
