"""C28 benchmark forecasters: forecasts recomputed by indexing the history, residual quantiles recomputed row by row."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D
from rv import models as M

PROP = 'C28'
RULE = ('one case = series, horizon, season (shorter or longer than the horizon), validation ratio, conditioning; forecasts are recomputed by '
        'indexing the concatenated history, later observations are replaced to detect look-ahead; non-trivial: noisy series, horizon > 1')
REQUIRED = {'persistent': 40, 'seasonal': 40, 'residual_quantiles': 80, 'quantiles': 80, 'no_look_ahead': 80, 'horizon_over_season': 8}
QUICK_S = 200


def case(m, rng, tier):
    from pyforecaster.forecasting_models.benchmarks import Persistent, SeasonalPersistent
    kind = ['persistent', 'seasonal'][rng.integers(2)]
    n = int(rng.integers(250, 600))
    idx = D.index(rng, n, step=['1h', '30min', '1h', '15min'][rng.integers(4)], tz=[None, 'UTC', 'Europe/Zurich'][rng.integers(3)])
    cols = ['y', 'b'] if rng.random() < 0.5 else ['b', 'y']
    df = D.signals(rng, idx, cols)
    n_tr = n - int(rng.integers(20, 60))
    tr, te = df.iloc[:n_tr], df.iloc[n_tr:]
    n_sa = int(rng.integers(1, 15))
    s = int(rng.integers(1, 30))
    vr = [None, 0.3, 0.6][rng.integers(3)]
    cond = bool(rng.random() < 0.5)
    qv = M.q_vect(rng)
    kw = dict(n_sa=n_sa, q_vect=qv, val_ratio=vr, conditional_to_hour=cond)
    f = Persistent('y', **kw) if kind == 'persistent' else SeasonalPersistent('y', seasonality=s, **kw)
    tr0 = tr.copy()
    f.fit(tr)
    m.check(tr.equals(tr0), 'data-modified', 'fit')
    tag = '%s season %s horizon %d val=%s cond=%s' % (kind, s, n_sa, vr, cond)
    y = df['y'].values

    def ref(i):       # forecast of the row at absolute position i
        if kind == 'persistent':
            return np.repeat(y[i], n_sa)
        return np.array([y[i + k - s * int(np.ceil(k / s))] for k in range(1, n_sa + 1)])

    te0 = te.copy()
    p = f.predict(te)
    m.check(te.equals(te0), 'data-modified', 'predict')
    m.check(p.index.equals(te.index) and p.shape == (len(te), n_sa), 'rows', '%s: %s' % (tag, p.shape))
    R = np.array([ref(n_tr + i) for i in range(len(te))])
    m.close(p.values, R, 'past-values', tag, event=kind)
    if kind == 'seasonal' and n_sa > s:
        m.ev('horizon_over_season')
    # later observations do not matter
    c = int(rng.integers(1, len(te)))
    te2 = te.copy()
    te2.iloc[c:] = rng.normal(50, 10, te2.iloc[c:].shape)
    m.close(f.predict(te2).values[:c], R[:c], 'no-look-ahead', tag, event='no_look_ahead')
    # row-wise repetition and other columns
    te3 = te.copy()
    te3['b'] = 0.0
    m.close(f.predict(te3).values, R, 'other-columns', tag)
    # residuals over the validation rows whose history and future are known
    k0, _ = M.split(n_tr, vr)
    first = (s if kind == 'seasonal' else 0) if vr is None else k0
    rows = np.arange(first, n_tr - n_sa)
    res = np.array([y[i + 1:i + 1 + n_sa] - ref(i) for i in rows])
    hours = np.asarray(idx.hour)[rows]
    taus = np.asarray(f.q_vect, dtype=float)
    e = f.err_distr
    if cond:
        want = M.residual_quantiles(res, hours, taus, True, np.arange(24))
        got = np.stack([np.asarray(e[h]) for h in range(24)])
    else:
        want, got = np.quantile(res, taus, axis=0).T, np.asarray(e)
    m.close(got, want, 'residual-quantiles', tag, event='residual_quantiles')
    q = f.predict_quantiles(te)
    at = np.asarray(te.index.hour)
    Q = R[:, :, None] + M.residual_quantiles(res, hours, taus, cond, at)
    m.check(q.index.equals(te.index), 'rows', tag)
    m.close(q.values.reshape(Q.shape), Q, 'quantiles', tag)
    m.check([c[0] for c in q.columns[::len(taus)]] == list(p.columns) and np.allclose([c[1] for c in q.columns[:len(taus)]], taus), 'labels',
            '%s: %s vs %s' % (tag, list(q.columns)[:3], list(p.columns)[:3]))
    if n_sa > 1:
        m.nontrivial(kind, s if kind == 'seasonal' else 0, n_sa, vr, cond, n)
    m.say(kind=kind, season=s, horizon=n_sa, val_ratio=vr, conditional=cond, rows=n)


WORKLOADS = [W('benchmarks', case, 260, 2500)]
