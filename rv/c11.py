"""C11 held-out rows: two-run non-interference between held-out targets and point forecasts, reference split."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import models as M

PROP = 'C11'
RULE = ('one case = forecaster x dataset x validation ratio; two fits that differ only in held-out targets (or only in training '
        'targets); non-trivial: the perturbation changes the quantiles (respectively the point forecasts)')
REQUIRED = {'heldout_perturbed': 60, 'quantiles_moved': 15, 'training_matters': 30, 'same_as_training_only': 30, 'heldout_features': 30, 'splits': 200}
QUICK_S = 200


def case(m, rng, tier):
    name = M.NAMES[int(rng.integers(len(M.NAMES)))]
    x, y = M.dataset(rng)
    kw = M.settings(rng, name, y.shape[1])
    vr = float(rng.choice([0.1, 0.25, 0.4, 0.5, 0.77]))
    k, v = M.split(len(x), vr)
    g = int(rng.integers(1e6))
    kw.update(val_ratio=vr, conditional_to_hour=bool(rng.random() < 0.5))
    tag = '%s val_ratio=%s rows=%d %s' % (name, vr, len(x), kw)
    xt = pd.concat([x.iloc[:10], x.iloc[-10:]])
    a = M.fit(name, x.copy(), y.copy(), g, **kw)
    y2 = y.copy()
    amount = [1e3, -50.0, 3.0][rng.integers(3)]
    rows = np.arange(k, len(x)) if rng.random() < 0.5 else [k] if rng.random() < 0.5 else [len(x) - 1]
    y2.iloc[rows] += amount * (1 + rng.random((len(rows), y.shape[1])))
    b = M.fit(name, x.copy(), y2, g, **kw)
    pa, pb = a.predict(xt.copy()), b.predict(xt.copy())
    m.close(pb.values, pa.values, 'held-out-leaks', '%s: changing held-out targets changes point forecasts' % tag, rtol=1e-10, atol=1e-10,
            event='heldout_perturbed')
    qa, qb = a.predict_quantiles(xt.copy(), dataframe=False), b.predict_quantiles(xt.copy(), dataframe=False)
    if name != 'qrf':
        if len(rows) > 1:
            m.check(not np.allclose(qa, qb), 'held-out-ignored', '%s: quantiles do not react to the held-out targets' % tag, event='quantiles_moved')
        # residual quantiles depend on nothing but the held-out residuals of the model itself
        for f, yy in ((a, y), (b, y2)):
            r = yy.values[v] - f.predict(x.iloc[v].copy()).values
            ref = f.predict(xt.copy()).values[:, :, None] + M.residual_quantiles(r, np.asarray(x.index[v].hour), f.q_vect, kw['conditional_to_hour'], np.asarray(xt.index.hour))
            m.close(f.predict_quantiles(xt.copy(), dataframe=False), ref, 'residual-rows', tag, rtol=1e-7, atol=1e-7)
    else:
        m.close(qb, qa, 'held-out-leaks', '%s: forest quantiles' % tag)
    # the last training row matters, so that the held-out part is not larger than stated
    y3 = y.copy()
    y3.iloc[max(0, k - 3):k] += 1e3
    c = M.fit(name, x.copy(), y3, g, **kw)
    m.check(not np.allclose(c.predict(x.iloc[:k].copy()).values, a.predict(x.iloc[:k].copy()).values), 'training-rows-ignored',
            '%s: the last training rows do not influence the model' % tag, event='training_matters')
    # same point model as without held-out rows
    kk = dict(kw, val_ratio=None)
    d = M.fit(name, x.iloc[:k].copy(), y.iloc[:k].copy(), g, **kk)
    m.close(d.predict(xt.copy()).values, pa.values, 'not-the-training-rows', '%s: differs from a model given the training rows only' % tag,
            rtol=1e-9, atol=1e-9, event='same_as_training_only')
    # held-out features
    x4 = x.copy()
    x4.iloc[k:] += rng.normal(0, 5, x4.iloc[k:].shape)
    e = M.fit(name, x4, y.copy(), g, **kw)
    m.close(e.predict(xt.copy()).values, pa.values, 'held-out-features-leak', '%s: changing held-out features changes point forecasts' % tag, rtol=1e-9,
            atol=1e-9, event='heldout_features')
    m.nontrivial(name, vr, len(x), amount, len(rows), sorted(map(str, kw.items())))
    m.say(model=name, val_ratio=vr, rows=len(x), perturbed=len(rows))


def splits(m, rng, tier):
    for _ in range(20):
        n = int(rng.integers(2, 300))
        idx = pd.date_range('2021-01-01', periods=n, freq='h')
        x = pd.DataFrame({'a': np.arange(n)}, index=idx)
        y = pd.DataFrame({'t': -np.arange(n)}, index=idx)
        vr = [None, float(rng.uniform(0.01, 0.99)), 0.5, 1 / n][rng.integers(4)]
        f = M.make('linear', val_ratio=vr)
        xa, ya, xv, yv = f.train_val_split(x, y)
        tag = 'n=%d ratio=%s' % (n, vr)
        m.ev('splits')
        m.check(xa.index.equals(ya.index) and xv.index.equals(yv.index), 'split-pairing', tag)
        m.check((xa['a'].values == -ya['t'].values).all() and (xv['a'].values == -yv['t'].values).all(), 'split-pairing', tag)
        if vr is None:
            m.check(len(xa) == n and len(xv) == n, 'split-none', tag)
        else:
            k, v = M.split(n, vr)
            m.check(list(xa['a']) + list(xv['a']) == list(range(n)), 'split-partition', tag)
            m.check(len(xv) == n - k, 'split-size', '%s: %d held out' % (tag, len(xv)))
    m.nontrivial('splits', n, vr)


WORKLOADS = [W('heldout', case, 90, 1200), W('splits', splits, 15, 150)]
