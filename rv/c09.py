"""C09 quantile forecasts: labels, order, table = array, reference residual quantiles."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import models as M

PROP = 'C09'
RULE = ('one case = forecaster x dataset (all hours or some hours missing, several time zones and steps) x quantile levels x validation '
        'ratio x conditioning; the oracle recomputes the residual quantiles from the point forecasts; non-trivial: more than one '
        'level and non-zero residuals')
REQUIRED = {'residual_quantiles': 30, 'ordered': 40, 'labels': 40, 'unconditional': 8, 'conditional': 8, 'missing_hours': 5, 'table_array': 40,
            'level_subset': 5}
QUICK_S = 200


def structure(m, q, x, y, taus, tag):
    m.check(isinstance(q, pd.DataFrame) and q.index.equals(x.index), 'rows', '%s: index changed' % tag, event='labels')
    want = [(c, t) for c in y.columns for t in taus]
    m.check(len(q.columns) == len(want) and all(a[0] == b[0] and abs(a[1] - b[1]) < 1e-12 for a, b in zip(sorted(q.columns, key=str), sorted(want, key=str))),
            'labels', '%s: columns %s expected %s' % (tag, list(q.columns)[:6], want[:6]), event='labels')
    if len(taus) > 1:
        for c in y.columns:
            v = np.column_stack([q[(c, t)].values for t in sorted(taus)])
            m.check(np.diff(v, axis=1).min() >= -1e-9, 'ordered', '%s: target %s decreases with the level' % (tag, c), event='ordered')


def case(m, rng, tier):
    name = M.NAMES[int(rng.integers(len(M.NAMES)))]
    all_hours = bool(rng.random() < 0.65)
    x, y = M.dataset(rng, n=int(rng.integers(200, 420)), all_hours=None if all_hours else False, step=['1h', '30min', '1h'][rng.integers(3)])
    if rng.random() < 0.4:      # target names whose alphabetical order is not their order
        y.columns = [['z', 'load_10', 'load_9', 'B', 'a', 'y_2', 'y_1', 'x', 'w', 'v', 'u', 't'][i] for i in range(y.shape[1])]
    kw = M.settings(rng, name, y.shape[1])
    cond = bool(rng.random() < 0.6)
    vr = [None, 0.3, 0.5][rng.integers(3)]
    qv = M.q_vect(rng)
    f = M.fit(name, x, y, seed=int(rng.integers(1e6)), q_vect=qv, val_ratio=vr, conditional_to_hour=cond, **kw)
    taus = np.asarray(f.q_vect, dtype=float)
    m.close(taus, np.hstack([0.01, np.arange(1, 10) / 10, 0.99]) if qv is None else qv, 'levels-used', name)
    nt = int(rng.integers(1, 40))
    xt = x.iloc[np.sort(rng.choice(len(x), nt, replace=False))] if rng.random() < 0.5 else \
        pd.DataFrame(rng.normal(0, 1, (nt, x.shape[1])), index=pd.date_range('2023-03-26', periods=nt, freq='37min'), columns=x.columns)
    if not all_hours:
        xt = xt.loc[np.isin(xt.index.hour, np.unique(x.index.hour))]
        if len(xt) == 0:
            xt = x.iloc[:5]
    tag = '%s %s cond=%s val=%s' % (name, kw, cond, vr)
    q = f.predict_quantiles(xt.copy())
    qa = f.predict_quantiles(xt.copy(), dataframe=False)
    structure(m, q, xt, y, taus, tag)
    m.check(isinstance(qa, np.ndarray) and qa.shape == (len(xt), y.shape[1], len(taus)), 'array-shape', '%s: %s' % (tag, np.shape(qa)))
    for i, c in enumerate(y.columns):
        for j, t in enumerate(taus):
            m.close(qa[:, i, j], q[(c, t)].values, 'table-array', '%s: target %s level %s' % (tag, c, t), event='table_array')
    if name in M.RESIDUAL:
        k, v = M.split(len(x), vr)
        res = y.values[v] - f.predict(x.iloc[v].copy()).values
        hours = np.asarray(x.index[v].hour)
        ref = f.predict(xt.copy()).values[:, :, None] + M.residual_quantiles(res, hours, taus, cond, np.asarray(xt.index.hour))
        m.close(qa, ref, 'residual-quantiles', tag, rtol=1e-7, atol=1e-7, event='residual_quantiles')
        m.ev('conditional' if cond else 'unconditional')
        if len(np.unique(hours)) < 24:
            m.ev('missing_hours')
    else:
        sub = np.sort(rng.choice(taus, int(rng.integers(1, len(taus) + 1)), replace=False))
        qs = f.predict_quantiles(xt.copy(), quantiles=list(sub))
        structure(m, qs, xt, y, sub, tag + ' subset')
        for c in y.columns:
            for t in sub:
                m.close(qs[(c, t)].values, q[(c, t)].values, 'level-subset', '%s: %s %s' % (tag, c, t), event='level_subset')
    if len(taus) > 1:
        m.nontrivial(name, sorted(kw.items()), cond, vr, len(taus), len(x), y.shape[1])
    m.say(model=name, settings=kw, conditional=cond, levels=list(taus), rows=len(x), predicted=len(xt))


WORKLOADS = [W('quantiles', case, 130, 1600)]
