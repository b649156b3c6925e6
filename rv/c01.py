"""C01 features never look into the future: two datasets equal up to a cut time are formatted with the same
configuration; the monitor compares every row that the oracle says cannot have seen the difference."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D

PROP = 'C01'
RULE = ('one case = random dataset (step, zone, gaps) x random transformer set x random cut; non-trivial when rows on '
        'both sides of the cut are delivered and the perturbation changes some later row; distinct by configuration')
REQUIRED = {'rows_compared': 2000, 'future_change_seen': 20, 'normalizer_rows': 100, 'neg_lag_rows': 30, 'nan_gap_cases': 20}
QUICK_S = 120


def build(specs, targets, normal, tz=False):
    from pyforecaster.formatter import Formatter
    f = Formatter()
    for s in specs:
        D.add(f, s)
    for s in targets:
        D.add(f, s, target=True)
    if normal:
        f.add_target_normalizer(['y'], normal[0], agg_freq=normal[1], name='nr')
        f.add_normalizing_fun("(df[t] - df['nr'])", "(df[t] + df['nr'])")
    return f


def cols_common(a, b):
    return [c for c in a.columns if c in set(b.columns)]


def perturb(rng, x, pos):
    x2 = x.copy()
    k = len(x) - pos
    if k > 0:
        x2.iloc[pos:, :] = rng.normal(0, 50, (k, x.shape[1])) + x2.iloc[pos:, :].values
    return x2


def causal(m, rng, tier):
    n = int(rng.integers(60, 160))
    idx = D.index(rng, n)
    dt = idx[1] - idx[0]
    x = D.signals(rng, idx)
    gaps = rng.random() < 0.25
    if gaps:
        keep = np.sort(rng.choice(n, size=n - int(rng.integers(1, 8)), replace=False))
        x = x.iloc[keep]
    n = len(x)
    # missing cells: isolated and in short runs; rows in or next to a gap must not borrow from later observations
    nan = rng.random() < 0.4
    specs = D.rand_transforms(rng, ['y', 'a', 'b'], int(rng.integers(1, 4)), 0, 4 if nan else 10, dt=dt, nonnested_ok=not gaps and not nan,
                              **(dict(funs=['mean', 'min', 'max', 'sum', 'median']) if nan else {}))
    targets = [dict(names=['y'], functions=None, agg_freq=None, lags=[-1, -2, -3], relative_lags=False, agg_bins=None)]
    normal = None
    if rng.random() < 0.4:
        normal = (['mean', 'max'][rng.integers(2)], '%dmin' % (int(dt.total_seconds() // 60) * int(rng.integers(2, 8))))
    tf = bool(rng.random() < 0.7)
    cut = int(rng.integers(n // 2, n - 2))      # rows < cut are equal in both datasets
    if nan:
        x = x.copy()
        for _ in range(int(rng.integers(1, 3))):
            i, k, j = int(rng.integers(max(cut - 6, 0), cut)), int(rng.integers(1, 4)), int(rng.integers(x.shape[1]))
            x.iloc[i:min(i + k, cut), j] = np.nan
        m.ev('nan_gap_cases')
    x2 = perturb(rng, x, cut)
    kw = dict(time_features=tf, return_target=False)
    for xi in (x.iloc[:cut], x2):
        if len(build(specs, targets, normal).transform(xi.copy(), time_features=False, return_target=False)[0]) < 3:
            return      # gaps leave no complete row: nothing to observe
    o1, _ = build(specs, targets, normal).transform(x.copy(), **kw)
    o2, _ = build(specs, targets, normal).transform(x2.copy(), **kw)
    o3, _ = build(specs, targets, normal).transform(x.iloc[:cut].copy(), **kw)
    past = x.index[:cut]
    for tag, o in (('changed', o2), ('removed', o3)):
        a, b = o1.loc[o1.index.isin(past)], o.loc[o.index.isin(past)]
        m.check(a.index.equals(b.index), 'rows-depend-on-future',
                lambda: '%s future: %d vs %d rows, cfg %s' % (tag, len(a), len(b), specs))
        if a.index.equals(b.index):
            m.check(list(a.columns) == list(b.columns), 'columns-depend-on-future', lambda: '%s vs %s' % (list(a.columns), list(b.columns)))
            for j, c in enumerate(a.columns):
                d = ~np.isclose(a.iloc[:, j].astype(float), b.iloc[:, j].astype(float), rtol=0, atol=1e-9, equal_nan=True)
                m.check(not d.any(), 'feature-sees-future',
                        lambda: 'column %s at %s changed when only the data from %s on were %s; cfg %s'
                        % (c, a.index[np.argmax(d)], x.index[cut], tag, specs), event='columns_compared')
            m.ev('rows_compared', len(a))
            if normal:
                m.ev('normalizer_rows', len(a))
    late = o1.index.isin(x.index[cut:])
    if late.sum() and o2.shape == o1.shape:
        ch = np.any(np.abs(o1.loc[late].values.astype(float) - o2.loc[late].values.astype(float)) > 1e-9)
        m.ev('future_change_seen', ch)
        if ch and len(a):
            m.nontrivial([D.key(s) for s in specs], normal, tf, gaps)
    # feature and target outputs in training mode must agree with prediction mode on the past
    o4, t4 = build(specs, targets, normal).transform(x2.copy(), time_features=tf)
    safe = x.index[:max(cut - 3, 0)]
    a, b = o1.loc[o1.index.isin(safe)], o4.loc[o4.index.isin(safe)]
    common = a.index.intersection(b.index)
    if len(common):
        m.close(a.loc[common].values.astype(float), b.loc[common].values.astype(float), 'training-features-see-future',
                'cfg %s' % specs)
    m.say(specs=specs, cut=cut, rows=len(o1), normal=normal)


def negative(m, rng, tier):
    """features with negative lags depend on nothing at or after t + reported window end"""
    n = int(rng.integers(50, 100))
    idx = D.index(rng, n)
    dt = idx[1] - idx[0]
    x = D.signals(rng, idx)
    spec = D.rand_transform(rng, ['a', 'b'], -6, 4, dt=dt)
    f = build([spec], [], None)
    o1, _ = f.transform(x.copy(), time_features=False, return_target=False)
    md = f.transformers[0].metadata
    if len(o1) < 3:
        return
    for c in md.index:
        t = o1.index[int(rng.integers(0, len(o1)))]
        end = t + md.loc[c, 'end_time']
        x2 = x.copy()
        later = x2.index >= end
        if not later.any():
            continue
        x2.loc[later, :] = x2.loc[later, :].values + rng.normal(0, 40, (later.sum(), x.shape[1]))
        o2, _ = build([spec], [], None).transform(x2, time_features=False, return_target=False)
        m.check(t in o2.index, 'rows-depend-on-future', 'row lost, cfg %s' % spec)
        if t in o2.index:
            m.close(o2.loc[t, c], o1.loc[t, c], 'window-end-exceeded', 'column %s, cfg %s' % (c, spec), event='neg_lag_rows')
            if md.loc[c, 'end_time'] > dt:
                m.nontrivial(D.key(spec), c)


WORKLOADS = [W('causal', causal, 300, 4000), W('negative', negative, 120, 1500)]
