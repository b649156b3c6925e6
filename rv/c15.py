"""C15 discrete distributions: pmf cells recounted from the predicted quantiles; conditional frequencies recounted from the training values."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D
from rv import models as M

PROP = 'C15'
RULE = ('pmf: forecaster x quantile levels x grid (covering, narrow, fine, uneven, hitting quantiles exactly, far away), every cell recounted with a '
        'Python loop; discrete: training targets with few distinct values, sampling step, several targets, rows to predict at random times; '
        'non-trivial: at least two cells (values) with mass')
REQUIRED = {'pmf_cells': 10000, 'covering': 30, 'partial': 15, 'frequencies': 3000, 'means': 300, 'single_row': 10, 'level_subset': 5, 'clock_change': 5}
QUICK_S = 200


def grid(rng, q):
    lo, hi = q.min(), q.max()
    w = max(hi - lo, 1e-3)
    k = int(rng.integers(6))
    if k == 0:
        return 'covering', np.linspace(lo - w * 0.1, hi + w * 0.1, int(rng.integers(2, 30)))
    if k == 1:
        return 'narrow', np.linspace(lo + w * 0.3, hi - w * 0.25, int(rng.integers(2, 12)))
    if k == 2:
        return 'uneven', np.sort(np.hstack([lo - w, hi + w, rng.uniform(lo, hi, int(rng.integers(1, 15)))]))
    if k == 3:
        return 'on quantiles', np.unique(rng.choice(q.ravel(), int(min(q.size, rng.integers(3, 15)))))
    if k == 4:
        return 'far', hi + w * np.linspace(1, 2, 4)
    return 'list', list(np.linspace(lo, hi, int(rng.integers(2, 40))))


def pmf(m, rng, tier):
    name = M.NAMES[int(rng.integers(len(M.NAMES)))]
    x, y = M.dataset(rng, n=int(rng.integers(150, 260)))
    kw = M.settings(rng, name, y.shape[1])
    f = M.fit(name, x, y, seed=3, q_vect=M.q_vect(rng), conditional_to_hour=bool(rng.random() < 0.5), val_ratio=[None, 0.4][rng.integers(2)], **kw)
    xt = x.iloc[np.sort(rng.choice(len(x), int(rng.integers(1, 12)), replace=False))]
    kk = {}
    if name == 'qrf' and rng.random() < 0.5:
        lv = np.asarray(f.q_vect)
        kk['quantiles'] = list(np.sort(rng.choice(lv, int(rng.integers(1, len(lv) + 1)), replace=False)))
        m.ev('level_subset')
    q = np.asarray(f.predict_quantiles(xt.copy(), dataframe=False, **kk))
    kind, g = grid(rng, q)
    if len(g) < 2:
        return
    g0 = list(g)
    p = f.predict_pmf(xt.copy(), g, **kk)
    tag = '%s %s grid of %d, %d levels' % (name, kind, len(g), q.shape[2])
    m.check(list(g) == g0, 'grid-modified', tag)
    if not m.check(np.shape(p) == (len(xt), y.shape[1], len(g) - 1), 'one-value-per-cell', '%s: %s' % (tag, np.shape(p))):
        return
    m.check((p >= 0).all(), 'non-negative', tag)
    ref = np.zeros(p.shape)
    share = np.zeros(p.shape[:2])
    for i in range(p.shape[0]):
        for j in range(p.shape[1]):
            for v in q[i, j]:
                for c in range(len(g) - 1):
                    last = c == len(g) - 2
                    if g[c] <= v < g[c + 1] or (last and v == g[c + 1]):
                        ref[i, j, c] += 1 / q.shape[2]
                if g[0] <= v <= g[-1]:
                    share[i, j] += 1 / q.shape[2]
    m.close(p, ref, 'cell-mass', tag, atol=1e-9)
    m.close(p.sum(axis=-1), share, 'total-mass', tag, atol=1e-9)
    m.ev('pmf_cells', p.size)
    full = share > 1 - 1e-12
    if full.any():
        m.check(np.abs(p.sum(axis=-1)[full] - 1).max() < 1e-9, 'covered-sums-to-one', tag)
        m.ev('covering')
    if (share < 1 - 1e-12).any():
        m.ev('partial')
    if (ref > 0).sum(axis=-1).max() > 1:
        m.nontrivial(name, kind, len(g), q.shape)
    m.say(model=name, grid=kind, cells=len(g) - 1, levels=q.shape[2])


def discrete(m, rng, tier):
    from pyforecaster.forecasting_models.benchmarks import DiscreteDistr
    step = ['15min', '30min', '1h', '2h'][rng.integers(4)]
    n = int(rng.integers(150, 500))
    tz = [None, 'UTC', 'Europe/Zurich', 'Europe/Zurich'][rng.integers(4)]
    day = '2021-%s' % ['03-01', '03-25', '10-27'][rng.integers(3)]
    idx = D.index(rng, n, step=step, tz=tz, start=pd.Timestamp(day) + pd.Timedelta(int(rng.integers(0, 96)) * pd.Timedelta(step)))
    T = int(rng.integers(1, 4))
    sup = np.unique(np.round(rng.choice([rng.normal(0, 10, 8), np.arange(5.), np.array([0., 1.])][rng.integers(3)], int(rng.integers(2, 7))), 1))
    cols = [str(c) for c in rng.permutation(['zz', 'b', 'tgt', 'a_t+1', 'a'])[:T]]
    y = pd.DataFrame(rng.choice(sup, (n, T)), index=idx, columns=cols)
    if rng.random() < 0.5:         # targets with values of their own
        for c in cols:
            own = rng.choice(sup, int(rng.integers(1, len(sup) + 1)), replace=False)
            y[c] = rng.choice(own, n)
        m.ev('own_supports')
    y.iloc[:, 0] = np.where(np.asarray(idx.hour) < 8, sup[0], y.iloc[:, 0])
    if rng.random() < 0.4:         # irregular data
        keep = np.sort(rng.choice(n, int(n * 0.9), replace=False))
        y = y.iloc[keep]
    x = pd.DataFrame(rng.normal(0, 1, (len(y), 2)), index=y.index, columns=['u', 'v'])
    x0, y0 = x.copy(), y.copy()
    f = DiscreteDistr().fit(x, y)
    m.check(x.equals(x0) and y.equals(y0), 'data-modified', 'fit')
    r = int(rng.integers(1, 30)) if rng.random() < 0.75 else 1
    xt = x.iloc[rng.choice(len(x), r, replace=False)]
    if rng.random() < 0.5:
        xt = xt.set_axis(xt.index + pd.Timedelta(days=int(rng.integers(1, 50))))
        seen = {(v.hour, v.minute) for v in idx}
        xt = xt[[(v.hour, v.minute) in seen for v in xt.index]]
        r = len(xt)
        if r == 0:
            return
    if len({str(v) for v in idx.map(lambda v: v.utcoffset())}) > 1:
        m.ev('clock_change')
    if r == 1:
        m.ev('single_row')
    tag = '%s targets %s rows %d' % (step, cols, r)
    P = f.predict_probabilities(xt.copy())
    E = f.predict(xt.copy())
    m.check(P.index.equals(xt.index) and E.index.equals(xt.index), 'rows', tag)
    m.check(list(E.columns) == cols, 'targets', '%s: %s' % (tag, list(E.columns)))
    values = sorted(np.unique(y.values))
    per = int(pd.Timedelta(step).total_seconds())
    tod_y, tod_x = ((i.hour * 3600 + i.minute * 60) // per for i in (y.index, xt.index))
    P = P.set_axis(pd.MultiIndex.from_tuples([(a, float(b)) for a, b in P.columns]), axis=1)
    for c in cols:
        if not m.check(sorted(P[c].columns) == values, 'support', '%s: %s' % (tag, list(P[c].columns))):
            return
        tab = P[c][values].values
        m.check(np.abs(tab.sum(axis=1) - 1).max() < 1e-6, 'sums-to-one', tag)
        for i in range(r):
            grp = y[c].values[tod_y == tod_x[i]]
            ref = [np.mean(grp == v) for v in values]
            m.close(tab[i], ref, 'frequencies', '%s: target %s at %s' % (tag, c, tod_x[i]), atol=1e-6, event='frequencies_rows')
            m.ev('frequencies', len(values))
            m.close(E[c].values[i], np.mean(grp), 'mean', '%s: target %s at %s' % (tag, c, tod_x[i]), atol=1e-6, rtol=1e-6, event='means')
    if len(values) > 1:
        m.nontrivial(step, cols, len(values), r)
    m.say(step=step, targets=cols, values=len(values), rows=r)


WORKLOADS = [W('pmf', pmf, 120, 1200), W('discrete', discrete, 120, 1200)]
