"""C24 aggregated scores: each group recomputed from exactly its rows."""
import functools
import numpy as np
import pandas as pd
from rv.common import W
from rv import scores as S
from rv import hier as H

PROP = 'C24'
RULE = ('one case = tables, metric, grouping index (hours, interleaved integers of any width, names, categories with empty classes, continuous '
        'values), mask; every cell of the table is recomputed from the rows of its group; non-trivial: at least two groups of different size')
REQUIRED = {'group_scores': 1000, 'masked_scores': 300, 'summary_cells': 1000, 'quantized': 100, 'step_groups': 60, 'unmodified': 200, 'kpis': 20}
QUICK_S = 200


def groups(rng, idx):
    n = len(idx)
    k = int(rng.integers(6))
    if k == 0:
        g = np.asarray(idx.hour)
    elif k == 1:
        g = rng.integers(0, rng.integers(2, 40), n).astype([np.int64, np.int32, np.int8, np.int16][rng.integers(4)])
    elif k == 2:
        g = np.array(['g%d' % i for i in rng.integers(0, rng.integers(2, 20), n)], dtype=object)
    elif k == 3:
        g = rng.integers(0, 2, n).astype(bool)
    elif k == 4:
        g = np.asarray(idx.dayofweek) * 10
    else:
        g = np.round(rng.normal(0, 1, n), 5) if rng.random() < 0.5 else rng.choice([0.5, 1.5, 7.25], n)
    return g


def ref_metric(name, X, Y, rows, q=None, al=None, inter=True, norm=None):
    if name == 'rmse':
        return S.rmse(X[rows], Y[rows])
    if name == 'mape':
        return S.mape(X[rows], Y[rows])
    if name == 'nmae':
        return np.nanmean(norm[rows], axis=0)
    if name == 'crps':
        return np.mean([np.nanmean(S.pinball(q[rows][:, :, j], Y[rows], a), axis=0) for j, a in enumerate(al)], axis=0)
    if name == 'reliability':
        return np.hstack([np.nanmean(S.cover(q[rows][:, :, j], Y[rows]), axis=0) for j, a in enumerate(al)])
    if name == 'quantile':
        return np.hstack([np.nanmean(S.pinball(q[rows][:, :, j], Y[rows], a), axis=0) for j, a in enumerate(al)])


def agg(m, rng, tier):
    from pyforecaster import metrics as me
    x, t = S.tables(rng)
    q, qdf, al = S.qtable(rng, t)
    n, T = t.shape
    X, Y = x.values, t.values
    g = groups(rng, t.index)
    inter = bool(rng.random() < 0.5)
    norm = S.nmae_rows(X, Y, inter)
    x0, t0, q0, g0 = x.copy(), t.copy(), qdf.copy(), g.copy()
    labels = sorted(pd.unique(g))
    tag = 'n=%d T=%d groups %s' % (n, T, labels[:6])
    for nm, f, a in (('rmse', me.rmse, x), ('mape', me.mape, x), ('nmae', functools.partial(me.nmae, inter_normalization=inter), x),
                     ('crps', functools.partial(me.crps, alphas=al), qdf), ('reliability', functools.partial(me.reliability, alphas=al), qdf),
                     ('quantile', lambda *b, **k: me.quantile_scores(*b, alphas=al, **k)[0], qdf)):
        r = f(a, t, agg_index=pd.Index(g) if rng.random() < 0.5 else g)
        if nm == 'crps':
            r = r[list(t.columns)]
        if not m.check(sorted(r.index) == labels and len(r) == len(labels), 'groups', '%s %s: groups %s' % (nm, tag, list(r.index)[:6])):
            continue
        for l in labels:
            rows = np.flatnonzero(g == l)
            m.close(r.loc[l].values, ref_metric(nm, X, Y, rows, q, al, inter, norm), 'group-score', '%s %s: group %s' % (nm, tag, l), rtol=1e-8, event='group_scores')
        # the metric itself on the rows of one group
        if nm != 'nmae' or not inter:
            l = labels[int(rng.integers(len(labels)))]
            rows = np.flatnonzero(g == l)
            alone = f(a.iloc[rows], t.iloc[rows])
            if nm == 'crps':
                alone = alone[list(t.columns)]
            m.close(r.loc[l].values, alone.values[0], 'group-alone', '%s %s: group %s' % (nm, tag, l), rtol=1e-8)
    m.check(x.equals(x0) and t.equals(t0) and qdf.equals(q0) and (g == g0).all(), 'data-modified', tag, event='unmodified')
    # groups of steps
    if T > 1:
        gs = rng.integers(0, 2, T)
        r = me.rmse(x, t, agg_index=gs)
        r2 = me.mape(x, t, agg_index=gs)
        for l in np.unique(gs):
            m.close(r.loc[l].values, np.sqrt(((X - Y)[:, gs == l] ** 2).mean(axis=1)), 'step-groups', 'rmse', event='step_groups')
            m.close(r2.loc[l].values, (np.abs(X - Y) / (np.abs(Y) + 1e-5))[:, gs == l].mean(axis=1), 'step-groups', 'mape', event='step_groups')
    if len(labels) > 1:
        m.nontrivial('agg', n, T, str(g.dtype), len(labels))


def summary(m, rng, tier):
    from pyforecaster import metrics as me
    x, t = S.tables(rng, n=int(rng.integers(60, 200)))
    n, T = t.shape
    X, Y = x.values.copy(), t.values.copy()
    idxs = {}
    for i in range(int(rng.integers(1, 4))):
        idxs['i%d' % i] = groups(rng, t.index)
    cont = rng.random() < 0.6
    if cont:
        idxs['cont'] = rng.normal(0, 3, n) if rng.random() < 0.7 else np.exp(rng.normal(0, 2, n))
    idxs = pd.DataFrame(idxs, index=t.index)
    nq = int(rng.integers(4, 12))
    mask = None
    MK = np.ones((n, T), dtype=bool)
    if rng.random() < 0.5:
        MK = rng.random((n, T)) < rng.uniform(0.3, 0.9)
        mask = pd.DataFrame(MK, index=t.index, columns=t.columns)
    kind = ['point', 'table', 'array'][rng.choice(3, p=[.6, .3, .1])]
    q, qdf, al = S.qtable(rng, t)
    if kind == 'point':
        fs = [me.rmse, me.mape, functools.partial(me.nmae)]
        a = x
    else:
        fs = [functools.partial(me.crps, alphas=al), functools.partial(me.reliability, alphas=al)]
        a = qdf if kind == 'table' else q.copy()
    fs = [fs[i] for i in rng.permutation(len(fs))]
    x0, t0, q0, i0, m0 = x.copy(), t.copy(), qdf.copy(), idxs.copy(), None if mask is None else mask.copy()
    c0 = list(x.columns)
    res = me.summary_scores(a, t, fs, idxs, mask=mask, n_quantiles=nq)
    tag = '%s n=%d T=%d mask=%s indexes %s' % (kind, n, T, mask is not None, dict(idxs.dtypes))
    m.check(x.equals(x0) and t.equals(t0) and qdf.equals(q0) and idxs.equals(i0) and (mask is None or mask.equals(m0)) and list(x.columns) == c0, 'data-modified', tag, event='unmodified')
    names = [f.__name__ if hasattr(f, '__name__') else f.func.__name__ for f in fs]
    if not m.check(list(res) == names, 'metrics', '%s: %s' % (tag, list(res))):
        return
    XM, YM = np.where(MK, X, np.nan), np.where(MK, Y, np.nan)
    with np.errstate(all='ignore'):
        norm = S.nmae_rows(XM, YM)
        for nm in names:
            tab = res[nm]
            m.check(set(tab.index.get_level_values(0)) == set(idxs.columns), 'index-names', '%s %s' % (nm, tag))
            for c in idxs.columns:
                v = idxs[c].values
                sub = tab.loc[[c]].droplevel(0)
                labels = list(sub.index)
                floats = idxs[c].dtype.kind == 'f' and len(np.unique(v)) >= nq
                if floats:
                    if not m.check(all(isinstance(l, pd.Interval) for l in labels), 'quantized', '%s %s index %s: groups %s' % (nm, tag, c, labels[:3])):
                        continue
                    edges = np.unique(np.quantile(v, np.linspace(0, 1, nq + 1)))
                    if np.abs(v[:, None] - edges[None, 1:-1]).min(initial=1) < 1e-9 * (1 + np.abs(v).max()):
                        m.ev('value_on_a_bin_edge')      # which side it falls on is decided by rounding
                        continue
                    at = np.clip(np.searchsorted(edges, v, side='left') - 1, 0, len(edges) - 2)
                    member = [np.flatnonzero(at == k) for k in range(len(edges) - 1)]
                    if not m.check(len(labels) == len(edges) - 1 and all(abs(l.right - e) < 0.01 * (1 + abs(e)) for l, e in zip(labels, edges[1:])), 'partition',
                                   '%s %s index %s: bins %s, quantiles %s' % (nm, tag, c, labels, edges)):
                        continue
                    if c == 'cont':
                        sz = [len(b) for b in member]
                        m.check(len(labels) == nq and max(sz) - min(sz) <= 2, 'quantile-bins', '%s %s: %d bins of sizes %s, %d requested' % (nm, tag, len(labels), sz, nq))
                    m.ev('quantized')
                else:
                    want = sorted(pd.unique(v))
                    if not m.check(sorted(labels) == want, 'groups', '%s %s index %s: groups %s expected %s' % (nm, tag, c, labels[:6], want[:6])):
                        continue
                    member = [np.flatnonzero(v == l) for l in labels]
                for l, rows in zip(range(len(labels)), member):
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        ref = ref_metric(nm, XM, YM, rows, q, al, True, norm)
                    got = sub.iloc[l]
                    if nm == 'crps':
                        got = got[list(t.columns)]
                    m.close(np.asarray(got, dtype=float), ref, 'summary-cell', '%s %s index %s group %s' % (nm, tag, c, labels[l]), rtol=1e-8,
                            event='summary_cells' if mask is None else 'masked_scores')
    m.ev('summary_cells')
    m.nontrivial('summary', kind, n, T, mask is not None, [str(d) for d in idxs.dtypes], nq)
    m.say(kind=kind, rows=n, steps=T, masked=mask is not None, indexes=[str(d) for d in idxs.dtypes])


def kpis(m, rng, tier):
    from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation as HR
    from pyforecaster import metrics as me
    h, bottoms, root, naming = H.hierarchy(rng, naming=['str', 'int bottom', 'int'][rng.integers(3)], max_depth=3)
    n, T = int(rng.integers(60, 110)), int(rng.integers(1, 4))
    idx = pd.date_range('2021-01-01', periods=n, freq='h')
    x, y, series, order = H.stacked(rng, h, bottoms, n, T, idx)
    hr = HR(h, q_vect=np.array([0.2, 0.5, 0.8, 0.9, 0.95]), n_scenarios=4).fit(x, y)
    al = hr.q_vect
    p, q = hr.predict(x), hr.predict_quantiles(x)
    x0, y0, p0, q0 = x.copy(), y.copy(), p.copy(), q.copy()
    Y = pd.concat({c: y.loc[(x['name'] == c).values] for c in list(h) + bottoms}, axis=1)
    lv = H.depth_of(h, root)
    k1, k2, k3 = hr.compute_kpis(p, x, y, me.rmse), hr.compute_kpis(q, x, y, me.crps, alphas=al), hr.compute_kpis(q, x, y, me.reliability, alphas=al)
    tag = '%s order %s' % (h, order)
    m.check(x.equals(x0) and y.equals(y0) and p.equals(p0) and q.equals(q0), 'data-modified', tag, event='unmodified')
    for l in sorted(set(lv.values())):
        ss = [c for c in lv if lv[c] == l]
        for t in y.columns:
            m.close(float(k1.loc[l, t]), np.mean([np.sqrt(np.mean((p[(c, t)].values - Y[(c, t)].values) ** 2)) for c in ss]), 'kpi:rmse', '%s level %d' % (tag, l), rtol=1e-8, event='kpis')
            m.close(float(k2.loc[l, t]), np.mean([np.mean([S.pinball(q[(c, t, a)].values, Y[(c, t)].values, a).mean() for a in al]) for c in ss]), 'kpi:crps',
                    '%s level %d' % (tag, l), rtol=1e-8, event='kpis')
            for a in al:
                m.close(float(k3.loc[l, (t, a)]), np.mean([np.mean(q[(c, t, a)].values > Y[(c, t)].values) for c in ss]), 'kpi:reliability', '%s level %d' % (tag, l), rtol=1e-8, event='kpis')
    m.nontrivial('kpis', sorted(map(str, h.items())), T)


WORKLOADS = [W('groups', agg, 120, 1200), W('summary', summary, 160, 1600), W('kpis', kpis, 10, 100)]
