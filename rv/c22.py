"""C22 hierarchical structure: unrolled sums, levels, summation matrix, target table."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import hier as H

PROP = 'C22'
RULE = ('one case = random tree-shaped hierarchy (depth to 5, single children, string / integer / mixed names, shuffled declaration), random data '
        'and column order; compared with an independent recursion; non-trivial: at least two aggregates')
REQUIRED = {'sums': 600, 'levels': 200, 'summation_matrix': 200, 'target_table': 30, 'formatter_table': 10, 'grouped': 200}
QUICK_S = 200


def structure(m, rng, tier):
    from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation as HR
    h, bottoms, root, naming = H.hierarchy(rng, max_depth=int(rng.integers(1, 6)))
    h0 = {k: list(v) for k, v in h.items()}
    tag = '%s %s' % (naming, h)
    hr = HR(h, method=['minT', 'bayes', 'dummy'][rng.integers(3)])
    u = hr.get_unrolled_hierarchy()
    u2 = HR.unroll_dict(h)
    m.check(set(u) == set(h) and len(u) == len(h) and set(u2) == set(h), 'nodes', tag)
    n = int(rng.integers(5, 40))
    idx = pd.date_range('2021-01-01', periods=n, freq='h')
    df = pd.DataFrame(rng.normal(0, 10, (n, len(bottoms))), index=idx, columns=pd.Index(bottoms, dtype=object))
    df0 = df.copy()
    for k in h:
        want = H.below(h, k)
        got = list(u[k])
        m.check(sorted(map(str, got)) == sorted(map(str, want)) and all(g in bottoms for g in got), 'bottoms-below', '%s: %r -> %s expected %s' % (tag, k, got, want))
        m.check(list(u2[k]) == got, 'static-form', tag)
        s = df[list(got)].sum(axis=1)
        m.close(s.values, np.sum([df0[b].values for b in want], axis=0), 'sums', '%s: %r' % (tag, k))
        df[k] = s
    m.check(df[bottoms].equals(df0), 'bottoms-unchanged', tag)
    lv = hr.get_hierarchy_levels()
    ref = H.depth_of(h, root)
    m.check(set(lv.index) == set(ref) and not lv.index.duplicated().any(), 'levels-nodes', '%s: %s' % (tag, list(lv.index)), event='levels')
    m.check({k: int(v) for k, v in lv['level'].items()} == ref, 'levels', lambda: '%s: %s expected %s' % (tag, dict(lv['level']), ref))
    names = list(h) + bottoms
    perm = [names[i] for i in rng.permutation(len(names))]
    hr.get_summation_matrix(df[perm], h)
    m.check(set(hr.bottom_series) == set(bottoms) and len(hr.bottom_series) == len(bottoms) and hr.n_b == len(bottoms) and hr.n_u == len(h), 'counts', tag)
    m.check(set(hr.aggregated_series) == set(h), 'aggregates', tag)
    S = np.asarray(hr.s_matrix, dtype=float)
    m.check(S.shape == (len(names), len(bottoms)), 'summation-shape', '%s: %s' % (tag, S.shape), event='summation_matrix')
    rows = list(hr.aggregated_series) + list(hr.bottom_series)
    m.close(df[list(hr.bottom_series)].values @ S.T, df[rows].values, 'summation-matrix', '%s columns %s' % (tag, perm), atol=1e-8, event='summation_matrix')
    m.check({k: list(v) for k, v in h.items()} == h0, 'hierarchy-modified', tag)
    if len(h) > 1:
        m.nontrivial(naming, sorted(map(str, h.items())))
    m.say(hierarchy=h, naming=naming)


def table(m, rng, tier):
    from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation as HR
    h, bottoms, root, naming = H.hierarchy(rng, max_depth=3)
    T, n = int(rng.integers(1, 5)), int(rng.integers(30, 80))
    idx = pd.date_range('2021-01-01', periods=n, freq='h')
    x, y, series, order = H.stacked(rng, h, bottoms, n, T, idx)
    hr = HR(h)
    hr.check_x(x)
    tab = hr.get_target_matrix(x, y)
    names = list(h) + bottoms
    tag = '%s order %s' % (h, order)
    m.check(not tab.columns.duplicated().any() and set(tab.columns) == {(s, t) for s in names for t in y.columns} and tab.index.equals(idx), 'target-nodes',
            '%s: %s' % (tag, list(tab.columns)[:6]), event='target_table')
    for s in names:
        for j, t in enumerate(y.columns):
            m.close(tab[(s, t)].values, series[s][3 + j:3 + j + n], 'target-values', '%s: %r %s' % (tag, s, t), event='target_table')
    for k in h:
        for t in y.columns:
            m.close(tab[(k, t)].values, np.sum([tab[(b, t)].values for b in H.below(h, k)], axis=0), 'target-sums', '%s: %r' % (tag, k), atol=1e-8, event='target_table')
    # an aggregate is missing: rejected
    gone = list(h)[int(rng.integers(len(h)))]
    m.raises(lambda: HR(h).fit(x.loc[(x['name'] != gone).values], y.loc[(x['name'] != gone).values]), Exception, 'missing-aggregate', tag)
    if len(h) > 1:
        m.nontrivial('table', sorted(map(str, h.items())), T)


def formatter(m, rng, tier):
    """dataset built as documented: sums from the unrolled hierarchy, stacked by the formatter"""
    import pyforecaster.formatter as pyf
    import logging
    from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation as HR
    h, bottoms, root, naming = H.hierarchy(rng, naming=['str', 'int bottom'][rng.integers(2)], max_depth=2)
    n, T = int(rng.integers(40, 70)), int(rng.integers(1, 4))
    idx = pd.date_range('2021-01-01', periods=n, freq='h', tz='Europe/Zurich')
    df = pd.DataFrame(rng.normal(0, 3, (n, len(bottoms))), index=idx, columns=pd.Index(bottoms, dtype=object))
    for k, v in HR.unroll_dict(h).items():
        df[k] = df[list(v)].sum(axis=1)
    f = pyf.Formatter(logger=logging.getLogger('x'))
    f.add_transform(['target'], lags=[1, 2])
    f.add_target_transform(['target'], lags=-np.arange(1, T + 1))
    x, y = f.transform(df, global_form=True, parallel=False)
    cnt = x['name'].value_counts()
    m.check(set(cnt.index) == set(list(h) + bottoms) and cnt.nunique() == 1, 'formatter-nodes', '%s: %s' % (h, dict(cnt)), event='formatter_table')
    tab = HR(h).get_target_matrix(x, y)
    for k in h:
        for t in y.columns:
            ref = np.sum([tab[(b, t)].values.astype(float) for b in H.below(h, k)], axis=0)
            m.close(tab[(k, t)].values, ref, 'formatter-sums', '%s: %r %s' % (h, k, t), rtol=1e-3, atol=1e-3, event='formatter_table')
    m.nontrivial('formatter', sorted(map(str, h.items())), T)


def grouped(m, rng, tier):
    """the same bottom signals aggregated in several ways below one total (by region, by type): each signal counts once"""
    from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation as HR
    h, bottoms, root, naming = H.grouped(rng)
    nb = len(bottoms)
    u = HR.unroll_dict(h)
    tag = str(h)
    for k in h:
        want = sorted(set(H.below(h, k)))
        m.check(sorted(u[k]) == want, 'bottoms-once', lambda: '%s: %r -> %s expected %s' % (tag, k, u[k], want), event='grouped')
    df = pd.DataFrame(rng.normal(0, 10, (12, nb)), columns=bottoms)
    for k in h:
        df[k] = df[list(u[k])].sum(axis=1)
    hr = HR(h)
    hr.get_summation_matrix(df, h)
    rows = list(hr.aggregated_series) + list(hr.bottom_series)
    m.close(df[list(hr.bottom_series)].values @ np.asarray(hr.s_matrix, float).T, df[rows].values, 'grouped-summation', tag, atol=1e-8, event='grouped')
    m.nontrivial('grouped', sorted(map(str, h.items())))
    m.say(hierarchy=h)


WORKLOADS = [W('grouped', grouped, 40, 400), W('structure', structure, 300, 4000), W('table', table, 40, 400), W('formatter', formatter, 8, 80)]
