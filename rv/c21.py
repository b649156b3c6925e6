"""C21 reconciliation: coherence, labels, projection property and optimality of the reconciled forecasts."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import hier as H

PROP = 'C21'
RULE = ('one case = random hierarchy (depth, width, names, declaration order), reconciliation method, columns and series in random order; '
        'reconciled values are compared with sums of the reconciled bottom series and with the solution of the normal equations; '
        'non-trivial: at least two aggregates or reconciled values that differ from the base ones')
REQUIRED = {'coherent': 300, 'normal_equations': 100, 'coherent_unchanged': 100, 'twice': 100, 'full_predict': 20, 'scenarios_coherent': 100,
            'own_step_errors': 20, 'quantiles': 10}
QUICK_S = 230


def shrunk(e):
    from sklearn.covariance import ShrunkCovariance
    return ShrunkCovariance().fit(e).covariance_


def reference(h, bottoms, method, errs, yhat):
    """reconciled forecasts by minimizing the quadratic form each method defines; columns looked up by name"""
    aggs = list(h)
    A = np.array([[1.0 if b in H.below(h, k) else 0.0 for b in bottoms] for k in aggs])
    S = np.vstack([A, np.eye(len(bottoms))])
    names = aggs + list(bottoms)
    Y = yhat[names].values
    E = errs[names].values
    if method == 'bayes':
        cb = shrunk(E[:, len(aggs):])
        cu = np.var(E[:, :1]).reshape(1, 1) if len(aggs) == 1 else shrunk(E[:, :len(aggs)])
        Wb, Wu = np.linalg.inv(cb), np.linalg.inv(cu)
        M = Wb + A.T @ Wu @ A
        B = np.linalg.solve(M, Wb @ Y[:, len(aggs):].T + A.T @ Wu @ Y[:, :len(aggs)].T)
    else:
        Wi = np.eye(len(names)) if method == 'dummy' else np.linalg.inv(shrunk(E))
        B = np.linalg.lstsq(S.T @ Wi @ S, S.T @ Wi @ Y.T, rcond=None)[0]
    return pd.DataFrame((S @ B).T, index=yhat.index, columns=names)


def check_coherent(m, tab, h, tag, mech='coherent', event=None, scale=1.0):
    for k in h:
        d = np.abs(tab[k].values - np.sum([tab[b].values for b in H.below(h, k)], axis=0)).max()
        m.check(d < 1e-6 * (1 + scale), mech, '%s: aggregate %r differs from its bottom series by %.3g' % (tag, k, d), event=event or mech)


def direct(m, rng, tier):
    from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation as HR
    h, bottoms, root, naming = H.grouped(rng) if rng.random() < 0.2 else H.hierarchy(rng)
    method = ['minT', 'dummy', 'bayes'][rng.integers(3)]
    n = int(rng.integers(60, 200))
    idx = pd.date_range('2021-01-01', periods=n, freq='h')
    names = list(h) + bottoms
    perm = [names[i] for i in rng.permutation(len(names))]
    y = {b: rng.normal(rng.normal(0, 3), 1, n) for b in bottoms}
    for k in h:
        y[k] = np.sum([y[b] for b in H.below(h, k)], axis=0)
    y = pd.DataFrame(y, index=idx)[perm]
    mix = rng.normal(0, 1, (len(names), len(names))) * 0.3
    yh = y + rng.normal(0, 1, (n, len(names))) @ mix + rng.normal(0, 0.2, len(names))
    hr = HR(h, method=method)
    y0, yh0 = y.copy(), yh.copy()
    hr.fit_reconciliation(y, yh, h)
    perm2 = [names[i] for i in rng.permutation(len(names))]
    r = hr.reconcile(yh[perm2])
    tag = '%s %s hierarchy %s' % (method, naming, h)
    m.check(y.equals(y0) and yh.equals(yh0), 'data-modified', tag)
    sc = float(np.abs(yh.values).max())
    if not m.check(set(r.columns) == set(names) and r.index.equals(idx) and not r.columns.duplicated().any(), 'labels', '%s: %s' % (tag, list(r.columns))):
        return
    check_coherent(m, r, h, tag, scale=sc)
    ref = reference(h, bottoms, method, y - yh, yh)
    for c in names:
        m.close(r[c].values, ref[c].values, 'normal-equations', '%s: series %r' % (tag, c), rtol=1e-6, atol=1e-5 * (1 + sc), event='normal_equations')
    coh = hr.reconcile(y[perm2])
    m.close(coh[names].values, y[names].values, 'coherent-changed', tag, rtol=1e-6, atol=1e-6 * (1 + sc), event='coherent_unchanged')
    m.close(hr.reconcile(r[perm])[names].values, r[names].values, 'twice', tag, rtol=1e-6, atol=1e-6 * (1 + sc))
    if len(h) > 1 or np.abs(r[names].values - yh[names].values).max() > 1e-3:
        m.nontrivial(method, naming, sorted(map(str, h)), len(bottoms), n)
    m.say(method=method, hierarchy=h, rows=n)


def full(m, rng, tier):
    from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation as HR
    from pyforecaster.forecaster import LGBForecaster
    h, bottoms, root, naming = H.grouped(rng) if rng.random() < 0.15 else H.hierarchy(rng, max_depth=2)
    method = ['minT', 'minT', 'dummy', 'bayes'][rng.integers(4)]
    n, T = int(rng.integers(100, 180)), int(rng.integers(1, 4))
    idx = pd.date_range('2021-01-01', periods=n, freq='h', tz=[None, 'Europe/Zurich'][rng.integers(2)])
    x, y, series, order = H.stacked(rng, h, bottoms, n, T, idx)
    names = list(h) + bottoms
    kw = {}
    if rng.random() < 0.3:
        kw = dict(base_forecaster_class=LGBForecaster, n_estimators=5, num_leaves=4, n_jobs=1, n_jobs_predict=1)
    q = np.round(np.linspace(0.1, 0.9, int(rng.integers(3, 6))), 3)
    hr = HR(h, method=method, q_vect=q, n_scenarios=5, **kw)
    x0, y0 = x.copy(), y.copy()
    hr.fit(x, y)
    m.check(x.equals(x0) and y.equals(y0), 'data-modified', 'fit')
    tag = '%s %s T=%d series order %s hierarchy %s' % (method, naming, T, order, h)
    # rows to predict: a subset of times, series blocks in another order
    k = int(rng.integers(1, n))
    times = idx[np.sort(rng.choice(n, k, replace=False))]
    xt = pd.concat([x.loc[(x['name'] == c).values].loc[times] for c in [names[i] for i in rng.permutation(len(names))]])
    base = hr.predict(xt.copy(), method='vanilla')
    p = hr.predict(xt.copy())
    steps = list(y.columns)
    if not m.check(set(p.columns) == {(s, t) for s in names for t in steps} and p.index.equals(times), 'labels', '%s: %s' % (tag, list(p.columns)[:6])):
        return
    # base forecasts under their own label
    for c in h:
        b = hr.models_dict[c].predict(xt.loc[(xt['name'] == c).values].drop(columns='name'))
        m.close(base[c][steps].values, b.values, 'base-labels', '%s: %r' % (tag, c))
    tr = hr.predict(x.copy(), method='vanilla')
    Y = pd.concat({c: y.loc[(x['name'] == c).values] for c in names}, axis=1)
    full_tr = hr.predict(x.copy())
    for t in steps:
        bt = pd.DataFrame({c: base[(c, t)].values for c in names}, index=times)
        pt = pd.DataFrame({c: p[(c, t)].values for c in names}, index=times)
        sc = float(np.abs(bt.values).max())
        check_coherent(m, pt, h, '%s step %s' % (tag, t), scale=sc)
        errs = pd.DataFrame({c: Y[(c, t)].values - tr[(c, t)].values for c in names})
        ref = reference(h, bottoms, method, errs, bt)
        m.close(pt[names].values, ref[names].values, 'own-step-errors', '%s step %s: not the reconciliation of this step' % (tag, t),
                rtol=1e-5, atol=1e-4 * (1 + sc), event='own_step_errors')
        for c in names:
            m.close(hr.errs_tilde[(c, t)].values, Y[(c, t)].values - full_tr[(c, t)].values, 'reconciled-errors', '%s: %r step %s' % (tag, c, t), atol=1e-7 * (1 + sc))
            m.close(hr.errs_hat[(c, t)].values, Y[(c, t)].values - tr[(c, t)].values, 'base-errors', '%s: %r step %s' % (tag, c, t), atol=1e-7 * (1 + sc))
    m.ev('full_predict')
    s = hr.predict_scenarios(xt.copy())
    m.check(s.index.equals(times), 'scenario-rows', tag)
    sn = sorted(set(s.columns.get_level_values(1)))
    m.check(len(sn) == 5, 'scenario-count', '%s: %s' % (tag, sn))
    for i in sn:
        for t in steps:
            st = pd.DataFrame({c: s[(c, i, t)].values for c in names})
            check_coherent(m, st, h, '%s scenario %s' % (tag, i), 'scenarios-coherent', 'scenarios_coherent', scale=float(np.abs(st.values).max()))
    c, t = names[int(rng.integers(len(names)))], steps[int(rng.integers(T))]
    hrs_t, hrs = np.asarray(times.hour), np.asarray(idx.hour)
    for mth, P, E in (('reconciled', p, hr.errs_tilde), ('vanilla', base, hr.errs_hat)):
        ss = s if mth == 'reconciled' else hr.predict_scenarios(xt.copy(), method='vanilla')
        for r in range(len(times)):
            pool = E[(c, t)].values[hrs == hrs_t[r]]
            for i in sn:
                d = ss[(c, i, t)].values[r] - P[(c, t)].values[r]
                m.check(np.abs(pool - d).min() < 1e-6 * (1 + np.abs(P[(c, t)].values[r])), 'scenario-errors', '%s %s: %r step %s row %d: error %s is not one of that hour' % (
                    mth, tag, c, t, r, d))
    qv = hr.predict_quantiles(xt.copy(), method='vanilla')
    m.check(set(qv.columns) == {(c, t, l) for c in names for t in steps for l in q}, 'quantile-labels', '%s: %s' % (tag, list(qv.columns)[:4]))
    for c in h:
        ref = hr.models_dict[c].predict_quantiles(xt.loc[(xt['name'] == c).values].drop(columns='name'))
        for t in steps:
            for l in q:
                m.close(qv[(c, t, l)].values, ref[(t, l)].values, 'base-quantiles', tag, event='quantiles')
    qr = hr.predict_quantiles(xt.copy())
    m.check(qr.index.equals(times) and set(qr.columns) == {(c, t, l) for c in names for t in steps for l in q}, 'quantile-labels', '%s: %s' % (tag, list(qr.columns)[:4]))
    for c in names:
        for t in steps:
            m.check(np.diff(qr[[(c, t, l) for l in q]].values, axis=1).min() >= -1e-9, 'quantiles-ordered', tag)
    m.nontrivial('full', method, naming, len(h), len(bottoms), T, n)
    m.say(method=method, hierarchy=h, steps=T, rows=n)


WORKLOADS = [W('direct', direct, 150, 2000), W('full', full, 24, 260)]
