"""C29 tree ensembles: per-step reference models, recovery of step functions, parallel against serial, forests against the library they wrap."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D
from rv import models as M

PROP = 'C29'
RULE = ('one case = model, number of steps, split between per-step and shared models, feature selection, dataset; per-step models are refitted '
        'independently on the same step, every target is a different function of the features and must be recovered under its own label, parallel '
        'and serial models are compared; non-trivial: at least two targets')
REQUIRED = {'per_step_reference': 60, 'recovered': 60, 'shared_recovered': 25, 'parallel': 3, 'selected_features': 15, 'energy': 8, 'forest_reference': 20,
            'forest_levels': 20, 'threads': 5, 'weighted': 8}
QUICK_S = 250


def lgb_pars(rng, strong=False):
    if strong:
        return dict(n_estimators=60, num_leaves=31, min_child_samples=2, learning_rate=0.3, n_jobs=1)
    return dict(n_estimators=int(rng.integers(4, 15)), num_leaves=int(rng.integers(3, 12)), min_child_samples=int(rng.integers(3, 12)),
                learning_rate=float(rng.choice([0.1, 0.3])), max_depth=int(rng.integers(3, 8)), n_jobs=1)


def regressor(p):
    from lightgbm import LGBMRegressor
    return LGBMRegressor(**{'max_depth': 20, 'objective': 'regression', 'metric': 'l2', 'verbose': -1, **p})


def steps_data(rng, T, k=4, n=None):
    """every target is its own table over one discrete feature"""
    n = n or int(rng.integers(260, 420))
    idx = D.index(rng, n)
    V = int(rng.integers(3, 6))
    x = pd.DataFrame(rng.integers(0, V, (n, k)).astype(float), index=idx, columns=['f%d' % i for i in range(k)])
    y = {}
    for i in range(T):
        tab = rng.permutation(V) * rng.uniform(1, 4) + rng.uniform(-20, 20)
        y['t%d' % i if rng.random() < 0.9 else i] = tab[x.iloc[:, int(rng.integers(k))].astype(int)]
    y = pd.DataFrame(y, index=idx)
    return x, y


def recovered(m, P, y, tag, ev, tol=0.1):
    """forecast of column i is close to target i, and is not the forecast of any other target"""
    m.check(list(P.columns) == list(y.columns) and P.index.equals(y.index), 'labels', '%s: %s for %s' % (tag, list(P.columns), list(y.columns)))
    for i, c in enumerate(y.columns):
        sd = np.std(y.iloc[:, i].values)
        r = np.sqrt(np.mean((P.iloc[:, i].values - y.iloc[:, i].values) ** 2))
        m.check(r <= tol * sd, 'step-recovered', lambda: '%s: target %s is forecast with error %.3g of its spread %.3g (closest target: %s)' % (
            tag, c, r, sd, y.columns[np.argmin([np.mean((P.iloc[:, i].values - y.iloc[:, j].values) ** 2) for j in range(y.shape[1])])]), event=ev)


def recover(m, rng, tier):
    from pyforecaster.forecaster import LGBForecaster
    from pyforecaster.forecasting_models.gradientboosters import LGBMHybrid, LGBEnergyAware
    T = int(rng.integers(1, 6))
    kind = ['hybrid', 'hybrid', 'lgb', 'energy'][rng.integers(4)]
    x, y = steps_data(rng, T)
    p = lgb_pars(rng, True)
    vr = [None, 0.2][rng.integers(2)]
    ns = T if kind != 'hybrid' else int(rng.integers(0, T + 1))
    kw = dict(val_ratio=vr)
    if kind == 'hybrid':
        kw.update(n_single=ns, red_frac_multistep=float(rng.choice([0.6, 1.0])))
        f = LGBMHybrid(**p, **kw)
    elif kind == 'energy':
        f = LGBEnergyAware(**p, n_single=T, **kw)
    else:
        f = LGBForecaster(**p, n_jobs_predict=int(rng.integers(1, 3)), **kw)
    np.random.seed(int(rng.integers(1 << 30)))
    f.fit(x.copy(), y.copy())
    tag = '%s %d targets, %d per-step, val %s' % (kind, T, ns, vr)
    o = rng.permutation(len(x))[:80]
    xt, yt = x.iloc[o], y.iloc[o]
    P = f.predict(xt.copy())
    if kind == 'hybrid' and ns < T:
        recovered(m, P.iloc[:, ns:], yt.iloc[:, ns:], tag, 'shared_recovered', 0.25)
        if ns:
            recovered(m, P.iloc[:, :ns], yt.iloc[:, :ns], tag, 'recovered')
    else:
        recovered(m, P, yt, tag, 'recovered')
    if T > 1:
        m.nontrivial('recover', kind, T, ns, vr, len(x))
    m.say(kind=kind, targets=T, per_step=ns, val_ratio=vr, rows=len(x))


def reference(m, rng, tier):
    """per-step models equal models fitted independently on that step"""
    from pyforecaster.forecaster import LGBForecaster
    from pyforecaster.forecasting_models.gradientboosters import LGBMHybrid, LGBEnergyAware
    from pyforecaster.formatter import Formatter
    kind = ['hybrid', 'hybrid', 'lgb', 'energy'][rng.integers(4)]
    vr = [None, 0.3][rng.integers(2)]
    p = lgb_pars(rng)
    fmt = None
    meta = []
    kw = {}
    if kind != 'lgb' and rng.random() < 0.5:
        n = int(rng.integers(200, 320))
        df = D.signals(rng, D.index(rng, n, step=['1h', '30min'][rng.integers(2)]), ['y', 'a'])
        T = int(rng.integers(2, 6))
        fmt = Formatter().add_transform(['y', 'a'], lags=[int(i) for i in np.sort(rng.choice(20, int(rng.integers(3, 9)), replace=False))])
        fmt.add_transform(['a'], functions=['mean', 'max'], agg_freq='2h', lags=[0, 2, 5])
        fmt.add_target_transform(['y'], lags=-np.arange(1, T + 1))
        x, y = fmt.transform(df)
        meta = [['hour'], ['hour', 'dayofweek'], []][rng.integers(3)]
        meta = [c for c in meta if c in x.columns]
        kw = dict(formatter=fmt, metadata_features=list(meta), keep_last_n_lags=int(rng.integers(1, 3)), tol_period=['1h', '2h', '0h'][rng.integers(3)],
                  keep_last_seconds=int(rng.integers(0, 2)) * 7200)
    else:
        x, y = M.dataset(rng)
        T = y.shape[1]
    ctrl = kind == 'energy' and rng.random() < 0.7
    if ctrl:
        for i in range(int(rng.integers(1, 4))):
            x['force_off_t-%d' % i] = (rng.random(len(x)) < 0.3).astype(float)
        y = y + x[[c for c in x.columns if 'force_off' in str(c)]].sum(axis=1).values[:, None] * rng.normal(0, 5, y.shape[1])
        if fmt is not None:
            kw['metadata_features'] = list(meta) + [c for c in x.columns if 'force_off' in str(c)]
    ns = T if kind != 'hybrid' else int(rng.integers(1, T + 1))
    if kind == 'lgb':
        f = LGBForecaster(**p, n_jobs_predict=1, val_ratio=vr)
    elif kind == 'energy':
        f = LGBEnergyAware(**p, n_single=T, val_ratio=vr, **kw)
    else:
        f = LGBMHybrid(**p, n_single=ns, val_ratio=vr, **kw)
    x0, y0 = x.copy(), y.copy()
    f.fit(x, y)
    m.check(x.equals(x0) and y.equals(y0), 'data-modified', kind)
    k, _ = M.split(len(x), vr)
    xt = x.iloc[np.sort(rng.choice(len(x), 40, replace=False))]
    P = f.predict(xt)
    tag = '%s %d targets, %d per-step, val %s, selection %s control %s' % (kind, T, ns, vr, {k_: v for k_, v in kw.items() if k_ != 'formatter'}, ctrl)
    m.check(list(P.columns) == list(y.columns) and P.index.equals(xt.index), 'labels', '%s: %s for %s' % (tag, list(P.columns), list(y.columns)))
    utr, ute = [], []
    for i in range(ns):
        if fmt is None:
            sel = list(x.columns)
        else:
            sel = list(fmt.prune_dataset_at_stepahead(x, i, list(kw['metadata_features']), method='periodic', period='24h', tol_period=kw['tol_period'],
                                                      keep_last_n_lags=kw['keep_last_n_lags'], keep_last_seconds=kw['keep_last_seconds']).columns)
            m.ev('selected_features', 0 < len(sel) < x.shape[1])
        a, b = x.iloc[:k][sel], xt[sel]
        if kind == 'energy' and i > 0:
            a, b = a.assign(e_unbalance=pd.DataFrame(utr).T.sum(axis=1).values), b.assign(e_unbalance=pd.DataFrame(ute).T.sum(axis=1).values)
        r = regressor(p).fit(a, y.iloc[:k, i])
        w = r.predict(b)
        if kind == 'energy':
            off = [c for c in a.columns if 'force_off' in str(c) and '-' in str(c)]
            za, zb = a.copy(), b.copy()
            za[off] = 0
            zb[off] = 0
            utr.append(r.predict(za) - r.predict(a))
            ute.append(r.predict(zb) - w)
            if ctrl:
                m.ev('energy')
        if kind == 'energy' and ctrl and i > 1 and np.sqrt(np.mean((P.iloc[:, i].values - w) ** 2)) < 0.15 * np.std(w):
            continue      # the order in which unbalances are added decides ties between splits
        m.close(P.iloc[:, i].values, w, 'per-step-reference', '%s: step %d' % (tag, i), event='per_step_reference', rtol=1e-6, atol=1e-6)
    if T > 1:
        m.nontrivial('reference', kind, T, ns, vr, bool(fmt), ctrl, sorted(p.items()))
    m.say(kind=kind, targets=T, per_step=ns, selection=bool(fmt), control=bool(ctrl), rows=len(x), settings=p)


def parallel(m, rng, tier):
    from pyforecaster.forecasting_models.gradientboosters import LGBMHybrid
    from pyforecaster.forecasting_models.randomforests import QRF
    kind = ['hybrid', 'qrf'][rng.integers(2)]
    T = int(rng.integers(2, 5))
    x, y = steps_data(rng, T, n=200)
    ns = int(rng.integers(1, T + 1))
    seed = int(rng.integers(1 << 30))
    out = []
    for par in (False, True):
        np.random.seed(seed)
        if kind == 'hybrid':
            f = LGBMHybrid(n_estimators=8, num_leaves=5, min_child_samples=4, n_single=ns, parallel=par)
        else:
            f = QRF(n_estimators=8, n_single=ns, parallel=par, random_state=7, max_parallel_workers=3, max_depth=4)
        f.fit(x.copy(), y.copy())
        out.append((f.predict(x.iloc[:60]), f.predict_quantiles(x.iloc[:60])))
    tag = '%s %d targets, %d per-step' % (kind, T, ns)
    m.frame_same(out[1][0], out[0][0], 'parallel', tag, event='parallel')
    m.frame_same(out[1][1], out[0][1], 'parallel-quantiles', tag)
    m.nontrivial('parallel', kind, T, ns, seed)
    m.say(kind='parallel ' + kind, targets=T, per_step=ns)


def forest(m, rng, tier):
    """quantile forests against the library they wrap"""
    from pyforecaster.forecasting_models.randomforests import QRF
    from quantile_forest import RandomForestQuantileRegressor
    x, y = M.dataset(rng, T=int(rng.integers(1, 5)))
    T = y.shape[1]
    ns = int(rng.integers(0, T + 1))
    vr = [None, 0.3][rng.integers(2)]
    p = dict(n_estimators=int(rng.integers(5, 15)), random_state=int(rng.integers(1000)), max_depth=[None, 3, 5][rng.integers(3)],
             min_samples_leaf=int(rng.integers(1, 6)), max_samples_leaf=[1, None, 3][rng.integers(3)], max_features=[1.0, 0.6][rng.integers(2)],
             min_samples_split=int(rng.integers(2, 8)), bootstrap=bool(rng.random() < 0.8))
    qv = M.q_vect(rng)
    f = QRF(q_vect=qv, n_single=ns, val_ratio=vr, parallel=False, **p)
    sw = rng.choice([0.0, 1.0, 3.0], len(x)) if rng.random() < 0.4 else None
    f.fit(x.copy(), y.copy(), **({} if sw is None else {'sample_weight': sw}))
    taus = [float(t) for t in f.q_vect]
    k, _ = M.split(len(x), vr)
    xt = x.iloc[np.sort(rng.choice(len(x), int(rng.integers(1, 40)), replace=False))]
    tag = 'forest %d targets, %d per-step, val %s, %s' % (T, ns, vr, p)
    P = f.predict(xt)
    Q = f.predict_quantiles(xt)
    m.check(list(P.columns) == list(y.columns) and P.index.equals(xt.index), 'labels', tag)
    xr = x.iloc[:k]
    wr = None if sw is None else sw[:k]
    tag += '' if sw is None else ' weighted'
    m.ev('weighted', sw is not None)
    mean, quant = np.zeros((len(xt), T)), np.zeros((len(xt), T, len(taus)))
    for i in range(ns):
        r = RandomForestQuantileRegressor(**p).fit(xr, y.iloc[:k, i], sample_weight=wr)
        mean[:, i] = np.reshape(r.predict(xt, quantiles='mean'), -1)
        quant[:, i] = np.reshape(r.predict(xt, quantiles=taus), (len(xt), -1))
    if ns < T:
        r = RandomForestQuantileRegressor(**p).fit(xr, y.iloc[:k, ns:])          # the shared forest is not weighted
        mean[:, ns:] = np.reshape(r.predict(xt, quantiles='mean'), (len(xt), T - ns))
        quant[:, ns:] = np.reshape(r.predict(xt, quantiles=taus), (len(xt), T - ns, len(taus)))
    m.close(P.values, mean, 'forest-mean', tag, event='forest_reference', rtol=1e-7, atol=1e-7)
    m.frame_same(f.predict(xt, quantiles='mean', period='24h'), P, 'forest-mean', tag, rtol=1e-9, atol=1e-9)
    for i, c in enumerate(y.columns):
        for j, t in enumerate(taus):
            m.close(Q[(c, t)].values, quant[:, i, j], 'forest-quantiles', '%s: target %s level %s' % (tag, c, t), rtol=1e-7, atol=1e-7)
        v = Q[c].values
        m.check((v >= y.iloc[:k, i].min() - 1e-9).all() and (v <= y.iloc[:k, i].max() + 1e-9).all(), 'training-range', '%s: %s' % (tag, c))
        m.check(len(taus) < 2 or np.diff(v[:, np.argsort(taus)], axis=1).min() >= -1e-9, 'ordered', '%s: %s' % (tag, c), event='forest_levels')
    sub = rng.choice(taus, int(rng.integers(1, len(taus) + 1)), replace=False).tolist()
    qs = f.predict_quantiles(xt, quantiles=sub)
    for c in y.columns:
        for t in sub:
            m.close(qs[(c, t)].values, Q[(c, t)].values, 'level-subset', '%s: %s %s' % (tag, c, t))
    if T > 1:
        m.nontrivial('forest', T, ns, vr, str(sorted(p.items(), key=str)))
    m.say(kind='forest', targets=T, per_step=ns, settings=p, levels=taus)


def threads(m, rng, tier):
    from pyforecaster.forecaster import LGBForecaster
    x, y = M.dataset(rng)
    p = lgb_pars(rng)
    out = []
    for j in (1, 2, 4):
        f = LGBForecaster(**p, n_jobs_predict=j)
        f.fit(x.copy(), y.copy())
        out.append(f.predict(x.iloc[:50]))
    for o in out[1:]:
        m.frame_same(o, out[0], 'threads', str(p), event='threads')
    m.say(kind='threads', settings=p)


WORKLOADS = [W('recover', recover, 70, 700), W('reference', reference, 60, 800), W('forest', forest, 40, 500), W('threads', threads, 6, 40),
             W('parallel', parallel, 4, 40)]
