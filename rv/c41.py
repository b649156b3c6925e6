"""C41 metamorphic monitor: the same data under other names, units, column orders and calendar weeks."""
import contextlib
import copy
import io
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D
from rv import models as M
from rv.c01 import build
from rv.trees import warm

PROP = 'C41'
RULE = ('one case = a formatter, forecaster, adaptive model, reconciliation, reduction or score run twice: as it is and with the '
        'signals renamed, columns reordered, unrelated columns added, values in another unit or the calendar moved by whole weeks; '
        'the two results are compared value by value; non-trivial: the renaming / unit / shift is not the identity and the result varies')
REQUIRED = {'renamed_features': 200, 'unrelated_columns': 60, 'renamed_models': 20, 'other_unit': 60, 'other_week': 60, 'adaptive': 60,
            'scores': 100, 'reordered': 60, 'scenarios': 20}
QUICK_S = 200
WEIRD = ['p', 'pp', 'load (kW)', 'T_out', 'T', 'x.y', 'a+b', '^q', 'b_lag', 'mean', 'y', 'a', 'b', 'y2', 'ya', '0', 'sum_1', 'min',
         'target power', 'name2', 'été', 'z-1', 'lag']


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*a, **k)


def rename(spec, mp):
    s = copy.deepcopy(spec)
    s['names'] = [mp[n] for n in s['names']]
    return s


def features(m, rng, tier):
    """renaming, reordering, unrelated signals, whole weeks and units of a formatter's dataset"""
    n = int(rng.integers(60, 130))
    idx = D.index(rng, n, tz=[None, 'UTC'][rng.integers(2)])
    dt = idx[1] - idx[0]
    x = D.signals(rng, idx)
    old = list(x.columns)
    new = [str(s) for s in rng.choice(WEIRD, len(old), replace=False)]
    mp = dict(zip(old, new))
    specs = D.rand_transforms(rng, old, int(rng.integers(1, 4)), -2 if rng.random() < 0.3 else 0, 8, dt=dt)
    ts = [dict(names=['y'], functions=None, agg_freq=None, lags=[-i for i in range(1, int(rng.integers(2, 5)))], relative_lags=False, agg_bins=None)]
    if rng.random() < 0.5:
        ts.append(dict(names=['a'], functions=None, agg_freq=None, lags=[-2], relative_lags=False, agg_bins=None))
    norm = rng.random() < 0.5
    stats = [(['mean', 'max', 'min'][rng.integers(3)], int(rng.integers(1, 5)), 'nr_m'), ('std', int(rng.integers(2, 6)), 'nr_s')]
    kind = rng.choice(['names', 'order', 'extra', 'weeks', 'unit'])
    unit = float(2.0 ** rng.integers(-6, 12)) * rng.choice([1, 1, -1])
    if kind == 'unit' and unit < 0:
        stats = [('mean', 2, 'nr_m'), ('std', 3, 'nr_s')]
        for s in specs:
            if s['functions']:
                s['functions'] = [f if f in ('mean', 'sum', 'median') else 'mean' for f in s['functions']][:1]

    def mk(names):
        from pyforecaster.formatter import Formatter
        mm = dict(zip(old, names))
        f = build([rename(s, mm) for s in specs], [rename(s, mm) for s in ts], None)
        if norm:
            for fun, k, nm in stats:
                f.add_target_normalizer([mm['y']], fun, agg_freq='%dmin' % (k * int(dt.total_seconds() // 60)), name=nm)
            f.add_normalizing_fun("(df[t] - df['nr_m']) / df['nr_s']", "df[t] * df['nr_s'] + df['nr_m']")
        return f
    tf = bool(rng.random() < 0.6)
    f = mk(old)
    x0, t0 = f.transform(x.copy(), time_features=tf)
    if len(x0) < 3:
        return
    gen0 = [c for c in x0.columns if c not in old]
    tag = '%s: %s -> %s' % (kind, specs, ts)
    z, names, scale = x.copy(), old, 1.0
    if kind == 'names':
        z.columns, names = new, new
    elif kind == 'order':
        z = z[[str(c) for c in rng.permutation(old)]]
    elif kind == 'extra':
        extra = [s for s in WEIRD if s not in old]
        for c in rng.choice(extra, 3, replace=False):
            z.insert(int(rng.integers(z.shape[1] + 1)), str(c), rng.normal(0, 1, n))
    elif kind == 'weeks':
        z.index = z.index + pd.Timedelta(7 * int(rng.integers(-60, 60)), unit='D')
    else:
        z, scale = z * unit, unit
    g = mk(names)
    x1, t1 = g.transform(z.copy(), time_features=tf)
    gen1 = [c for c in x1.columns if c not in set(z.columns)]
    if not m.check(len(x1) == len(x0) and t1.shape == t0.shape and len(gen1) == len(gen0), 'shape', '%s: %s %s vs %s %s' % (tag, x1.shape, t1.shape, x0.shape, t0.shape)):
        return
    m.check((np.asarray(x.index.get_indexer(x0.index)) == np.asarray(z.index.get_indexer(x1.index))).all(), 'rows', tag)
    tol = dict(rtol=1e-6, atol=1e-6 * abs(scale) * (1 + np.abs(x.values).max()))
    ev = {'names': 'renamed_features', 'order': 'reordered', 'extra': 'unrelated_columns', 'weeks': 'other_week', 'unit': 'other_unit'}[kind]
    cal = {'hour', 'dayofweek', 'minuteofday', 'utc_offset'}
    meta0 = pd.concat([t.metadata for t in f.transformers + f.target_transformers])
    meta1 = pd.concat([t.metadata for t in g.transformers + g.target_transformers])
    ren = dict(zip(old, names))
    src = {c: [ren.get(v, v) for v in np.atleast_1d(meta0.loc[[c], 'name'].values if 'name' in meta0 else [])] for c in meta0.index}
    for c0, c1 in zip(gen0, gen1):
        if kind != 'names':
            m.check(c0 == c1, 'labels', '%s: %s became %s' % (tag, c0, c1))
        elif c0 in cal or c0.startswith('nr_'):
            m.check(c0 == c1, 'labels', '%s: %s became %s' % (tag, c0, c1))
        else:
            m.check(any(c0.startswith(o) and c1 == w + c0[len(o):] for o, w in mp.items()), 'labels', '%s %s: %s became %s' % (tag, mp, c0, c1))
        s_ = 1.0 if c0 in cal else np.sign(scale) if norm and c0.startswith('y_') else abs(scale) if c0 == 'nr_s' else scale
        m.close(x1[c1].values.astype(float), x0[c0].values.astype(float) * s_, ev + '-feature',
                '%s %s: feature %s / %s' % (tag, mp if kind == 'names' else '', c0, c1), event=ev, **tol)
    for c0, c1 in zip(t0.columns, t1.columns):
        a = np.sign(scale) if norm and str(c0).startswith('y') else scale
        m.close(t1[c1].values, t0[c0].values * a, ev + '-target', '%s: target %s' % (tag, c0), event=ev, **tol)
    if norm:
        b0, b1 = f.denormalize(x0, t0), g.denormalize(x1, t1)
        m.close(b1.values, b0.values * scale, ev + '-denormalized', tag, event=ev, **dict(rtol=1e-5, atol=10 * tol['atol']))
    if not norm and kind in ('names', 'order', 'weeks', 'extra'):
        j = int(rng.integers(t0.shape[1]))
        pa = dict(period='%dmin' % int(dt.total_seconds() // 60 * rng.integers(2, 9)), tol_period=dt * int(rng.integers(0, 3)),
                  method=['periodic', 'up_to'][rng.integers(2)], keep_last_n_lags=int(rng.integers(0, 3)))
        s0 = list(f.prune_dataset_at_stepahead(x0, j, ['hour'] if tf else [], **pa).columns)
        s1 = list(g.prune_dataset_at_stepahead(x1, j, ['hour'] if tf else [], **pa).columns)
        to1 = dict(zip(gen0, gen1))
        m.check(sorted(to1[c] for c in s0 if c in to1) == sorted(c for c in s1 if c in set(gen1)), ev + '-selection', '%s %s step %d %s: %s vs %s' % (
            tag, mp if kind == 'names' else '', j, pa, s0, s1), event=ev)
    m.nontrivial(kind, sorted(map(str, specs)), tuple(names))
    m.say(kind=kind, names=new if kind == 'names' else old, specs=specs)


def model(m, rng, tier):
    """renamed / reordered / rescaled features and targets, moved weeks for every forecaster"""
    name = M.NAMES[int(rng.integers(len(M.NAMES)))]
    T = int(rng.integers(1, 4))
    x, y = M.dataset(rng, T=T, tz=[None, 'UTC'][rng.integers(2)])
    y.columns = ['t%d' % i for i in range(T)]
    kw = dict(M.settings(rng, name, T), val_ratio=[None, 0.3][rng.integers(2)], conditional_to_hour=bool(rng.random() < 0.6),
              q_vect=M.q_vect(rng), max_scengen_rows=[None, 80][rng.integers(2)])
    if kw.get('objective') == 'huber':
        kw['objective'] = 'regression'            # the transition of the Huber loss is an absolute error
    kind = str(rng.choice(['names', 'unit', 'weeks', 'order', 'feature-unit']))
    if kind == 'order' and name != 'linear':
        kind = 'weeks'
    if kind == 'feature-unit' and name in ('rff', 'arff'):
        kind = 'unit'
    if kind == 'feature-unit' and name == 'linear':
        kw['kind'] = 'linear'                     # ridge penalizes the coefficients in their own unit
    s = int(rng.integers(1e6))
    x1, y1, xt, scale = x.copy(), y.copy(), x.iloc[::5], 1.0
    if kind == 'names':
        safe = [w for w in WEIRD if not set(w) & set('[]{}:,"')]
        x1.columns = [str(v) for v in rng.choice(safe, x.shape[1], replace=False)]
        y1.columns = [str(v) for v in rng.choice(safe, T, replace=False)]
    elif kind == 'unit':
        scale = float(2.0 ** rng.integers(-4, 9))
        y1 = y1 * scale
    elif kind == 'weeks':
        d = pd.Timedelta(7 * int(rng.integers(-60, 60)), unit='D')
        x1.index = x1.index + d
        y1.index = y1.index + d
    elif kind == 'order':
        x1 = x1[[str(c) for c in rng.permutation(x.columns)]]
    else:
        x1 = x1 * np.array([2.0 ** rng.integers(-4, 9) for _ in range(x.shape[1])])
    xt1 = x1.iloc[::5]
    f, g = quiet(M.fit, name, x.copy(), y.copy(), s, **kw), quiet(M.fit, name, x1.copy(), y1.copy(), s, **kw)
    tag = '%s %s %s' % (kind, name, kw)
    amp = np.abs(y.values).max()
    ev = {'names': 'renamed_models', 'unit': 'other_unit', 'weeks': 'other_week', 'order': 'reordered', 'feature-unit': 'other_unit'}[kind]
    tol = dict(rtol=1e-6, atol=1e-6 * amp * scale)
    p0, p1 = f.predict(xt.copy()), g.predict(xt1.copy())
    m.check(list(p1.columns) == list(y1.columns), 'labels', '%s: %s' % (tag, list(p1.columns)))
    m.close(p1.values, p0.values * scale, ev + '-forecast', tag, event=ev, **tol)
    q0, q1 = f.predict_quantiles(xt.copy()), g.predict_quantiles(xt1.copy())
    m.check(list(dict.fromkeys(q1.columns.get_level_values(0))) == list(y1.columns), 'labels', '%s: %s' % (tag, list(q1.columns)[:4]))
    m.close(q1.values, q0.values * scale, ev + '-quantiles', tag, event=ev, **tol)
    if T > 1:
        s0 = f.predict_scenarios(xt.iloc[:3].copy(), n_scen=20, random_state=4)
        s1 = g.predict_scenarios(xt1.iloc[:3].copy(), n_scen=20, random_state=4)
        # with few rows per hour the correlations are singular and their factorization is free to rotate by rounding
        rows = min(len(x) * (kw.get('val_ratio') or 1), kw.get('max_scengen_rows') or 1e9) / 24
        m.close(s1, s0 * scale, ev + '-scenarios', tag, event='scenarios', rtol=1e-4, atol=(1e-4 if rows >= T + 3 else 0.03) * amp * scale)
    if p0.values.std() > 0 and (kind != 'unit' or scale != 1):
        m.nontrivial(kind, name, sorted(map(str, kw.items())), T)
    m.say(kind=kind, model=name, settings=kw)


def series(rng, n):
    t = np.arange(n)
    y = np.sin(2 * np.pi * t / rng.integers(3, 30)) * rng.uniform(0.5, 3) + rng.normal(0, 0.5, n) + rng.uniform(-4, 4)
    idx = D.index(rng, n, step='1h', tz=[None, 'UTC'][rng.integers(2)])
    return pd.DataFrame({'y': y, 'b': rng.normal(0, 1, n)}, index=idx)


def adaptive(m, rng, tier):
    from pyforecaster.forecasting_models.holtwinters import HoltWinters, HoltWintersMulti
    from pyforecaster.forecasting_models.fast_adaptive_models import Fourier_es, FK, FK_multi
    from pyforecaster.forecasting_models.benchmarks import Persistent, SeasonalPersistent
    from pyforecaster.forecasting_models.statsmodels_wrapper import ExponentialSmoothing
    name = str(rng.choice(['hw', 'hwm', 'fourier', 'fk', 'multi', 'persist', 'seasonal']))
    n = int(rng.integers(180, 260))
    df = series(rng, n)
    n_sa = int(rng.integers(2, 7))
    q = [0.1, 0.5, 0.9]
    a, o = float(rng.uniform(0.3, 0.95)), float(rng.uniform(0.3, 0.99))
    mm = int(rng.integers(n_sa + 2, 25))
    per = [None, int(rng.integers(n_sa, mm))][rng.integers(2)]
    nh = int(rng.integers(1, max(2, (mm - 1) // 2)))
    P = sorted(rng.choice(np.arange(3, 13), 2, replace=False).tolist())
    g_ = [float(v) for v in rng.uniform(0, 0.3, 4)]
    cond = bool(rng.random() < 0.5)

    def mk(t):
        if name == 'hw':
            return HoltWinters(periods=P, n_sa=n_sa, alpha=g_[0], beta=g_[1] * 0.1, gamma_1=g_[2], gamma_2=g_[3], target_name=t, q_vect=q, optimize_hyperpars=False, verbose=False)
        if name == 'hwm':
            return HoltWintersMulti(periods=P, n_sa=n_sa, models_periods=np.array([1, n_sa]), alphas=g_[:2], gammas_1=g_[2:], gammas_2=g_[1:3], target_name=t, q_vect=q, optimize_hyperpars=False,
                                    optimize_submodels_hyperpars=False, verbose=False)
        c = dict(target_name=t, n_sa=n_sa, m=mm, q_vect=q, optimize_hyperpars=False, verbose=False)
        if name == 'fourier':
            return Fourier_es(alpha=a, omega=o, n_harmonics=nh, periodicity=per, **c)
        if name == 'fk':
            return FK(alpha=a, omega=o, n_harmonics=nh, periodicity=per, r=0.1, q=0.2, **c)
        if name == 'multi':
            return FK_multi(n_predictors=2, base_predictor=Fourier_es, optimize_submodels_hyperpars=False, **c)
        if name == 'persist':
            return Persistent(t, n_sa=n_sa, q_vect=q, val_ratio=0.3, conditional_to_hour=cond)
        return SeasonalPersistent(t, seasonality=24, n_sa=n_sa, q_vect=q, val_ratio=0.3, conditional_to_hour=cond)
    kind = str(rng.choice(['names', 'weeks', 'unit', 'extra']))
    d1, t1, scale = df.copy(), 'y', 1.0
    if kind == 'names':
        w = [str(v) for v in rng.choice(WEIRD, 2, replace=False)]
        d1.columns, t1 = w, w[0]
    elif kind == 'weeks':
        d1.index = d1.index + pd.Timedelta(7 * int(rng.integers(-60, 60)), unit='D')
    elif kind == 'unit':
        scale = float(2.0 ** rng.integers(-4, 9))
        d1 = d1 * scale
    else:
        d1.insert(int(rng.integers(3)), 'w', rng.normal(0, 1, n))
    k = int(n * 0.7)
    if name in ('hw', 'hwm'):          # the other columns are covariates of these models
        df = df[['y']]
        d1 = d1[[t1]]
        if kind == 'extra':
            kind, scale = 'unit', 4.0
            d1 = d1 * scale
    tag = '%s %s horizon %d window %d period %s' % (kind, name, n_sa, mm, per)
    f, g = quiet(mk, 'y'), quiet(mk, t1)
    quiet(f.fit, df.iloc[:k])
    quiet(g.fit, d1.iloc[:k])
    p0, p1 = quiet(f.predict, df.iloc[k:]), quiet(g.predict, d1.iloc[k:])
    tol = dict(rtol=1e-6, atol=1e-6 * scale * np.abs(df['y']).max())
    if not np.isfinite(p0.values).all() or np.abs(p0.values).max() > 1e6:
        return
    m.close(p1.values, p0.values * scale, 'adaptive-forecast', tag, event='adaptive', **tol)
    f, g = quiet(mk, 'y'), quiet(mk, t1)
    quiet(f.fit, df.iloc[:k])
    quiet(g.fit, d1.iloc[:k])
    q0, q1 = quiet(f.predict_quantiles, df.iloc[k:]), quiet(g.predict_quantiles, d1.iloc[k:])
    m.close(q1.values, q0.values * scale, 'adaptive-quantiles', tag, event='adaptive', **tol)
    m.nontrivial(kind, name, n_sa, mm, per)
    m.say(kind=kind, model=name)


def scores(m, rng, tier):
    from pyforecaster import metrics as Me
    n, T = int(rng.integers(20, 90)), int(rng.integers(1, 5))
    idx = D.index(rng, n, tz=[None, 'UTC'][rng.integers(2)])
    y = pd.DataFrame(rng.uniform(1, 5, (n, T)), index=idx, columns=['t%d' % i for i in range(T)])
    h = y + rng.normal(0, 0.5, (n, T))
    taus = [0.1, 0.3, 0.5, 0.7, 0.9]
    Q = np.sort(h.values[:, :, None] + rng.normal(0, 0.6, (n, T, len(taus))), axis=2)
    mi = lambda names: pd.MultiIndex.from_product([names, taus], names=['target', 'quantile'])
    q = pd.DataFrame(Q.reshape(n, -1), index=idx, columns=mi(y.columns))
    by = pd.DataFrame(rng.integers(0, 3, (n, 1)).astype(float), index=idx, columns=['g'])
    kind = str(rng.choice(['names', 'weeks', 'unit', 'rows', 'steps']))
    y1, h1, q1, b1, scale = y.copy(), h.copy(), q.copy(), by.copy(), 1.0
    if kind == 'names':
        w = [str(v) for v in rng.choice(WEIRD, T, replace=False)]
        y1.columns = h1.columns = w
        q1.columns = mi(w)
    elif kind == 'weeks':
        for z in (y1, h1, q1, b1):
            z.index = z.index + pd.Timedelta(7 * 13, unit='D')
    elif kind == 'unit':
        scale = float(2.0 ** rng.integers(-4, 9))
        y1, h1, q1 = y1 * scale, h1 * scale, q1 * scale
    elif kind == 'rows':
        p = rng.permutation(n)
        y1, h1, q1, b1 = y1.iloc[p], h1.iloc[p], q1.iloc[p], b1.iloc[p]
    else:
        p = [str(c) for c in rng.permutation(y.columns)]
        y1, h1, q1 = y1[p], h1[p], q1[p]
    steps = bool(rng.random() < 0.5)
    g0 = {} if not steps else dict(agg_index=np.asarray(by['g'].values[:, ]))
    g1 = {} if not steps else dict(agg_index=np.asarray(b1['g'].values))
    for fn, pw, quant in ((Me.rmse, 1, 0), (Me.mape, None, 0), (Me.nmae, 0, 0), (Me.quantile_scores, 1, 1), (Me.reliability, 0, 1), (Me.crps, 1, 1)):
        if kind == 'unit' and fn in (Me.mape, Me.nmae):
            pw = 0
        ar = dict(alphas=taus) if quant else {}
        a, b = fn(q if quant else h, y, **ar, **g0), fn(q1 if quant else h1, y1, **ar, **g1)
        a, b = (a[0], b[0]) if isinstance(a, tuple) else (a, b)
        if kind == 'names':
            back = dict(zip(y1.columns, y.columns))
            b = b.rename(columns=back)
        if kind in ('names', 'steps'):
            if not m.check(sorted(map(str, b.columns)) == sorted(map(str, a.columns)), 'score-labels', '%s under %s: %s vs %s' % (fn.__name__, kind, list(b.columns), list(a.columns)), event='scores'):
                continue
            b = b[a.columns]
        m.close(b.values, a.values * scale ** (pw or 0), 'score', '%s under %s' % (fn.__name__, kind), event='scores', rtol=1e-3 if fn is Me.mape else 1e-7, atol=1e-9)
    m.nontrivial(kind, n, T)
    m.say(kind=kind, rows=n, steps=T)


def trees(m, rng, tier):
    """scenario reduction in another unit keeps structure and probabilities"""
    from pyforecaster.scenred import scenred
    T, n = int(rng.integers(2, 7)), int(rng.integers(6, 40))
    s = np.cumsum(rng.normal(0, 1, (T, n)), axis=0)
    s[0] = s[0, 0] if rng.random() < 0.5 else s[0]
    nodes = np.minimum(np.cumprod(np.r_[1, rng.integers(1, 3, T - 1)]), n)
    a = scenred(s.copy(), nodes=nodes)
    scale = float(2.0 ** rng.integers(-4, 9)) * [1, -1][rng.integers(2)]
    b = scenred(s * scale, nodes=nodes)
    ga, gb = a[4], b[4]
    key = lambda g, c: sorted((int(d['t']), round(float(d['p']), 9), round(float(np.ravel(d['v'])[0]) * c, 6)) for _, d in g.nodes(data=True))
    ka, kb = key(ga, 1.0), key(gb, 1 / scale)
    m.check(len(ka) == len(kb) and np.allclose(np.array(ka), np.array(kb), atol=2e-6), 'reduction-unit', 'horizon %d scenarios %d nodes %s scale %s' % (T, n, nodes, scale), event='other_unit')
    p = rng.permutation(n)
    m.nontrivial('tree', T, n)


WORKLOADS = [W('features', features, 220, 3000), W('model', model, 90, 1200), W('adaptive', adaptive, 70, 900), W('scores', scores, 60, 900), W('trees', trees, 40, 600)]
