"""C38 State-space exponential smoothing: the wrapper against a plain recursion and a one-shot filter, at every place the data may start."""
import contextlib
import io
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D
from rv import models as M

PROP = 'C38'
RULE = ('one case = series, trend and season, horizon, levels, missing training values; the fitted parameters are read from the model, forecasts are '
        'recomputed by a plain recursion and by filtering the whole known past at once; the data to predict starts right after, some steps after, '
        'inside or at the start of the training set, is cut, and has its later rows replaced; non-trivial: horizon over one step')
REQUIRED = {'recursion': 10, 'one_shot': 20, 'residual_quantiles': 10, 'quantiles': 10, 'no_look_ahead': 15, 'cut': 15, 'after_gap': 5, 'inside_training': 5,
            'missing': 4, 'refit': 3, 'seasonal': 8, 'short': 15, 'gap_rows': 15}
QUICK_S = 200


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


def recursion(y, par, season, n_sa):
    """additive error-correction form from the fitted initial states; row i forecasts the n_sa values after y[i]."""
    al, be, ga = par['smoothing_level'], par.get('smoothing_trend', 0.0), par.get('smoothing_seasonal', 0.0)
    l, b = par['initial_level'], par.get('initial_trend', 0.0)
    s = None
    if season:
        s = [par['initial_seasonal']] + [par['initial_seasonal.L%d' % k] for k in range(1, season - 1)]
        s = s + [-np.sum(s)]
        s = s[::-1]                       # s[0]: factor of the next observation; initial_seasonal is the latest one
    return l, b, s, al, be, ga


def run(y, l, b, s, al, be, ga, n_sa):
    out = []
    s = list(s) if s else None
    for v in y:
        e = v - (l + b + (s[0] if s else 0.0))
        l, b = l + b + al * e, b + be * e
        if s:
            s = s[1:] + [s[0] + ga * e]
        out.append([l + h * b + (s[(h - 1) % len(s)] if s else 0.0) for h in range(1, n_sa + 1)])
    return np.array(out)


def make(rng, n):
    season = [None, 3, 4, 6][rng.integers(4)]
    idx = D.index(rng, n, step=['1h', '30min', '15min', '1D'][rng.integers(4)], tz=[None, 'UTC'][rng.integers(2)])
    t = np.arange(n)
    y = rng.uniform(-5, 20) + 0.02 * rng.normal() * t + np.sin(2 * np.pi * t / (season or 5)) * rng.uniform(1, 4) + rng.normal(0, 0.3, n)
    df = pd.DataFrame({'y': y, 'b': rng.normal(0, 1, n)}, index=idx)
    return season, (df if rng.random() < 0.5 else df[['b', 'y']])


def case(m, rng, tier):
    from pyforecaster.forecasting_models.statsmodels_wrapper import ExponentialSmoothing
    from statsmodels.tsa.statespace import exponential_smoothing as es
    n = int(rng.integers(60, 110))
    season, df = make(rng, n)
    n_tr = n - int(rng.integers(22, 30))
    n_sa = int(rng.integers(1, 8))
    trend = bool(rng.random() < 0.4)
    tr = df.iloc[:n_tr].copy()
    holes = rng.random() < 0.3
    if holes:
        tr.iloc[rng.choice(np.arange(5, n_tr), int(rng.integers(1, 6)), replace=False), tr.columns.get_loc('y')] = np.nan
        m.ev('missing')
    f = ExponentialSmoothing('y', q_vect=M.q_vect(rng), n_sa=n_sa, trend=trend, seasonal=season)
    tr0 = tr.copy()
    quiet(f.fit, tr)
    m.check(tr.equals(tr0), 'data-modified', 'fit')
    tag = 'trend %s season %s horizon %d rows %d holes %s' % (trend, season, n_sa, n_tr, holes)
    par = dict(f.model.params)
    full = df['y'].copy()
    full.iloc[:n_tr] = tr['y']
    names = ['y_t+%d' % k for k in range(1, n_sa + 1)]
    if season:
        m.ev('seasonal')

    def one_shot(y):
        mod = es.ExponentialSmoothing(endog=y.asfreq(df.index.freq or pd.infer_freq(df.index)), trend=trend, seasonal=season)
        return np.asarray(mod.filter(f.model.params).forecast(n_sa))

    tol = dict(rtol=1e-6, atol=1e-6 * (1 + float(np.nanmax(np.abs(full)))))
    # in-sample forecasts and residual quantiles
    inn = quiet(f.predict, tr)
    m.check(inn.index.equals(tr.index) and list(inn.columns) == names, 'labels', '%s: %s' % (tag, list(inn.columns)))
    if not holes:
        st = recursion(tr['y'].values, par, season, n_sa)
        R = run(tr['y'].values, *st, n_sa)
        m.close(inn.values, R, 'recursion', tag, event='recursion', **tol)
    else:
        for i in np.sort(rng.choice(np.arange(4, n_tr), 4, replace=False)):
            m.close(inn.values[i], one_shot(tr['y'].iloc[:i + 1]), 'one-shot', '%s: training row %d' % (tag, i), event='one_shot', **tol)
        R = inn.values
    Y = np.array([tr['y'].values[i + 1:i + 1 + n_sa] for i in range(n_tr - n_sa)])
    taus = np.asarray(f.q_vect, float)
    E = np.nanquantile(Y - R[:n_tr - n_sa], taus, axis=0).T
    m.close(f.err_distr, E, 'residual-quantiles', tag, event='residual_quantiles', **tol)
    # data starting right after the training set, after a gap, inside it, at its start
    starts = {'next': n_tr, 'gap': n_tr + int(rng.integers(1, 9)), 'inside': int(rng.integers(1, n_tr - 1)), 'first': 0}
    kind = ['next', 'gap', 'gap', 'inside', 'first'][rng.integers(5)]
    for k in {'next', kind}:
        a = starts[k]
        te = df.iloc[a:a + int(rng.integers(10, 14))]
        if k == 'inside' and holes:
            te = tr.iloc[a:a + 12]
        if len(te) < 4:
            continue
        if rng.random() < 0.4:
            te = te.copy()
            te.iloc[int(rng.integers(1, len(te) - 1)), te.columns.get_loc('y')] = np.nan
            m.ev('missing')
        te0, p0 = te.copy(), np.asarray(f.model.params).copy()
        P = quiet(f.predict, te)
        m.check(te.equals(te0), 'data-modified', 'predict')
        m.check((np.asarray(f.model.params) == p0).all(), 'model-modified', 'predict')
        m.check(P.index.equals(te.index) and list(P.columns) == names, 'labels', '%s: %s' % (tag, list(P.columns)))
        past = full.iloc[:min(a, n_tr)]
        for i in [0, len(te) - 1, int(rng.integers(len(te)))]:
            y = pd.concat([past, te['y'].iloc[:i + 1]])
            m.close(P.values[i], one_shot(y), 'one-shot', '%s: data starts %s at %d, row %d' % (tag, k, a, i), event='one_shot', **tol)
        if k == 'gap':
            m.ev('after_gap')
        if k in ('inside', 'first'):
            m.ev('inside_training')
        # cut and replaced later rows
        c = int(rng.integers(1, len(te)))
        m.close(quiet(f.predict, te.iloc[:c]).values, P.values[:c], 'cut', '%s: %s cut at %d' % (tag, k, c), event='cut', **tol)
        te2 = te.copy()
        te2.iloc[c:] = rng.normal(50, 10, te2.iloc[c:].shape)
        m.close(quiet(f.predict, te2).values[:c], P.values[:c], 'no-look-ahead', '%s: %s from row %d' % (tag, k, c), event='no_look_ahead', **tol)
        te2 = te.copy()
        te2['b'] = 0.0
        m.close(quiet(f.predict, te2).values, P.values, 'other-columns', tag, **tol)
        Q = quiet(f.predict_quantiles, te)
        m.check(Q.index.equals(te.index) and list(Q.columns) == [(c_, t) for c_ in names for t in f.q_vect], 'quantile-labels', '%s: %s' % (tag, list(Q.columns)[:3]))
        m.close(Q.values.reshape(len(te), n_sa, -1), P.values[:, :, None] + E, 'quantiles', tag, event='quantiles', **tol)
        # a few rows, as when called at every step, and rows with a gap between them
        c = int(rng.integers(1, 4))
        m.close(quiet(f.predict, te.iloc[:c]).values, P.values[:c], 'short', '%s: %s first %d rows' % (tag, k, c), event='short', **tol)
        m.close(quiet(f.predict_quantiles, te.iloc[:c]).values, Q.values[:c], 'short', '%s: %s quantiles of the first %d rows' % (tag, k, c), **tol)
        c = int(rng.integers(1, len(te) - 2))
        te2 = te.copy()
        te2.iloc[c, te2.columns.get_loc('y')] = np.nan
        got = quiet(f.predict, te2.drop(te2.index[c]))
        m.check(got.index.equals(te.index.delete(c)), 'labels', '%s: %s without row %d' % (tag, k, c))
        m.close(got.values, np.delete(quiet(f.predict, te2).values, c, axis=0), 'gap-rows', '%s: %s without row %d' % (tag, k, c), event='gap_rows', **tol)
    # a second fit is the fit of a new model
    if rng.random() < 0.35:
        season2, df2 = season, df.iloc[7:7 + n_tr].copy()
        g = ExponentialSmoothing('y', q_vect=f.q_vect, n_sa=n_sa, trend=trend, seasonal=season)
        quiet(g.fit, df2)
        quiet(f.fit, df2)
        m.close(np.asarray(f.model.params), np.asarray(g.model.params), 'refit', tag, event='refit')
        m.close(f.err_distr, g.err_distr, 'refit', tag)
        te = df2.iloc[-6:]
        m.close(quiet(f.predict, te).values, quiet(g.predict, te).values, 'refit', tag)
    if n_sa > 1:
        m.nontrivial(trend, season, n_sa, n, holes, kind)
    m.say(trend=trend, season=season, horizon=n_sa, rows=n_tr, missing=holes, start=kind)


WORKLOADS = [W('statespace', case, 48, 700)]
