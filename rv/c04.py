"""C04 normalization round trip, reference values, scope of the normalization."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D

PROP = 'C04'
RULE = ('one case = random dataset x normalizers (statistic, window, lag) x invertible expression x targets; reference: the '
        'expression evaluated by the oracle on brute-force normalizers; non-trivial: the normalized target differs from the raw one')
REQUIRED = {'normalizer_values': 80, 'normalized_targets': 80, 'round_trip': 80, 'quantile_round_trip': 60, 'quantiles_kept': 10, 'other_signal_untouched': 60,
            'feature_normalized': 60, 'forecaster_units': 30, 'several_columns': 150}
QUICK_S = 120

EXPR = [("(df[t] - df['m']) / (df['s'] + 1)", "df[t] * (df['s'] + 1) + df['m']", lambda v, m, s: (v - m) / (s + 1), lambda v, m, s: v * (s + 1) + m),
        ("df[t] - df['m']", "df[t] + df['m']", lambda v, m, s: v - m, lambda v, m, s: v + m),
        ("df[t] / (1 + np.abs(df['m']))", "df[t] * (1 + np.abs(df['m']))", lambda v, m, s: v / (1 + abs(m)), lambda v, m, s: v * (1 + abs(m))),
        ("np.arcsinh(df[t]) - df['s']", "np.sinh(df[t] + df['s'])", lambda v, m, s: np.arcsinh(v) - s, lambda v, m, s: np.sinh(v + s))]


def setup(rng, dt, normalize=True, others=True, expr=None, stats=None, tl=3):
    from pyforecaster.formatter import Formatter
    f = Formatter()
    f.add_transform(['y', 'b'], lags=[0, 1, 2])
    if others:
        f.add_transform(['a'], lags=[1])
    f.add_target_transform(['y'], lags=[-i for i in range(1, tl + 1)])
    if others:
        f.add_target_transform(['a'], lags=[-1, -2])
    if normalize:
        for nm, (fun, k, lag) in stats.items():
            f.add_target_normalizer(['y'], fun, agg_freq='%dmin' % (k * int(dt.total_seconds() // 60)),
                                    lags=lag, name=nm)
        f.add_normalizing_fun(expr[0], expr[1])
    return f


def draw(rng):
    n = int(rng.integers(70, 120))
    idx = D.index(rng, n)
    dt = idx[1] - idx[0]
    x = D.signals(rng, idx)
    stats = {'m': (['mean', 'max', 'min'][rng.integers(3)], int(rng.integers(1, 9)), [None, 1, [2]][rng.integers(3)]),
             's': ('std', int(rng.integers(2, 9)), [None, 3][rng.integers(2)])}
    return x, dt, stats, EXPR[int(rng.integers(len(EXPR)))]


def roundtrip(m, rng, tier):
    x, dt, stats, expr = draw(rng)
    raw = setup(rng, dt, normalize=False)
    f = setup(rng, dt, expr=expr, stats=stats)
    x0, t0 = raw.transform(x.copy(), time_features=False)
    xin = x.copy()
    xn, tn = f.transform(xin, time_features=False)
    m.check(xin.equals(x), 'input-mutated', 'transform changed its input')
    m.check(xn.index.equals(tn.index), 'alignment', 'rows differ')
    pos = x.index.get_indexer(xn.index)
    nr = {}
    for nm, (fun, k, lag) in stats.items():
        l = 0 if lag is None else int(np.atleast_1d(lag)[0])
        nr[nm] = D.window_series(x['y'].values, fun, -l - k + 1, -l)[pos]
        m.close(xn[nm].values, nr[nm], 'normalizer-value', '%s = %s over %d steps lag %s' % (nm, fun, k, lag), rtol=1e-6, atol=1e-6,
                event='normalizer_values')
    idx = xn.index
    m.check(idx.isin(x0.index).all(), 'row-set', 'rows appear only with normalization')
    t0, x0 = t0.loc[idx], x0.loc[idx]
    ycols = [c for c in t0.columns if str(c).startswith('y')]
    acols = [c for c in t0.columns if str(c).startswith('a')]
    for c in ycols:
        m.close(tn[c].values, expr[2](t0[c].values, nr['m'], nr['s']), 'normalized-value', 'target %s, %s' % (c, expr[0]),
                rtol=1e-6, atol=1e-6, event='normalized_targets')
    m.close(tn[acols].values, t0[acols].values, 'other-signal-normalized', 'target of a signal without normalizer',
            event='other_signal_untouched', rtol=1e-9)
    for c in [c for c in x0.columns if str(c).startswith('b_lag') or str(c).startswith('a_lag')]:
        m.close(xn[c].values, x0[c].values, 'other-feature-normalized', 'feature %s' % c, rtol=1e-9)
    for c in [c for c in x0.columns if str(c).startswith('y_lag')]:
        m.close(xn[c].values, expr[2](x0[c].values, nr['m'], nr['s']), 'feature-normalized-value', 'feature %s' % c, rtol=1e-6,
                atol=1e-6, event='feature_normalized')
    xb, tb = xn.copy(), tn.copy()
    back = f.denormalize(xn, tn)
    m.frame_same(back[t0.columns], t0, 'round-trip', 'denormalize(normalize(y)), %s' % expr[0], rtol=1e-6, atol=1e-6, event='round_trip')
    m.check(xn.equals(xb), 'features-mutated', 'denormalize changed the features')
    m.check(tn.equals(tb), 'targets-mutated', 'denormalize changed the targets passed in')
    # a subset of rows, in prediction order
    k = int(rng.integers(1, len(xn)))
    sub = np.sort(rng.choice(len(xn), k, replace=False))
    m.frame_same(f.denormalize(xn.iloc[sub], tn.iloc[sub].copy())[t0.columns], t0.iloc[sub], 'round-trip-subset', 'row subset', rtol=1e-6, atol=1e-6)
    if np.abs(tn[ycols].values - t0[ycols].values).max() > 1e-6:
        m.nontrivial(stats, expr[0], len(x))
    m.say(expr=expr[0], stats=stats, rows=len(xn))


def several(m, rng, tier):
    """normalizers of several signals: every signal named by a normalizer is normalized, and no other one"""
    from pyforecaster.formatter import Formatter
    x, dt, _, _ = draw(rng)
    k = [int(rng.integers(2, 9)) for _ in range(2)]
    fun = [['mean', 'max', 'min'][rng.integers(3)] for _ in range(2)]
    who = [('y', 'a'), ('a', 'y'), ('y', 'y')][rng.integers(3)]
    fr = lambda j: '%dmin' % (j * int(dt.total_seconds() // 60))
    e = ("(df[t] - df['m']) / (1 + df['s']**2)", "df[t] * (1 + df['s']**2) + df['m']")

    def make(norm):
        f = Formatter()
        f.add_transform(['y', 'a'], lags=[0, 2])
        f.add_transform(['b'], lags=[1])
        split = rng2.random() < 0.5
        if split:
            f.add_target_transform(['y'], lags=[-1, -2]); f.add_target_transform(['a', 'b'], lags=[-1])
        else:
            f.add_target_transform(['y', 'a', 'b'], lags=[-1, -2])
        if norm:
            for nm, w, fu, kk in zip(('m', 's'), who, fun, k):
                f.add_target_normalizer([w], fu, agg_freq=fr(kk), name=nm)
            f.add_normalizing_fun(*e)
        return f
    s0 = int(rng.integers(1 << 30))
    rng2 = np.random.default_rng(s0); x0, t0 = make(False).transform(x.copy(), time_features=False)
    rng2 = np.random.default_rng(s0); f = make(True)
    xn, tn = f.transform(x.copy(), time_features=False)
    pos = x.index.get_indexer(xn.index)
    nr = [D.window_series(x[w].values, fu, 1 - kk, 0)[pos] for w, fu, kk in zip(who, fun, k)]
    for raw, nrm, what in ((t0.loc[tn.index], tn, 'target'), (x0.loc[xn.index], xn, 'feature')):
        for c in [c for c in raw.columns if '_lag_' in str(c)]:
            v = raw[c].values
            exp = (v - nr[0]) / (1 + nr[1] ** 2) if str(c)[0] in who else v
            m.close(nrm[c].values, exp, 'several-normalizers', '%s %s, normalizers of %s' % (what, c, who), rtol=1e-6, atol=1e-6,
                    event='several_columns')
    m.frame_same(f.denormalize(xn, tn.copy())[t0.columns], t0.loc[tn.index], 'round-trip', 'several normalizers %s' % (who,), rtol=1e-6, atol=1e-6)
    m.nontrivial('several', who, fun, k)


def quantiles(m, rng, tier):
    x, dt, stats, expr = draw(rng)
    f = setup(rng, dt, others=False, expr=expr, stats=stats)
    xn, tn = f.transform(x.copy(), time_features=False)
    taus = np.sort(rng.choice(np.linspace(0.01, 0.99, 30), int(rng.integers(2, 7)), replace=False)).round(4)
    mi = pd.MultiIndex.from_product([tn.columns, taus], names=['target', 'quantile'])
    off = np.sort(rng.normal(0, 1, len(taus)))
    q = pd.DataFrame(np.hstack([tn[[c]].values + off for c in tn.columns]), index=tn.index, columns=mi)
    xb = xn.copy()
    qb = q.copy()
    back = f.denormalize(xn, q)
    m.check(q.equals(qb), 'targets-mutated', 'denormalize changed the quantiles passed in', event='quantiles_kept')
    q = qb
    m.check(list(back.columns) == list(mi), 'quantile-labels', 'labels changed')
    for c in tn.columns:
        for tau in taus:
            m.close(back[(c, tau)].values, expr[3](q[(c, tau)].values, xn['m'].values, xn['s'].values), 'quantile-round-trip',
                    'column %s level %s %s' % (c, tau, expr[0]), rtol=1e-6, atol=1e-6, event='quantile_round_trip')
    m.check(xn.equals(xb), 'features-mutated', 'denormalize changed the features')
    m.nontrivial('q', stats, expr[0], len(taus))


def forecaster(m, rng, tier):
    """a forecaster that owns the formatter returns forecasts in original units"""
    from pyforecaster.forecaster import LinearForecaster
    from sklearn.linear_model import LinearRegression
    x, dt, stats, expr = draw(rng)
    x = D.signals(rng, D.index(rng, 260, step=dt))
    expr = EXPR[int(rng.integers(3))]
    f = setup(rng, dt, others=False, expr=expr, stats=stats)
    xn, tn = f.transform(x.copy(), time_features=False)
    k = int(0.7 * len(xn))
    fc = LinearForecaster(formatter=f, val_ratio=0.3)
    fc.fit(xn.iloc[:k].copy(), tn.iloc[:k].copy())
    p = fc.predict(xn.iloc[k:].copy())
    n_val = int(k * 0.3)
    lr = LinearRegression().fit(xn.iloc[:k - n_val].values, tn.iloc[:k - n_val].values)
    pn = lr.predict(xn.iloc[k:].values)
    ref = np.column_stack([expr[3](pn[:, j], xn['m'].values[k:], xn['s'].values[k:]) for j in range(pn.shape[1])])
    m.close(p.values, ref, 'forecaster-units', 'forecast with formatter, %s' % expr[0], rtol=1e-5, atol=1e-5, event='forecaster_units')
    q = fc.predict_quantiles(xn.iloc[k:].copy(), dataframe=False)
    # residuals must be in original units too
    v = slice(k - n_val, k)
    pv = lr.predict(xn.iloc[v].values)
    pv = np.column_stack([expr[3](pv[:, j], xn['m'].values[v], xn['s'].values[v]) for j in range(pv.shape[1])])
    yv = np.column_stack([expr[3](tn.values[v][:, j], xn['m'].values[v], xn['s'].values[v]) for j in range(pv.shape[1])])
    err = yv - pv
    hv, ht = xn.index[v].hour, xn.index[k:].hour
    if len(np.unique(hv)) == 24:
        exp = np.stack([np.quantile(err[hv == h], fc.q_vect, axis=0).T for h in ht]) + ref[:, :, None]
    else:
        exp = np.quantile(err, fc.q_vect, axis=0).T[None] + ref[:, :, None]
    m.close(q, exp, 'quantile-units', 'quantiles with formatter', rtol=1e-5, atol=1e-5)
    m.nontrivial('fc', expr[0], stats)


WORKLOADS = [W('several', several, 60, 600), W('roundtrip', roundtrip, 120, 1500), W('quantiles', quantiles, 60, 600), W('forecaster', forecaster, 50, 500)]
