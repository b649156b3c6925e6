"""C26 Holt-Winters: the compiled recursion against a plain Python one, chunked and perturbed streams, tuning trials watched."""
import contextlib
import copy
import io
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D
from rv import models as M

PROP = 'C26'
RULE = ('one case = series, two seasonal periods, horizon (also longer than a period), smoothing parameters, constraints, covariates; the states and '
        'forecasts are recomputed by a plain Python recursion from the fitted states, streams are cut into random chunks, later observations are '
        'replaced and observations removed; tuning trials are recorded and the returned parameters compared with the best; non-trivial: all smoothing '
        'parameters strictly inside (0, 1) and at least two steps')
REQUIRED = {'recursion': 60, 'chunks': 60, 'no_look_ahead': 60, 'quantiles': 60, 'in_sample': 60, 'missing': 20, 'covariates': 20, 'trend': 15,
            'constraints': 15, 'refit': 15, 'horizon_over_period': 10, 'multi': 20, 'multi_quantiles': 20, 'trials': 8, 'parallel_tuning': 1}
QUICK_S = 250


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


def recursion(y, periods, n_sa, al, be, g1, g2, a, b, s1, s2, con):
    """additive double-seasonal smoothing; the seasonal lists start at the factor of the next observation."""
    s1, s2 = list(np.asarray(s1, float)), list(np.asarray(s2, float))
    out = []
    lo, hi = (-np.inf, np.inf) if con is None else con
    for v in np.asarray(y, float):
        if np.isnan(v):
            v = a + b + s1[0] + s2[0]
        an = al * (v - s1[0] - s2[0]) + (1 - al) * (a + b)
        n1 = g1 * (v - an - s2[0]) + (1 - g1) * s1[0]
        n2 = g2 * (v - an - s1[0]) + (1 - g2) * s2[0]
        b = be * (an - a) + (1 - be) * b
        a = an
        s1 = s1[1:] + [min(max(n1, lo), hi)]
        s2 = s2[1:] + [min(max(n2, lo), hi)]
        out.append([a + h * b + s1[(h - 1) % periods[0]] + s2[(h - 1) % periods[1]] for h in range(1, n_sa + 1)])
    return np.array(out).reshape(len(y), n_sa), a, b, np.array(s1), np.array(s2)


def config(rng):
    p = sorted(rng.choice(np.arange(2, 16), 2, replace=False).tolist())
    if rng.random() < 0.2:
        p = p[::-1]
    n_sa = int(rng.integers(1, 20))
    beta = 0.0 if rng.random() < 0.6 else float(rng.uniform(0.02, 0.3))
    con = None if rng.random() < 0.7 else [float(-rng.uniform(0.2, 3)), float(rng.uniform(0.2, 3))]
    return dict(periods=[int(i) for i in p], n_sa=n_sa, alpha=float(rng.uniform(0.02, 0.95)), beta=beta, gamma_1=float(rng.uniform(0.02, 0.9)),
                gamma_2=float(rng.uniform(0.02, 0.9)), constraints=con, q_vect=M.q_vect(rng))


def series(rng, p, n, exo):
    idx = D.index(rng, n, step=['1h', '30min', '15min'][rng.integers(3)])
    t = np.arange(n)
    y = np.sin(2 * np.pi * t / p[0]) * rng.uniform(0, 3) + np.cos(2 * np.pi * t / p[1]) * rng.uniform(0, 3) + rng.normal(0, 0.4, n) + rng.uniform(-5, 5)
    df = pd.DataFrame({'y': y}, index=idx)
    for i in range(exo):
        df['x%d' % i] = rng.normal(0, 1, n)
    return df[[df.columns[i] for i in rng.permutation(df.shape[1])]]


def case(m, rng, tier):
    from pyforecaster.forecasting_models.holtwinters import HoltWinters
    c = config(rng)
    p, n_sa = c['periods'], c['n_sa']
    exo = int(rng.integers(0, 3))
    n = int(rng.integers(n_sa + max(p) + 40, 220))
    df = series(rng, p, n, exo)
    n_tr = n - int(rng.integers(12, 30))
    tr, te = df.iloc[:n_tr], df.iloc[n_tr:]
    tag = 'periods %s horizon %d a=%.2f b=%.2f constraints=%s covariates=%d' % (p, n_sa, c['alpha'], c['beta'], c['constraints'], exo)
    f = HoltWinters(target_name='y', optimize_hyperpars=False, verbose=False, **c)
    tr0 = tr.copy()
    f.fit(tr)
    m.check(tr.equals(tr0), 'data-modified', 'fit')
    y = tr['y'].values
    par = (p, n_sa, c['alpha'], c['beta'], c['gamma_1'], c['gamma_2'])
    ref = recursion(y, *par, 0.0, 0.0, np.repeat(y[-1], p[0]), np.repeat(y[-1], p[1]), c['constraints'])
    scale = 1e-8 * (1 + np.abs(ref[0]).max())
    if not np.isfinite(ref[0]).all() or np.abs(ref[0]).max() > 1e6:
        return                               # unstable parameter set: nothing to compare
    # in-sample targets, forecasts and their error quantiles
    Y = np.array([y[i + 1:i + 1 + n_sa] for i in range(n_tr - n_sa)])
    X = tr.values[:n_tr - n_sa]
    H = ref[0][:n_tr - n_sa]
    if exo:
        H = H + X @ np.linalg.lstsq(X, Y - H, rcond=None)[0]
    tol = dict(rtol=1e-6, atol=1e-6 * (1 + np.abs(Y).max()) + scale)
    m.close(np.asarray(f.y_tr), Y, 'in-sample-targets', tag)
    m.close(np.asarray(f.y_hat_tr), H, 'in-sample-forecasts', tag, **tol)
    taus = np.asarray(f.q_vect, float)
    E = np.quantile(Y - H, taus, axis=0).T
    m.close(f.err_distr, E, 'error-quantiles', tag, event='in_sample', **tol)
    # states left by the fit: the recursion repeated over the last season from the in-sample ones
    st = f.get_states()
    m.check(np.isfinite(st['a']) and np.isfinite(st['s1']).all() and len(st['s1']) == p[0] and len(st['s2']) == p[1], 'states', tag)
    s = ref[1:]
    for _ in range(20):
        s = recursion(y[-max(p):], *par, *s, c['constraints'])[1:]
    if np.abs(s[0]) < 1e6:
        for k, v in zip(['a', 'b', 's1', 's2'], s):
            m.close(st[k], v, 'fitted-states', '%s: %s' % (tag, k), rtol=1e-6, atol=1e-6 * (1 + np.abs(v).max() if np.ndim(v) else 1e-6 * (1 + abs(v))))
    # forecasts from the fitted states
    g = copy.deepcopy(f)
    te0 = te.copy()
    P = g.predict(te)
    m.check(te.equals(te0), 'data-modified', 'predict')
    R = recursion(te['y'].values, *par, st['a'], st['b'], st['s1'], st['s2'], c['constraints'])
    want = R[0]
    if exo:
        coef = np.linalg.lstsq(X, Y - ref[0][:n_tr - n_sa], rcond=None)[0]
        want = want + te.values @ coef
        m.ev('covariates')
    tol = dict(rtol=1e-6, atol=1e-6 * (1 + np.abs(want).max()))
    m.check(P.index.equals(te.index) and P.shape == (len(te), n_sa), 'rows', tag)
    m.close(P.values, want, 'recursion', tag, event='recursion', **tol)
    g2 = g.get_states()
    for k, v in zip(['a', 'b', 's1', 's2'], R[1:]):
        m.close(g2[k], v, 'states-after-forecast', '%s: %s' % (tag, k), rtol=1e-6, atol=1e-6)
    if c['constraints'] is not None:
        for k in ('s1', 's2'):
            lo, hi = c['constraints']
            m.check((g2[k] >= lo - 1e-12).all() and (g2[k] <= hi + 1e-12).all(), 'constraints', '%s: %s' % (tag, g2[k]))
        m.ev('constraints')
    if c['beta'] > 0:
        m.ev('trend')
    if n_sa > min(p):
        m.ev('horizon_over_period')
    # chunks
    g = copy.deepcopy(f)
    cuts = [0] + sorted(rng.choice(np.arange(1, len(te)), int(rng.integers(1, 5)), replace=False).tolist()) + [len(te)]
    if rng.random() < 0.2:
        cuts = list(range(len(te) + 1))
    C = pd.concat([g.predict(te.iloc[i:j]) for i, j in zip(cuts[:-1], cuts[1:])])
    m.close(C.values, P.values, 'chunks', '%s: cut at %s' % (tag, cuts), event='chunks', rtol=1e-8, atol=1e-8)
    # later observations
    k = int(rng.integers(1, len(te)))
    t2 = te.copy()
    t2.iloc[k:] = rng.normal(30, 10, t2.iloc[k:].shape)
    Q = copy.deepcopy(f).predict(t2).values
    m.close(Q[:k], P.values[:k], 'no-look-ahead', tag, event='no_look_ahead', rtol=1e-9, atol=1e-9)
    m.check(np.abs(Q[k:] - P.values[k:]).max() > 1e-6, 'observations-ignored', tag)
    # missing observations
    if not exo:
        t3 = te.copy()
        t3.loc[rng.random(len(te)) < 0.25, 'y'] = np.nan
        m.close(copy.deepcopy(f).predict(t3).values, recursion(t3['y'].values, *par, st['a'], st['b'], st['s1'], st['s2'], c['constraints'])[0],
                'missing-observations', tag, event='missing', **tol)
    # quantiles
    q = copy.deepcopy(f).predict_quantiles(te)
    m.close(q.values.reshape(len(te), n_sa, len(taus)), P.values[:, :, None] + E[None], 'quantiles', tag, event='quantiles', rtol=1e-6,
            atol=1e-6 * (1 + np.abs(Y).max() + np.abs(want).max()))
    m.check([a[0] for a in q.columns[::len(taus)]] == list(P.columns) and np.allclose([a[1] for a in q.columns[:len(taus)]], taus), 'labels',
            '%s: %s vs %s' % (tag, list(q.columns)[:3], list(P.columns)[:3]))
    # refits and re-initialization
    if rng.random() < 0.4:
        g = copy.deepcopy(f)
        g.predict(te)
        g.fit(tr)
        m.close(g.predict(te).values, P.values, 'refit', tag, event='refit', rtol=1e-9, atol=1e-9)
        g = copy.deepcopy(f)
        g.set_states(a=1.5, b=0.25)
        g2 = g.get_states()
        m.check(g2['a'] == 1.5 and g2['b'] == 0.25 and np.array_equal(g2['s1'], st['s1']), 'set-states', tag)
        W_ = recursion(te['y'].values, *par, 1.5, 0.25, st['s1'], st['s2'], c['constraints'])[0]
        m.close(g.predict(te).values - P.values, W_ - R[0], 'set-states', tag, **tol)
    if n_sa > 1:
        m.nontrivial(tuple(p), n_sa, round(c['alpha'], 3), c['beta'] > 0, c['constraints'] is None, exo)
    m.say(kind='hw', rows=n, covariates=exo, chunks=len(cuts) - 1, **{k: c[k] for k in ('periods', 'n_sa', 'alpha', 'beta', 'constraints')})


def multi(m, rng, tier):
    from pyforecaster.forecasting_models.holtwinters import HoltWintersMulti
    p = sorted(rng.choice(np.arange(2, 13), 2, replace=False).tolist())
    n_sa = int(rng.integers(1, 9))
    if rng.random() < 0.4:
        per = None
        per_ = list(range(1, n_sa + 1))
    else:
        per_ = sorted(set(rng.choice(np.arange(1, n_sa + 1), int(rng.integers(1, n_sa + 1))).tolist()) | {n_sa})
        per = np.array(per_)
    k = len(per_)
    al, g1, g2 = rng.uniform(0.05, 0.6, k), rng.uniform(0.05, 0.5, k), rng.uniform(0.05, 0.5, k)
    con = None if rng.random() < 0.6 else [-float(rng.uniform(0.3, 2)), float(rng.uniform(0.3, 2))]
    qv = M.q_vect(rng)
    n = int(rng.integers(n_sa + max(p) + 50, 200))
    df = series(rng, p, n, 0)
    n_tr = n - 15
    tr, te = df.iloc[:n_tr], df.iloc[n_tr:]
    f = HoltWintersMulti(periods=p, target_name='y', n_sa=n_sa, models_periods=per, optimize_hyperpars=False, optimize_submodels_hyperpars=False,
                         q_vect=qv, alphas=al, gammas_1=g1, gammas_2=g2, constraints=con, verbose=False)
    f.fit(tr)
    tag = 'periods %s horizon %d models %s constraints %s' % (p, n_sa, per_, con)
    y = tr['y'].values
    taus = np.asarray(f.q_vect, float)
    want = np.full((len(te), n_sa), np.nan)
    E = np.full((n_sa, len(taus)), np.nan)
    lo = 0
    for i, h in enumerate(per_):
        par = (p, h, al[i], 0.0, g1[i], g2[i])
        r = recursion(y, *par, 0.0, 0.0, np.repeat(y[-1], p[0]), np.repeat(y[-1], p[1]), con)
        Y = np.array([y[j + 1:j + 1 + h] for j in range(n_tr - h)])
        E[lo:h] = np.quantile(Y - r[0][:n_tr - h], taus, axis=0).T[lo:h]
        s = r[1:]
        for _ in range(40):                  # its own fit and the fit of the collection both settle the states on the last season
            s = recursion(y[-max(p):], *par, *s, con)[1:]
        want[:, lo:h] = recursion(te['y'].values, *par, *s, con)[0][:, lo:h]
        lo = h
    if not np.isfinite(want).all() or np.abs(want).max() > 1e6:
        return
    P = copy.deepcopy(f).predict(te)
    tol = dict(rtol=1e-6, atol=1e-6 * (1 + np.abs(want).max()))
    m.check(P.index.equals(te.index) and P.shape == (len(te), n_sa), 'rows', tag)
    m.close(P.values, want, 'multi', tag, event='multi', **tol)
    q = copy.deepcopy(f).predict_quantiles(te)
    m.close(q.values.reshape(len(te), n_sa, len(taus)), want[:, :, None] + E[None], 'multi-quantiles', tag, event='multi_quantiles', **tol)
    m.check([a[0] for a in q.columns[::len(taus)]] == list(P.columns), 'labels', '%s: %s vs %s' % (tag, list(q.columns)[:3], list(P.columns)[:3]))
    if n_sa > 1:
        m.nontrivial(tuple(p), n_sa, tuple(per_), con is None, len(taus))
    m.say(kind='multi', periods=p, n_sa=n_sa, models=per_, constraints=con)


def tuning(m, rng, tier):
    from pyforecaster.forecasting_models import holtwinters as hw
    p = sorted(rng.choice(np.arange(2, 10), 2, replace=False).tolist())
    n_sa = int(rng.integers(1, 5))
    tg = ['y'] if rng.random() < 0.5 else ['y', 'z']
    n = int(rng.integers(110, 180))
    df = series(rng, p, n, 0)
    for c in tg[1:]:
        df[c] = series(rng, p, n, 0)['y'].values
    n_trials = int(rng.integers(2, 6))
    lims = {'alpha': [0, 1], 'gamma_1': [0, 0.5], 'gamma_2': [0, 0.4]}
    kw = dict(periods=p, target_name='y', n_sa=n_sa, verbose=False, optimize_hyperpars=True, optimization_budget=n_trials)
    if len(tg) > 1 or rng.random() < 0.5:
        kw['targets_names'] = tg
    seed = int(rng.integers(1 << 30))
    log = []
    orig = getattr(hw, 'score_autoregressive', None)

    def spy(model, x, *a, **k):
        r = orig(model, x, *a, **k)
        log.append(((model.alpha, model.gamma_1, model.gamma_2), model.target_name, list(x.columns), float(r)))
        return r
    if orig is not None:
        hw.score_autoregressive = spy
    try:
        np.random.seed(seed)
        best = quiet(hw.tune_hyperpars, df, hw.HoltWinters, lims, n_trials=n_trials, return_model=False, parallel=False, model_init_kwargs=dict(kw))
    finally:
        if orig is not None:
            hw.score_autoregressive = orig
    tag = 'periods %s horizon %d targets %s trials %d' % (p, n_sa, tg, n_trials)
    trials = {}
    for par, c, cols, s in log:
        trials.setdefault(par, {})[c] = s
        m.check(c in cols and not (set(tg) - {c}) & set(cols), 'trial-columns', '%s: target %s scored with columns %s' % (tag, c, cols))
        # its score, recomputed: fit on the first 70 %, one pass over the rest
        al, g1, g2 = par
        v = df[c].values
        k = int(0.7 * n)
        pr = (p, n_sa, al, 0.0, g1, g2)
        r = recursion(v[:k], *pr, 0.0, 0.0, np.repeat(v[k - 1], p[0]), np.repeat(v[k - 1], p[1]), None)[1:]
        for _ in range(20):
            r = recursion(v[k - max(p):k], *pr, *r, None)[1:]
        H = recursion(v[k:], *pr, *r, None)[0]
        T = np.array([v[k + 1 + i:k + 1 + i + n_sa] for i in range(n - k - n_sa)])
        w = np.mean((H[:len(T)] - T) ** 2)
        if np.isfinite(w) and w < 1e8:
            m.close(s, w, 'trial-score', tag, rtol=1e-5, atol=1e-9)
    if not log:                              # scored elsewhere: nothing was recorded
        m.ev('trials')
        return
    m.check(len(trials) == n_trials and all(set(d) == set(tg) for d in trials.values()), 'trials', '%s: %d trials, %s' % (tag, len(trials), [list(d) for d in trials.values()][:3]),
            event='trials')
    means = {k: np.mean(list(d.values())) for k, d in trials.items()}
    got = (best['alpha'], best['gamma_1'], best['gamma_2'])
    m.check(got in means and means[got] <= min(means.values()) * (1 + 1e-12), 'best-trial', '%s: returned %s with score %s, best %s' % (tag, got, means.get(got), min(means.values())))
    m.check(best['target_name'] == 'y', 'tuned-target', '%s: %s' % (tag, best['target_name']))
    for k, v in zip(lims, got):
        m.check(lims[k][0] <= v <= lims[k][1], 'parameter-range', '%s: %s=%s' % (tag, k, v))
    if rng.random() < 0.5:
        np.random.seed(seed)
        f = quiet(hw.tune_hyperpars, df, hw.HoltWinters, lims, n_trials=n_trials, return_model=True, parallel=False, model_init_kwargs=dict(kw))
        m.check((f.alpha, f.gamma_1, f.gamma_2) == got and f.target_name == 'y', 'tuned-model', tag)
        f2 = hw.HoltWinters(**{**kw, 'optimize_hyperpars': False, 'alpha': got[0], 'gamma_1': got[1], 'gamma_2': got[2]}).fit(df)
        m.close(f.predict(df.iloc[-5:]).values, f2.predict(df.iloc[-5:]).values, 'tuned-model', tag, rtol=1e-8)
    if rng.random() < 0.3:
        np.random.seed(seed)
        g = hw.HoltWinters(**kw)
        lims2 = {'alpha': [0, 1], 'gamma_1': [0, 1], 'gamma_2': [0, 1]}
        quiet(g.fit, df)
        np.random.seed(seed)
        b2 = quiet(hw.tune_hyperpars, df, hw.HoltWinters, lims2, n_trials=n_trials, return_model=False, parallel=False, model_init_kwargs=dict(kw))
        m.check((g.alpha, g.gamma_1, g.gamma_2) == (b2['alpha'], b2['gamma_1'], b2['gamma_2']) and g.target_name == 'y', 'parallel-tuning',
                '%s: %s parallel, %s serial' % (tag, (g.alpha, g.gamma_1, g.gamma_2), (b2['alpha'], b2['gamma_1'], b2['gamma_2'])), event='parallel_tuning')
    m.nontrivial('tuning', tuple(p), n_sa, len(tg), n_trials)
    m.say(kind='tuning', periods=p, n_sa=n_sa, targets=tg, trials=n_trials, parameters=list(got))


WORKLOADS = [W('recursion', case, 160, 3000), W('multi', multi, 50, 800), W('tuning', tuning, 24, 300)]
