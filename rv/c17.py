"""C17 hourly dependence: estimated matrices and generated rank correlations against the residuals of the hour."""
import numpy as np
import pandas as pd
from rv.common import W

PROP = 'C17'
RULE = ('one case = residuals whose correlation differs from hour to hour, estimation method, rows to sample in random order and time zone; '
        'non-trivial: at least two steps and two hours of different correlation')
REQUIRED = {'matrices': 600, 'reference_matrix': 200, 'other_hours': 200, 'rank_correlations': 150, 'uniform_margins': 200}
QUICK_S = 200


def corr(rng, T, diag=(0.05, 1)):
    a = rng.normal(0, 1, (T, max(1, T // 2 + 1)))
    c = a @ a.T + np.diag(rng.uniform(*diag, T))
    d = np.sqrt(np.diag(c))
    return c / np.outer(d, d)


def data(rng, T, tz, per_hour, scale=(0.05, 20), diag=(0.05, 1)):
    n = 24 * per_hour
    idx = pd.date_range('2021-03-01', periods=n, freq='h', tz='UTC').tz_convert(tz) if tz else pd.date_range('2021-03-01', periods=n, freq='h')
    hours = np.asarray(idx.hour)
    sd = rng.uniform(*scale, T)
    y = np.zeros((n, T))
    for h in range(24):
        L = np.linalg.cholesky(corr(rng, T, diag) + 1e-9 * np.eye(T))
        y[hours == h] = (rng.normal(0, 1, ((hours == h).sum(), T)) @ L.T) * sd + rng.normal(0, 1)
    return pd.DataFrame(y, index=idx)


def case(m, rng, tier):
    from pyforecaster.scenarios_generator import ScenGen
    T = int(rng.integers(1, 6))
    tz = [None, 'Europe/Zurich', 'Asia/Kolkata'][rng.integers(3)]
    method = ['vanilla', 'vanilla', 'shrunk', 'glasso', 'glasso_cv'][rng.choice(5, p=[.25, .25, .3, .17, .03])] if T > 1 else 'vanilla'
    glasso = 'glasso' in method      # its solver needs well conditioned data
    y = data(rng, T, tz, int(rng.integers(30, 50) if glasso else rng.integers(12, 40)), (0.9, 1.1) if glasso else (0.05, 20), (1.5, 3) if glasso else (0.05, 1))
    if rng.random() < 0.3:
        y = y.iloc[rng.permutation(len(y))]
    y0 = y.copy()
    try:
        sg = ScenGen(cov_est_method=method, q_vect=np.array([0.0, 1.0])).fit(y, y)
    except FloatingPointError:      # the graphical lasso of scikit-learn did not converge on this data
        if glasso:
            m.ev('glasso_not_converged')
            return
        raise
    tag = '%s T=%d tz=%s' % (method, T, tz)
    m.check(y.equals(y0), 'residuals-modified', tag)
    hours = np.asarray(y.index.hour)
    pars = getattr(sg.copula, 'pars', None)
    if isinstance(pars, dict):
        h_p = int(rng.integers(24)) if method != 'glasso_cv' else None
        h_p = h_p if h_p is not None else int(np.asarray(pd.Series(hours).value_counts().idxmax()))
        y2 = y.copy()
        o = hours != h_p
        y2.loc[o] = y2.loc[o].values[rng.permutation(o.sum())] @ rng.normal(0, 1, (T, T))
        try:
            p2 = ScenGen(cov_est_method=method, q_vect=np.array([0.0, 1.0])).fit(y2, y2).copula.pars
        except FloatingPointError:
            p2 = None
        if p2 is not None:
            m.close(p2[h_p], pars[h_p], 'other-hours-matter', '%s: residuals of other hours change the dependence of hour %d' % (tag, h_p),
                    rtol=1e-9, atol=1e-9, event='other_hours')
        for h in np.unique(hours):
            c = np.atleast_2d(np.asarray(pars[h], dtype=float))
            m.check(c.shape == (T, T) and np.isfinite(c).all(), 'matrix-shape', '%s hour %d' % (tag, h), event='matrices')
            m.check(np.abs(c - c.T).max() < 1e-9, 'symmetric', '%s hour %d' % (tag, h))
            m.check(np.abs(np.diag(c) - 1).max() < 1e-4, 'unit-diagonal', '%s hour %d: %s' % (tag, h, np.diag(c)))
            m.check(np.linalg.eigvalsh(c).min() > 0, 'positive-definite', '%s hour %d' % (tag, h))
            m.check(np.abs(c).max() <= 1 + 1e-5, 'entries', '%s hour %d' % (tag, h))
            ref = np.atleast_2d(np.corrcoef(y.values[hours == h].T))
            if method == 'vanilla':
                m.close(c, ref, 'reference-matrix', '%s hour %d' % (tag, h), atol=1e-4, event='reference_matrix')
            else:
                # regularization shrinks, it does not invent or flip dependence
                m.check((np.abs(c) <= np.abs(ref) + 0.35).all() and ((np.sign(c) == np.sign(ref)) | (np.abs(ref) < 0.3) | (np.abs(c) < 0.05)).all(),
                        'regularized-matrix', '%s hour %d: %s vs %s' % (tag, h, c, ref), event='reference_matrix')
            m.ev('other_hours')
    # generated dependence: sample in levels (quantile function is the identity on [0, 1])
    N = 3000
    hs = rng.choice(24, int(rng.integers(2, 7)), replace=False)
    days = rng.integers(0, 50, len(hs))
    idx = pd.DatetimeIndex([pd.Timestamp('2022-01-03') + pd.Timedelta(days=int(d), hours=int(h)) for d, h in zip(days, hs)])
    if tz:
        idx = idx.tz_localize(tz)
    x = pd.DataFrame({'a': 0.0}, index=idx)
    q = np.repeat(np.repeat(np.array([[[0.0, 1.0]]]), len(hs), 0), T, 1)
    u = sg.predict_scenarios(q, n_scen=N, x=x, random_state=int(rng.integers(1e6)) if rng.random() < 0.5 else None)
    for i, h in enumerate(hs):
        for s in range(T):
            v = np.sort(u[i, s])
            d = np.abs(v - (np.arange(N) + 0.5) / N).max()
            m.check(d < 3.4 / np.sqrt(N) + 1e-3, 'uniform-margins', '%s hour %d step %d: distance %.3f' % (tag, h, s, d), event='uniform_margins')
        if T > 1:
            rk = np.argsort(np.argsort(u[i], axis=1), axis=1)
            rho = np.corrcoef(rk)
            ref = np.corrcoef(y.values[hours == h].T) if method == 'vanilla' or not isinstance(pars, dict) else np.asarray(pars[h])
            want = 6 / np.pi * np.arcsin(np.clip(ref, -1, 1) / 2)
            m.check(np.abs(rho - want).max() < 7 / np.sqrt(N), 'rank-correlation', lambda: '%s row %d hour %d: rank correlations\n%s\nexpected\n%s' % (
                tag, i, h, rho.round(2), want.round(2)), event='rank_correlations')
    if T > 1:
        m.nontrivial(T, tz, method, len(y), len(hs))
    m.say(steps=T, method=method, tz=tz, hours=list(map(int, hs)))


def sparse(m, rng, tier):
    """hours without data or with a single residual still give finite scenarios"""
    from pyforecaster.scenarios_generator import ScenGen
    T = int(rng.integers(2, 5))
    y = data(rng, T, None, 12)
    hours = np.asarray(y.index.hour)
    gone = rng.choice(24, 4, replace=False)
    keep = ~np.isin(hours, gone)
    one = np.flatnonzero(hours == gone[0])[0]
    keep[one] = True
    y = y[keep]
    sg = ScenGen(q_vect=np.array([0.0, 1.0])).fit(y, y)
    x = pd.DataFrame({'a': 0.0}, index=pd.date_range('2022-01-01', periods=24, freq='h'))
    u = sg.predict_scenarios(np.repeat(np.repeat(np.array([[[0.0, 1.0]]]), 24, 0), T, 1), n_scen=200, x=x)
    m.check(np.isfinite(u).all(), 'sparse-hours', 'T=%d' % T)
    m.nontrivial('sparse', T, sorted(map(int, gone)))


def flat(m, rng, tier):
    """steps whose residuals never change at some hours (no sun, a closed valve) depend on nothing; the others stay as they are"""
    from pyforecaster.scenarios_generator import ScenGen
    T = int(rng.integers(1, 5))
    method = ['vanilla', 'vanilla', 'shrunk'][rng.integers(3)]
    y = data(rng, T, None, 20)
    hours = np.asarray(y.index.hour)
    still = {int(h): rng.choice(T, int(rng.integers(1, T + 1)), replace=False) for h in rng.choice(24, 5, replace=False)}
    for h, cols in still.items():
        y.iloc[np.flatnonzero(hours == h), cols] = float(rng.choice([0.0, 0.3, -5.0]))
    sg = ScenGen(cov_est_method=method, q_vect=np.array([0.0, 1.0])).fit(y, y)
    N = 2000
    x = pd.DataFrame({'a': 0.0}, index=pd.date_range('2022-01-01', periods=24, freq='h'))
    u = sg.predict_scenarios(np.repeat(np.repeat(np.array([[[0.0, 1.0]]]), 24, 0), T, 1), n_scen=N, x=x, random_state=int(rng.integers(1e6)))
    m.check(u.shape == (24, T, N) and np.isfinite(u).all(), 'finite', '%s T=%d' % (method, T), event='constant_residuals')
    for h, cols in still.items():
        v = y.values[hours == h]
        live = [i for i in range(T) if i not in cols]
        rho = np.atleast_2d(np.corrcoef(np.argsort(np.argsort(u[h], axis=1), axis=1)))
        for i in range(T):
            d = np.abs(np.sort(u[h, i]) - (np.arange(N) + 0.5) / N).max()
            m.check(d < 3.4 / np.sqrt(N) + 1e-3, 'uniform-margins', '%s hour %d step %d: distance %.3f' % (method, h, i, d), event='uniform_margins')
        off = [abs(rho[i, j]) for i in cols for j in range(T) if i != j]
        m.check(max(off, default=0) < 7 / np.sqrt(N), 'constant-step-correlated', '%s hour %d: %s' % (method, h, off), event='rank_correlations')
        if method == 'vanilla' and len(live) > 1:
            want = 6 / np.pi * np.arcsin(np.corrcoef(v[:, live].T) / 2)
            m.check(np.abs(rho[np.ix_(live, live)] - want).max() < 7 / np.sqrt(N), 'rank-correlation', '%s hour %d' % (method, h), event='rank_correlations')
    m.nontrivial('flat', T, method, sorted(still))


WORKLOADS = [W('dependence', case, 130, 1200), W('sparse', sparse, 6, 40), W('flat', flat, 16, 150)]
