"""C27 adaptive Fourier and Kalman forecasters: a plain recursion over the whole history, perturbed futures, repeated and pickled models."""
import contextlib
import copy
import io
import pickle
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D
from rv import models as M

PROP = 'C27'
RULE = ('one case = model (Fourier_es, FK, FK_multi), series, window, harmonics, periodicity, horizon and smoothing; fitted on a first part and asked to '
        'forecast the rest, forecasts are recomputed by one plain recursion over fit and test data, later rows replaced, calls repeated, models pickled '
        'and refitted; non-trivial: window longer than 4, at least 2 steps, training length not a multiple of the window')
REQUIRED = {'fourier': 40, 'fk': 40, 'multi': 20, 'no_look_ahead': 100, 'repeat': 100, 'pickle': 60, 'refit': 40, 'quantiles': 100, 'span': 8,
            'constant': 15, 'covariance': 60, 'in_sample': 60, 'tuned': 3, 'phase': 60, 'convex_weights': 20}
QUICK_S = 250


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


def basis(t, m, nh):
    t = np.asarray(t, float)
    cols = [np.ones(len(t)) / np.sqrt(m)]
    for k in range(1, nh + 1):
        cols += [np.sqrt(2 / m) * np.sin(2 * np.pi * k * t / m), np.sqrt(2 / m) * np.cos(2 * np.pi * k * t / m)]
    return np.stack(cols, 1)


def windows(y, m):
    z = np.concatenate([np.zeros(m), y])
    return np.array([z[i + 1:i + 1 + m] for i in range(len(y))])


def fourier_ref(y, m, nh, per, n_sa, alpha, omega):
    """forecasts made at every row of y from the rows up to it."""
    x = np.zeros(2 * nh + 1)
    x[0] = y[0] * np.sqrt(m)
    eps, last = 0.0, 0.0
    fade = (n_sa - np.arange(n_sa)) ** 2 / n_sa ** 2
    out = []
    for t, w in enumerate(windows(y, m)):
        eps = omega * (w[-1] - last) + (1 - omega) * eps
        x = alpha * basis(t + np.arange(m), m, nh).T @ w + (1 - alpha) * x
        f = basis(t + m - per + np.arange(n_sa), m, nh) @ x
        last = f[0]
        out.append(f + eps * fade)
    return np.array(out)


def fk_ref(y, m, nh, per, n_sa, omega, r, q):
    d = 2 * nh + 1
    x, P, R, Q = np.zeros(d), np.eye(d) * 1000., np.eye(d) * r, np.eye(d) * q
    eps, hist, out = 0.0, [], []
    fade = (n_sa - np.arange(n_sa)) ** 2 / n_sa ** 2
    ok = True
    for t, w in enumerate(windows(y, m)):
        c = basis(t + np.arange(m), m, nh).T @ w
        P = P + Q
        S = P + R
        ok &= np.linalg.cond(S) < 1e10
        K = P @ np.linalg.pinv(S)
        x = x + K @ (c - x)
        A = np.eye(d) - K
        P = A @ P @ A.T + K @ R @ K.T
        f = basis(t + m - per + np.arange(n_sa), m, nh) @ x
        eps = omega * (w[-1] - f[0]) + (1 - omega) * eps
        out.append(f + eps * fade)
        hist.append(x)
        if t % m == 0 and t >= m:
            Q = correlation(hist[:t])
            R = Q * 0.01
    return np.array(out), ok


def correlation(h):
    with np.errstate(all='ignore'):
        C = np.nan_to_num(np.atleast_2d(np.corrcoef(np.array(h).T)))
    np.fill_diagonal(C, 1)
    return C


def target_weights(E, y, n_sa, x):
    """softmax of the normalized errors every expert made on the last observation, over the rows it was predicted at"""
    hist = []
    for i in range(len(y)):
        if i < n_sa:
            hist.append(None)
            continue
        e = np.array([np.mean([abs(E[i - 1 - s, s, k] - y[i]) for s in range(n_sa)]) for k in range(E.shape[2])])
        e = e / (e.mean() or 1)
        hist.append(np.exp(-e) / np.exp(-e).sum())
    return hist


def state(f):
    d = {k: v for k, v in vars(f).items() if k not in ('logger', 'scengen', 'models', 'base_predictor', 'submodels_pars', 'submodels_init_pars', 'init_pars')}
    return pickle.dumps(d), [state(g) for g in (getattr(f, 'models', None) or [])]


def case(m, rng, tier):
    from pyforecaster.forecasting_models import fast_adaptive_models as fam
    from pyforecaster.forecasting_models.fast_adaptive_models import Fourier_es, FK, FK_multi
    kind = ['fourier', 'fourier', 'fk', 'fk', 'multi'][rng.integers(5)]
    n_sa = int(rng.integers(1, 9))
    mm = int(rng.integers(max(4, n_sa + 1), 30))
    per = int(rng.integers(n_sa, mm)) if rng.random() < 0.7 else None
    nh = int(rng.integers(1, max(2, (mm - 1) // 2)))
    alpha, omega = float(rng.uniform(0.3, 0.95)), float(rng.uniform(0.3, 0.99))
    qv = M.q_vect(rng)
    n = int(rng.integers(2 * mm + 40, 6 * mm + 120))
    kind_y = rng.choice(['noise', 'noise', 'noise', 'span', 'constant', 'late'])
    p_ = per or n_sa
    t = np.arange(n)
    if kind_y == 'span' and kind != 'fourier':
        kind_y = 'noise'
    if kind_y == 'span':
        # a signal in the span of the basis that also repeats after `periodicity`
        d = int(rng.integers(1, 4))
        p_ = per = max(n_sa, int(rng.integers(3, 10)))
        mm = per * d
        if mm < 4:
            mm, d = per * 2, 2
        H = max(1, (mm - 1) // 2)
        nh = H
        y = rng.uniform(-3, 3) + sum(rng.normal() * np.sin(2 * np.pi * k * t / per + rng.uniform(0, 6)) for k in range(1, (per - 1) // 2 + 1))
    elif kind_y == 'constant':
        y = np.full(n, rng.uniform(-4, 4))
    else:
        y = np.sin(2 * np.pi * t / rng.integers(3, 30)) * rng.uniform(0, 3) + rng.normal(0, 0.5, n) + rng.uniform(-4, 4)
    if kind_y == 'late':                  # nothing measured at first
        y[:int(rng.integers(2, 2 * mm + 10))] = 0.0
    if kind_y in ('span', 'constant'):
        n = 8 * mm + 120
        t = np.arange(n)
        if kind_y == 'constant':
            y = np.full(n, y[0])
        else:
            y = y[:per][t % per]
    idx = D.index(rng, n, step=['1h', '15min'][rng.integers(2)])
    df = pd.DataFrame({'b': rng.normal(0, 1, n), 'y': y}, index=idx)
    if rng.random() < 0.5:
        df = df[['y', 'b']]
    n_te = int(rng.integers(mm + 5, 2 * mm + 20)) if rng.random() < 0.5 else int(rng.integers(5, mm + 2))
    n_tr = n - n_te
    tr, te = df.iloc[:n_tr], df.iloc[n_tr:]
    kw = dict(target_name='y', n_sa=n_sa, m=mm, q_vect=qv, periodicity=per, optimize_hyperpars=False, verbose=False)
    tag = '%s %s window %d period %s harmonics %d horizon %d rows %d+%d' % (kind, kind_y, mm, per, nh, n_sa, n_tr, n_te)
    if kind == 'fourier':
        mk = lambda: Fourier_es(alpha=alpha, omega=omega, n_harmonics=nh, **kw)
    elif kind == 'fk':
        r, q = float(rng.uniform(0.01, 0.5)), float(rng.uniform(0.01, 0.5))
        mk = lambda: FK(alpha=alpha, omega=omega, n_harmonics=nh, r=r, q=q, **kw)
    else:
        base = [Fourier_es, FK][rng.integers(2)]
        npred = int(rng.integers(1, 1 + (4 if n_sa > 1 else min(4, mm // 2))))          # windows of one observation are rejected
        kw.pop('periodicity')
        mk = lambda: FK_multi(n_predictors=npred, base_predictor=base, optimize_submodels_hyperpars=False, **kw)
        tag += ' %s x %d' % (base.__name__, npred)
    f = quiet(mk)
    tr0, te0 = tr.copy(), te.copy()
    quiet(f.fit, tr)
    m.check(tr.equals(tr0), 'data-modified', 'fit')
    s0 = state(f)
    P = quiet(f.predict, te)
    m.check(te.equals(te0), 'data-modified', 'predict')
    m.check(P.index.equals(te.index) and P.shape == (len(te), n_sa), 'rows', tag)
    m.check(np.isfinite(P.values).all(), 'finite', tag)
    m.check(state(f) == s0, 'prediction-changes-model', tag)
    P2 = quiet(f.predict, te)
    m.check(P2.equals(P), 'repeat', tag, event='repeat')
    sc = 1 + np.abs(y).max()
    tol = dict(rtol=1e-6, atol=1e-6 * sc)
    taus = np.asarray(f.q_vect, float)
    Yh = np.array([y[i + 1:i + 1 + n_sa] for i in range(n_tr - n_sa)])
    R = None
    if kind == 'fourier':
        R = fourier_ref(y, mm, nh, p_, n_sa, alpha, omega)
        m.close(P.values, R[n_tr:], 'fourier-recursion', tag, event='fourier', **tol)
    elif kind == 'fk':
        R, ok = fk_ref(y, mm, nh, p_, n_sa, omega, r, q)
        if ok and kind_y in ('noise', 'late'):
            m.close(P.values, R[n_tr:], 'kalman-recursion', tag, event='fk', **{'rtol': 1e-5, 'atol': 1e-5 * sc})
        else:
            R = None
    else:
        E = np.dstack([quiet(g.predict, te) for g in f.models])
        calls = []
        orig = getattr(fam, 'kalman', None)

        def spy(*a, **k):
            r = orig(*a, **k)
            if len(a) == 7 and not k and len(r) == 2:
                calls.append(tuple(np.array(v) for v in (a[0], a[1], a[3], a[4], a[6], r[0], r[1])))
            return r
        if base is Fourier_es and orig is not None:
            fam.kalman = spy
        try:
            Pm, C = quiet(f.run, te, fit=False, return_coeffs=True)
        finally:
            if orig is not None:
                fam.kalman = orig
        m.close(Pm, P.values, 'run-predict', tag)
        T = target_weights(E, te['y'].values, n_sa, f.states['x'])
        k = [i for i in range(len(te)) if T[i] is not None]
        if k:
            m.close(C[k], np.array([T[i] for i in k]), 'expert-weights', tag, event='multi', rtol=1e-6, atol=1e-6)
        if len(calls) == len(te):            # the filter that smooths the weights: chained states, forecasts with the normalized state
            xs, Ps = np.array(f.states['x'], float), np.array(f.states['P'], float)
            Qs, Rs = np.atleast_2d(f.states['Q']), np.atleast_2d(f.states['R'])
            for i, (x_, P_, Q_, y_, R_, xo, Po) in enumerate(calls):
                m.close(x_, xs, 'filter-chain', '%s row %d' % (tag, i))
                m.close(P_, Ps, 'filter-chain', '%s row %d' % (tag, i))
                m.close(Q_, Qs, 'filter-covariance', '%s row %d' % (tag, i), rtol=1e-5, atol=1e-6)
                m.close(R_, Rs, 'filter-covariance', '%s row %d' % (tag, i), rtol=1e-5, atol=1e-6)
                m.close(y_, xs if T[i] is None else T[i], 'filter-target', '%s row %d' % (tag, i), rtol=1e-6, atol=1e-6)
                if np.isfinite(xo).all():
                    m.close(P.values[i], E[i] @ np.abs(xo / np.abs(xo).sum()), 'weighted-experts', '%s row %d' % (tag, i), rtol=1e-6, atol=1e-6 * sc)
                xs, Ps = xo, Po
                if i % mm == 0 and i >= mm:
                    Qs = correlation(C[:i + 1])
                    Rs = Qs * 10
            m.ev('filter')
        m.check((P.values <= E.max(2) + 1e-9 * sc).all() and (P.values >= E.min(2) - 1e-9 * sc).all(), 'outside-the-experts', tag, event='convex_weights')
    if R is not None:
        if n_tr % mm:
            m.ev('phase')
        # the fit pass is the same recursion: its error quantiles
        m.close(f.err_distr, np.quantile(Yh - R[:n_tr - n_sa], taus, axis=0).T, 'error-quantiles', tag, event='in_sample',
                **{'rtol': 1e-5, 'atol': 1e-5 * sc})
    F = np.array([y[n_tr + i + 1:n_tr + i + 1 + n_sa] for i in range(n_te - n_sa)]).reshape(-1, n_sa)
    if kind_y == 'span' and len(F):
        m.close(P.values[:len(F)], F, 'span', tag, event='span', rtol=1e-5, atol=1e-5 * sc)
    if kind_y == 'constant':
        m.close(P.values, np.full(P.shape, y[0]), 'constant', tag, event='constant', rtol=1e-5, atol=1e-5 * sc)
    # covariances
    for g in [f] + list(getattr(f, 'models', None) or []):
        for k in 'PQR':
            A = g.states.get(k)
            if A is not None and np.ndim(A) == 2:
                m.check(np.isfinite(A).all() and np.abs(A - A.T).max() <= 1e-3 * (1 + np.abs(A).max()) and
                        np.linalg.eigvalsh((A + A.T) / 2).min() >= -1e-3 * (1 + np.abs(A).max()), 'covariance', '%s: %s' % (tag, k), event='covariance')
    # later rows, other columns
    k = int(rng.integers(1, len(te)))
    t2 = te.copy()
    t2.loc[t2.index[k:], 'y'] = rng.normal(30, 10, len(te) - k)
    t2['b'] = 0.0
    Q = quiet(f.predict, t2).values
    m.close(Q[:k], P.values[:k], 'no-look-ahead', tag, event='no_look_ahead', rtol=1e-9, atol=1e-9 * sc)
    m.check(np.abs(Q[k:] - P.values[k:]).max() > 1e-6, 'observations-ignored', tag)
    # quantiles
    qq = quiet(f.predict_quantiles, te)
    m.close(qq.values.reshape(len(te), n_sa, len(taus)), P.values[:, :, None] + np.asarray(f.err_distr)[None], 'quantiles', tag, event='quantiles')
    m.check([a[0] for a in qq.columns[::len(taus)]] == list(P.columns) and np.allclose([a[1] for a in qq.columns[:len(taus)]], taus), 'labels',
            '%s: %s vs %s' % (tag, list(qq.columns)[:3], list(P.columns)[:3]))
    # copies and refits
    if rng.random() < 0.6:
        g = pickle.loads(pickle.dumps(f)) if rng.random() < 0.5 else copy.deepcopy(f)
        m.check(quiet(g.predict, te).equals(P), 'pickle', tag, event='pickle')
    if rng.random() < 0.4:
        other = tr.copy()
        other['y'] = rng.normal(0, 3, len(tr))
        g = quiet(mk)
        quiet(g.fit, other)
        quiet(g.fit, tr)
        m.close(quiet(g.predict, te).values, P.values, 'refit', tag, event='refit', rtol=1e-8, atol=1e-8 * sc)
    if n_sa > 1 and mm > 4 and n_tr % mm:
        m.nontrivial(kind, kind_y, mm, per, nh, n_sa, n_tr % mm)
    m.say(kind=kind, series=str(kind_y), window=mm, periodicity=per, harmonics=nh, horizon=n_sa, fitted=n_tr, forecast=n_te)


def tuned(m, rng, tier):
    from pyforecaster.forecasting_models import fast_adaptive_models as fam
    from pyforecaster.forecasting_models.fast_adaptive_models import Fourier_es, FK, FK_multi
    kind = ['fourier', 'fk', 'multi'][rng.integers(3)]
    n_sa = int(rng.integers(1, 5))
    mm = int(rng.integers(6, 13))
    n = 12 * mm
    idx = D.index(rng, n)
    t = np.arange(n)
    df = pd.DataFrame({'y': np.sin(2 * np.pi * t / mm) + rng.normal(0, 0.3, n)}, index=idx)
    tr, te = df.iloc[:-15], df.iloc[-15:]
    c = dict(fourier=Fourier_es, fk=FK, multi=FK_multi)[kind]
    kw = dict(target_name='y', n_sa=n_sa, m=mm, optimization_budget=3, verbose=False, optimize_hyperpars=True)
    if kind == 'multi':
        kw['n_predictors'] = 2
    f = quiet(c, **kw)
    quiet(f.fit, tr)
    fs = f.models if kind == 'multi' else [f]
    for g in fs:
        for k, (lo, hi) in g.hyperpar_lims.items():
            v = getattr(g, k)
            m.check(lo <= v <= hi, 'parameter-range', '%s: %s=%s not in [%s, %s]' % (kind, k, v, lo, hi))
        m.check(g.target_name == 'y' and g.n_sa == n_sa, 'tuned-target', '%s: %s' % (kind, g.target_name))
        m.check(len(np.atleast_1d(g.states['x'])) == 2 * int(min(g.n_harmonics, g.m // 2)) + 1, 'tuned-states', kind)
    P = quiet(f.predict, te)
    m.check(P.shape == (15, n_sa) and np.isfinite(P.values).all(), 'tuned-forecast', kind)
    if kind == 'fourier':
        R = fourier_ref(df['y'].values, mm, int(min(f.n_harmonics, mm // 2)), n_sa, n_sa, f.alpha, f.omega)
        m.close(P.values, R[-15:], 'tuned-recursion', kind, rtol=1e-6, atol=1e-6)
    m.ev('tuned')
    m.nontrivial('tuned', kind, n_sa, mm)
    m.say(kind='tuned ' + kind, horizon=n_sa, window=mm)


WORKLOADS = [W('adaptive', case, 500, 4000), W('tuned', tuned, 8, 100)]
