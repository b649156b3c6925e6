"""C30 random-feature regressors: linear fits of the features they report, affine behaviour, additive stages, boosted bins replayed."""
import contextlib
import functools
import io
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D
from rv import models as M

PROP = 'C30'
RULE = ('one case = dataset, kernel dimension and width, given or generated random matrices, base regression, number of members, validation ratio; '
        'the forecasts are recomputed by least squares on the features; targets are rescaled, shifted, permuted, put in the span of the features; '
        'non-trivial: more than one target')
REQUIRED = {'linear_fit': 60, 'affine': 60, 'permuted_targets': 60, 'deterministic': 60, 'span': 60, 'feature_units': 60, 'members': 15, 'ridge': 15,
            'brutal': 20, 'brutal_scaled': 20}
QUICK_S = 200


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


def linear(Z, Y, Zt, alpha):
    """least squares (ridge) with a free intercept"""
    zm, ym = Z.mean(0), Y.mean(0)
    A, B = Z - zm, Y - ym
    if alpha:
        c = np.linalg.solve(A.T @ A + alpha * np.eye(A.shape[1]), A.T @ B)
    else:
        c = np.linalg.lstsq(A, B, rcond=None)[0]
    return (Zt - zm) @ c + ym


def case(m, rng, tier):
    from sklearn.linear_model import LinearRegression, Ridge
    from pyforecaster.forecasting_models.random_fourier_features import RFFRegression, AdditiveRFFRegression
    x, y = M.dataset(rng)
    x = x * rng.uniform(0.5, 50, x.shape[1]) + rng.uniform(-100, 100, x.shape[1])
    T = y.shape[1]
    add = rng.random() < 0.4
    vr = [None, 0.3][rng.integers(2)]
    dim = int(rng.integers(3, 18))
    sd = float(rng.choice([0.1, 0.4, 1.0]))
    alpha = 0.0 if rng.random() < 0.6 else float(rng.choice([0.1, 1.0, 10.0]))
    base = LinearRegression if not alpha else functools.partial(Ridge, alpha=alpha)
    kw = dict(dim_kernel=dim, std_kernel=sd, val_ratio=vr, base_model=base)
    given = rng.random() < 0.5
    if given:
        kw.update(W=rng.normal(0, sd, (x.shape[1], dim)), b=rng.uniform(0, 2 * np.pi, dim))
    n_models = int(rng.integers(1, 5))
    mk = (lambda: AdditiveRFFRegression(n_models=n_models, **kw)) if add else (lambda: RFFRegression(**kw))
    seed = int(rng.integers(1 << 30))

    def fit(x, y):
        np.random.seed(seed)
        return mk().fit(x.copy(), y.copy())
    tag = '%s dim %d sd %s ridge %s given %s val %s' % ('additive x %d' % n_models if add else 'rff', dim, sd, alpha, given, vr)
    f = fit(x, y)
    k, _ = M.split(len(x), vr)
    xt = pd.concat([x.iloc[:10], x.iloc[-15:] * rng.uniform(0.8, 1.2, x.shape[1])])
    P = f.predict(xt.copy())
    m.check(list(P.columns) == list(y.columns) and P.index.equals(xt.index), 'labels', tag)
    mu, s = x.values[:k].mean(0), x.values[:k].std(0)
    Xs, Xt = (x.values[:k] - mu) / s, (xt.values - mu) / s
    sc = 1 + np.abs(y.values).max()
    tol = dict(rtol=1e-6, atol=1e-6 * sc)
    ms = f.models if add else [f]
    err, want = y.values[:k].copy(), 0.0
    for g in ms:
        if given:
            Z, Zt = np.cos(Xs @ kw['W'] + kw['b']), np.cos(Xt @ kw['W'] + kw['b'])
        else:
            Z, Zt = g.conv(pd.DataFrame(Xs)).values, g.conv(pd.DataFrame(Xt)).values
            m.check(Z.shape == (k, dim) and np.abs(Z).max() <= 1 + 1e-12, 'features', '%s: shape %s' % (tag, Z.shape))
        if not alpha and np.linalg.cond(Z - Z.mean(0)) > 1e5:
            return
        want = want + linear(Z, err, Zt, alpha)
        err = err - linear(Z, err, Z, alpha)
    m.close(P.values, want, 'linear-fit', tag, event='linear_fit', **tol)
    if add and n_models > 1:
        m.ev('members')
        if not given:
            zs = [g.conv(pd.DataFrame(Xt)).values for g in ms]
            m.check(not np.allclose(zs[0], zs[1]), 'members-identical', tag)
    if alpha:
        m.ev('ridge')
    # affine targets, permuted targets, repeated fits
    a, c = rng.uniform(0.1, 30, T) * rng.choice([-1, 1], T), rng.uniform(-50, 50, T)
    m.close(fit(x, y * a + c).predict(xt.copy()).values, want * a + c, 'affine', tag, event='affine', rtol=1e-6, atol=1e-6 * sc * np.abs(a).max())
    o = rng.permutation(T)
    m.close(fit(x, y.iloc[:, o]).predict(xt.copy()).values, want[:, o], 'permuted-targets', tag, event='permuted_targets', **tol)
    m.close(fit(x, y).predict(xt.copy()).values, P.values, 'deterministic', tag, event='deterministic', rtol=0, atol=1e-12 * sc)
    # positive changes of units of the features
    u, v = rng.uniform(0.01, 100, x.shape[1]), rng.uniform(-10, 10, x.shape[1])
    m.close(fit(x * u + v, y).predict(xt * u + v).values, want, 'feature-units', tag, event='feature_units', **tol)
    # targets in the span of the features
    if not alpha:
        g = ms[0]
        z = np.cos(((x.values - mu) / s) @ kw['W'] + kw['b']) if given else g.conv(pd.DataFrame((x.values - mu) / s)).values
        zt = np.cos(Xt @ kw['W'] + kw['b']) if given else g.conv(pd.DataFrame(Xt)).values
        B, i0 = rng.normal(0, 2, (dim, T)), rng.uniform(-5, 5, T)
        ys = pd.DataFrame(z @ B + i0, index=y.index, columns=y.columns)
        m.close(fit(x, ys).predict(xt.copy()).values, zt @ B + i0, 'span', tag, event='span', rtol=1e-4, atol=1e-4)
    if T > 1:
        m.nontrivial(bool(add), n_models if add else 1, dim, sd, alpha, bool(given), vr, T)
    m.say(additive=bool(add), members=n_models if add else 1, features=dim, ridge=alpha, given_matrices=bool(given), val_ratio=vr, rows=len(x))


def brutal(m, rng, tier):
    from pyforecaster.forecasting_models.random_fourier_features import BrutalRegressor
    n = int(rng.integers(20, 200))
    k, T = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    idx = D.index(rng, n, step='1h')
    x = rng.normal(0, 1, (n, k))
    if rng.random() < 0.4:
        x = np.round(x)
    x = pd.DataFrame(x, index=idx, columns=['f%d' % i for i in range(k)])
    y = pd.DataFrame(np.column_stack([np.sin(2 * x.iloc[:, i % k]) * 3 + rng.normal(0, 0.3, n) + rng.uniform(-3, 3) for i in range(T)]), index=idx,
                     columns=['t%d' % i for i in range(T)])
    it, nb, lr, bf = int(rng.integers(1, 8)), int(rng.integers(1, 12)), float(rng.choice([0.1, 0.5, 1.0])), float(rng.choice([0.2, 0.5, 1.0]))
    seed = int(rng.integers(1 << 30))
    tag = 'bins %d iterations %d rate %s fraction %s rows %d' % (nb, it, lr, bf, n)

    def fit(y):
        np.random.seed(seed)
        return quiet(BrutalRegressor(n_iter=it, n_bins=nb, learning_rate=lr, bootstrap_fraction=bf).fit, x.copy(), y.copy())
    f = fit(y)
    xt = pd.DataFrame(np.vstack([x.values[:10], rng.normal(0, 3, (10, k))]), columns=x.columns)
    P = f.predict(xt)
    m.check(list(P.columns) == list(y.columns) and P.index.equals(xt.index), 'labels', tag)
    np.random.seed(seed)
    err, want = y.values.copy(), np.zeros((len(xt), T))
    for _ in range(it):
        r = np.random.choice(n, int(bf * n), replace=True)
        best = None
        for j in range(k):
            cut = np.quantile(x.values[r, j], np.linspace(0, 1, nb + 2))[1:-1]
            bin_ = lambda v: np.searchsorted(cut, v, side='right')
            q = bin_(x.values[r, j])
            mean = np.array([err[r][q == b].mean(0) if (q == b).any() else np.zeros(T) for b in range(nb + 1)])
            s = np.sqrt(np.mean((err[r] - mean[q]) ** 2))
            if best is None or s < best[0] - 1e-12:
                best = (s, j, mean, cut)
        _, j, mean, cut = best
        err = err - lr * mean[np.searchsorted(cut, x.values[:, j], side='right')]
        want = want + lr * mean[np.searchsorted(cut, xt.values[:, j], side='right')]
    m.close(P.values, want, 'brutal', tag, event='brutal', rtol=1e-6, atol=1e-6)
    a = float(rng.uniform(0.2, 20))
    m.close(fit(y * a).predict(xt).values, P.values * a, 'brutal-scaled', tag, event='brutal_scaled', rtol=1e-5, atol=1e-5 * a)
    m.nontrivial('brutal', n, k, T, it, nb, lr, bf)
    m.say(kind='boosted bins', rows=n, features=k, targets=T, bins=nb, iterations=it)


WORKLOADS = [W('features', case, 130, 2000), W('bins', brutal, 50, 600)]
