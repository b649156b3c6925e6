"""C36 statistical helpers against their definitions."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D

PROP = 'C36'
RULE = ('one case = random series / linear system / tensor; the monitor recomputes the result from the definition (bootstrap: '
        'every resample is recorded while the real code draws it); non-trivial: more than one resample, state or window; '
        'distinct by sizes and statistic')
REQUIRED = {'resamples': 3000, 'kalman_steps': 300, 'windows': 500, 'tensor_cells': 2000}
QUICK_S = 150


def boot(m, rng, tier):
    from pyforecaster.stat_utils import bootstrap
    n = int(rng.integers(12, 60))
    v = rng.normal(0, 1, n) * rng.uniform(0.1, 10) + rng.uniform(-50, 50)
    kind = rng.integers(4)
    idx = [D.index(rng, n), pd.RangeIndex(n), pd.Index(rng.permutation(n)), pd.Index(np.arange(n) // int(rng.integers(2, 4)))][kind]
    s = pd.Series(v, index=idx)
    s0 = s.copy()
    total = int(rng.choice([150, 400, 700, 1200]))
    seen = []
    what = ['mean', 'std', 'med', 'max'][rng.integers(4)]
    ref = {'mean': np.mean, 'std': lambda q: np.std(q, ddof=1), 'med': np.median, 'max': np.max}[what]

    def fun(q):
        q = np.asarray(q)
        if q.ndim == 0:
            raise TypeError('a sample is a series')
        seen.append(q.copy())
        return ref(q)
    seed = int(rng.integers(1 << 30))
    np.random.seed(seed)
    out = bootstrap(s, fun, n_sampling=total)
    m.check(s.equals(s0), 'input-modified', '')
    used = int(out.name)
    m.check(0 < used <= total and len(seen) >= used, 'resample-count', '%d used of %d' % (used, total))
    last = seen[-used:]
    m.ev('resamples', len(last))
    vs = set(v.tolist())
    m.check(all(len(q) == n for q in last), 'resample-size', lambda: 'sizes %s of %d' % (sorted({len(q) for q in last})[:5], n))
    m.check(all(set(q.tolist()) <= vs for q in last), 'resample-values', '')
    m.check(all(len(set(q.tolist())) < n for q in last[:50]), 'resample-without-replacement', '')
    cnt = np.array([sum((q == w).sum() for q in last) for w in v]) if n * used < 40000 else None
    if cnt is not None and all(len(q) == n for q in last):
        e = used
        m.check((np.abs(cnt - e) < 6.5 * np.sqrt(e)).all(), 'resample-not-uniform', lambda: 'share of positions %s expected %d' % (cnt, e))
    st = np.array([ref(q) for q in last])
    m.close(out['mean'], st.mean(), 'bootstrap-mean', what)
    m.close(out['std'], st.std(), 'bootstrap-std', what)
    if what == 'mean':
        se = v.std() / np.sqrt(n)
        m.check(abs(out['mean'] - v.mean()) < 6.5 * se / np.sqrt(used), 'bootstrap-biased', '')
        m.check(abs(out['std'] / se - 1) < 6.5 / np.sqrt(2 * used), 'bootstrap-spread', '%s vs %s' % (out['std'], se))
    if what in ('mean', 'std'):
        np.random.seed(seed)
        b = bootstrap(s, what, n_sampling=total)
        m.close(b.values, out.values, 'named-statistic-differs', what)
    m.nontrivial('b', what, n, total, kind)


def hank(m, rng, tier):
    from pyforecaster.forecasting_models.holtwinters import hankel
    n = int(rng.integers(1, 120))
    w = int(rng.integers(1, n + 1))
    x = rng.normal(0, 1, n)
    arg = x.reshape(-1, 1) if rng.random() < 0.3 else x
    x0 = arg.copy()
    if rng.random() < 0.7:
        g, h = np.arange(w), hankel(arg, w)
    else:
        g = np.sort(rng.choice(w, size=int(rng.integers(1, w + 1)), replace=False))
        if rng.random() < 0.6:
            g = rng.permutation(g)          # the shifts in the order asked for
        h = hankel(arg, w, g)
    ref = np.array([[x[i + j] for j in g] for i in range(n - w + 1)])
    m.close(h, ref, 'hankel', 'n %d width %d' % (n, w), rtol=0, atol=0)
    m.check((arg == x0).all(), 'input-modified', '')
    m.ev('windows', len(ref))
    if n - w > 0:
        m.nontrivial('h', n, w, len(g))


def tensor(m, rng, tier):
    from pyforecaster.utilities import convert_multiindex_pandas_to_tensor, from_tensor_to_pdmultiindex
    n, a, b = [int(rng.integers(1, 12)) for _ in range(3)]
    x = rng.normal(0, 1, (n, a, b))
    idx = D.index(rng, n)
    first = ['f%d' % i for i in rng.permutation(a)]
    second = [float(q) for q in np.round(np.sort(rng.choice(100, b, replace=False)) / 100, 2)] if rng.random() < 0.5 else ['q%d' % i for i in rng.permutation(b)]
    x0 = x.copy()
    t = from_tensor_to_pdmultiindex(x, idx, first, second)
    m.check(t.index.equals(idx), 'tensor-index', '')
    for i in range(a):
        for j in range(b):
            m.close(t[(second[j], first[i])].values, x[:, i, j], 'tensor-cell', 'label %s/%s' % (second[j], first[i]), rtol=0, atol=0)
    m.ev('tensor_cells', n * a * b)
    m.close(convert_multiindex_pandas_to_tensor(t, zero_first=False), x, 'tensor-round-trip', 'zero_first False', rtol=0, atol=0)
    m.close(convert_multiindex_pandas_to_tensor(t), np.swapaxes(x, 1, 2), 'tensor-round-trip', 'zero_first', rtol=0, atol=0)
    if b > 1:
        k = int(rng.integers(1, b))
        sub = t[second[:k]]
        m.close(convert_multiindex_pandas_to_tensor(sub, zero_first=False), x[:, :, :k], 'tensor-of-selected-columns', '%d of %d labels' % (k, b), rtol=0, atol=0)
    m.check((x == x0).all(), 'input-modified', '')
    flat = pd.DataFrame(x[:, :, 0], index=idx)
    m.check(convert_multiindex_pandas_to_tensor(flat) is flat or np.array_equal(np.asarray(convert_multiindex_pandas_to_tensor(flat)), flat.values), 'flat-table', '')
    m.nontrivial('t', n, a, b)


def spd(rng, k, scale=1.0):
    a = rng.normal(0, 1, (k, k))
    return (a @ a.T + 0.1 * np.eye(k)) * scale


def kal(m, rng, tier):
    from pyforecaster.utilities import kalman, kalman_predict, kalman_update
    k = int(rng.integers(1, 7))
    p = int(rng.integers(1, 5))
    F = rng.normal(0, 0.6, (k, k))
    H = rng.normal(0, 1, (p, k))
    Q = spd(rng, k, 10.0 ** rng.integers(-3, 1))
    R = spd(rng, p, 10.0 ** rng.integers(-3, 1))
    P = spd(rng, k)
    x = rng.normal(0, 1, k)
    xr, Pr = x.copy(), P.copy()
    col = rng.random() < 0.4
    if col:
        x = x.reshape(-1, 1)
    for step in range(int(rng.integers(1, 8))):
        y = rng.normal(0, 3, p)
        yy = y.reshape(-1, 1) if col else y
        saved = [q.copy() for q in (x, P, F, Q, yy, H, R)]
        x1, P1 = kalman_predict(x, P, F, Q)
        m.close(x1, F @ x, 'kalman-predict-state', '')
        m.close(P1, F @ P @ F.T + Q, 'kalman-predict-covariance', '', rtol=1e-7)
        x2, P2 = kalman_update(x1, P1, yy, H, R)
        x3, P3 = kalman(x, P, F, Q, yy, H, R)
        for q, r in zip((x, P, F, Q, yy, H, R), saved):
            m.check((q == r).all(), 'input-modified', 'kalman')
        # information form, an independent route to the same posterior
        xr_, Pp = F @ xr, F @ Pr @ F.T + Q
        inf = np.linalg.inv(Pp) + H.T @ np.linalg.solve(R, H)
        Pr = np.linalg.inv(inf)
        Pr = (Pr + Pr.T) / 2
        xr = Pr @ (np.linalg.solve(Pp, xr_) + H.T @ np.linalg.solve(R, y))
        sc = max(1.0, np.abs(Pr).max())
        for nm, a, b in (('update', x2, P2), ('kalman', x3, P3)):
            m.close(np.ravel(a), xr, 'kalman-posterior-state', '%s step %d k %d p %d' % (nm, step, k, p), rtol=1e-5, atol=1e-6)
            m.close(b, Pr, 'kalman-posterior-covariance', '%s step %d' % (nm, step), rtol=1e-5, atol=1e-7 * sc)
            m.close(b, b.T, 'covariance-asymmetric', '', rtol=1e-7, atol=1e-9)
            m.check(np.linalg.eigvalsh((b + b.T) / 2).min() > -1e-9 * sc, 'covariance-not-psd', '')
        x, P = x3, P3
        m.ev('kalman_steps')
    m.nontrivial('k', k, p, col)


WORKLOADS = [W('bootstrap', boot, 24, 300), W('hankel', hank, 80, 800), W('tensor', tensor, 60, 800), W('kalman', kal, 120, 2000)]
