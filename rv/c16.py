"""C16 scenarios: marginal distribution of every row and step against the predicted quantiles, reproducibility, initial node."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import models as M

PROP = 'C16'
RULE = ('one case = fitted scenario generator or forecaster x rows of several hours x thousands of scenarios; Kolmogorov distance of the '
        'scenarios of each row and step from the distribution interpolating the predicted quantiles, at a false-alarm level below 1e-9; '
        'non-trivial: at least two steps and quantile levels')
REQUIRED = {'marginals': 300, 'level_fractions': 1000, 'same_seed': 40, 'other_seed': 40, 'initial_node': 30, 'independent_rows': 10, 'table_input': 15,
            'monotone': 200, 'between_quantiles': 200,
            'forecaster': 20}
QUICK_S = 200
K = 3.4     # two-sided KS distance exceeds K/sqrt(n) with probability 2 exp(-2 K^2) < 1e-10


def u_of(s, quant, taus):
    """level of scenario values under the piecewise linear quantile function (extended linearly in the tails)"""
    out = np.interp(s, quant, taus)
    lo, hi = s < quant[0], s > quant[-1]
    sl = (taus[1] - taus[0]) / (quant[1] - quant[0])
    sh = (taus[-1] - taus[-2]) / (quant[-1] - quant[-2])
    out[lo] = taus[0] + (s[lo] - quant[0]) * sl
    out[hi] = taus[-1] + (s[hi] - quant[-1]) * sh
    return out


def ks(u):
    u = np.sort(u)
    n = len(u)
    return max(np.abs(u - np.arange(n) / n).max(), np.abs(u - np.arange(1, n + 1) / n).max())


def marginals(m, scen, quant, taus, tag):
    n = scen.shape[2]
    for i in range(scen.shape[0]):
        for s in range(scen.shape[1]):
            q = quant[i, s]
            if np.diff(q).min() < 1e-5:
                continue
            d = ks(u_of(scen[i, s], q, taus))
            m.check(d < K / np.sqrt(n), 'marginal-distribution', '%s: row %d step %d distance %.3f over %d scenarios' % (tag, i, s, d, n), event='marginals')
            for j, t in enumerate(taus):
                if 0 < t < 1:
                    f = (scen[i, s] <= q[j]).mean()
                    m.check(abs(f - t) < 6.5 * np.sqrt(t * (1 - t) / n) + 1e-3, 'level-fraction', '%s: row %d step %d: %.3f of the scenarios below the %.2f quantile' % (
                        tag, i, s, f, t), event='level_fractions')


def residuals(rng, n, T, idx):
    L = rng.normal(0, 1, (T, T))
    z = rng.normal(0, 1, (n, T)) @ L.T
    return pd.DataFrame(z * rng.uniform(0.3, 3, T), index=idx)


def quant(rng, n, T, taus):
    from scipy.stats import norm
    kind = rng.integers(4)
    base = rng.normal(0, 5, (n, T, 1))
    if kind == 0:
        return base + norm.ppf(np.clip(taus, .005, .995)) * rng.uniform(0.1, 4, (n, T, 1))
    if kind == 1:
        return base + np.cumsum(rng.exponential(1, (n, T, len(taus))), axis=2)
    if kind == 2:
        return base + np.cumsum(rng.uniform(0.001, 1, (n, T, len(taus))) ** 4 + 1e-4, axis=2)
    return base + np.cumsum(np.where(rng.random((n, T, len(taus))) < 0.2, 10.0, 1e-3), axis=2)     # nearly discrete: flat parts and jumps


def scengen(m, rng, tier):
    from pyforecaster.scenarios_generator import ScenGen
    T = int(rng.integers(1, 7))
    taus = M.q_vect(rng)
    taus = np.hstack([0.01, np.arange(1, 10) / 10, 0.99]) if taus is None else np.asarray(taus, dtype=float)
    if len(taus) < 2:
        taus = np.array([0.2, 0.8])
    if rng.random() < 0.3:
        taus = np.round(np.linspace(0.02, 0.98, int(rng.integers(12, 33))), 4)
    tz = [None, 'Europe/Zurich'][rng.integers(2)]
    n = 24 * int(rng.integers(8, 20))
    y = residuals(rng, n, T, pd.date_range('2021-02-01', periods=n, freq='h', tz=tz))
    method = ['vanilla', 'vanilla', 'shrunk'][rng.integers(3)]
    add = bool(rng.random() < 0.4)
    N = int(rng.choice([1500, 4000]))
    r = int(rng.integers(1, 6))
    x = pd.DataFrame({'a': rng.normal(0, 1, r)}, index=pd.date_range('2022-01-01', periods=r * 5, freq='4h', tz=tz)[rng.permutation(r * 5)[:r]])
    q = quant(rng, r, T, taus)
    q0 = q.copy()
    seed = int(rng.integers(1e6)) if rng.random() < 0.75 else 0
    tag = '%s T=%d levels=%s add=%s' % (method, T, list(np.round(taus, 3)), add)
    sg = ScenGen(q_vect=taus, cov_est_method=method, additional_node=add).fit(y, y)
    init = rng.normal(0, 5, r)
    kw = dict(init_obs=init) if add else {}
    s = sg.predict_scenarios(q, n_scen=N, x=x, random_state=seed, **kw)
    m.check(np.shape(s) == (r, T + add, N), 'shape', '%s: %s' % (tag, np.shape(s)))
    m.check(np.isfinite(s).all(), 'finite', tag)
    m.check((q == q0).all(), 'quantiles-modified', tag)
    marginals(m, s[:, add:], q, taus, tag)
    sc = np.abs(s[:, add:]).max()
    s2 = sg.predict_scenarios(q.copy(), n_scen=N, x=x.copy(), random_state=seed, **kw)
    m.check(np.allclose(s2, s, rtol=1e-12, atol=1e-12), 'same-seed', '%s: same random state, scenarios differ by %s' % (tag, np.abs(s2 - s).max()), event='same_seed')
    s3 = sg.predict_scenarios(q.copy(), n_scen=N, x=x.copy(), random_state=seed + 1, **kw)
    m.check(np.abs(s3 - s)[:, add:].max() > 1e-3, 'other-seed', '%s: another random state gives the same scenarios' % tag, event='other_seed')
    s4, s5 = [sg.predict_scenarios(q.copy(), n_scen=N, x=x.copy(), **kw) for _ in range(2)]
    m.check(np.abs(s4 - s5)[:, add:].max() > 1e-3, 'unseeded-repeats', tag, event='other_seed')
    marginals(m, s4[:, add:], q, taus, tag + ' unseeded')
    # the same draws through the identity quantile function: scenarios are a monotone function of them that passes through the quantiles
    u = sg.predict_scenarios(np.broadcast_to(taus, q.shape).copy(), n_scen=N, x=x.copy(), random_state=seed, **kw)[:, add:]
    for i in range(r):
        for k in range(T):
            o = np.argsort(u[i, k])
            v, uu = s[i, k + add][o], u[i, k][o]
            far = np.diff(uu) > 1e-4      # beyond the jitter of the draws
            tol = 1e-5 * max(1.0, np.abs(q[i, k]).max()) + 1e-5 * np.max(np.diff(q[i, k]) / np.diff(taus))
            m.check((np.diff(v)[far] >= -tol).all(), 'not-monotone', '%s: row %d step %d decreases by %s as the level increases' % (tag, i, k, np.diff(v)[far].min(initial=0)),
                    event='monotone')
            b = np.searchsorted(taus, uu)
            inside = (b > 0) & (b < len(taus))
            lo, hi = q[i, k][np.clip(b - 1, 0, None)], q[i, k][np.clip(b, None, len(taus) - 1)]
            m.check(((v >= lo - tol) & (v <= hi + tol))[inside].all(), 'outside-quantiles', '%s: row %d step %d' % (tag, i, k), event='between_quantiles')
    for i in range(r):
        m.check(len(np.unique(s[i, int(add)])) > 0.99 * N, 'paths-repeat', '%s: row %d has repeated paths' % (tag, i))
    if add:
        m.check(np.abs(s[:, 0] - init[:, None]).max() < 1e-5, 'initial-value', '%s: %s' % (tag, np.abs(s[:, 0] - init[:, None]).max()), event='initial_node')
        z = sg.predict_scenarios(q.copy(), n_scen=50, x=x.copy(), random_state=seed)
        m.check(np.abs(z[:, 0]).max() < 1e-5, 'initial-default', tag)
        plain = ScenGen(q_vect=taus, cov_est_method=method).fit(y, y).predict_scenarios(q.copy(), n_scen=N, x=x.copy(), random_state=seed)
        m.check(np.abs(plain - s[:, 1:]).max() < 1e-5, 'initial-node-changes-steps', '%s: %s' % (tag, np.abs(plain - s[:, 1:]).max()), event='initial_node')
    # rows, of one hour or of different hours, are different draws
    h = [int(v) for v in rng.choice(24, 2, replace=False)]
    xx = pd.DataFrame({'a': [0.0, 1.0, 2.0]}, index=pd.DatetimeIndex(['2022-03-01 %02d:00' % h[0], '2022-03-02 %02d:00' % h[0], '2022-03-03 %02d:00' % h[1]]).tz_localize(tz))
    q2 = np.repeat(q[:1], 3, 0)
    w = sg.predict_scenarios(q2, n_scen=N, x=xx, random_state=seed, **({'init_obs': init[[0, 0, 0]]} if add else {}))
    k = int(add) + int(rng.integers(T))
    R = np.argsort(np.argsort(w[:, k], axis=1), axis=1)
    C = np.corrcoef(R)[np.triu_indices(3, 1)]
    m.check(np.abs(C).max() < 6.5 / np.sqrt(N), 'rows-share-draws', '%s: rank correlations %s between the draws of three rows at hours %s' % (tag, C.round(3), [h[0], h[0], h[1]]),
            event='independent_rows')
    # a few scenarios, or only one, for many rows: as many draws of the same distribution
    nr, ns = int(rng.integers(1, 5)) if rng.random() < 0.3 else int(rng.integers(800, 1200)), int(rng.choice([1, 1, 2, 3]))
    few = sg.predict_scenarios(np.repeat(q[:1], nr, 0), n_scen=ns, x=pd.DataFrame({'a': np.zeros(nr)}, index=pd.date_range('2022-05-01', periods=nr, freq='h', tz=tz)),
                               random_state=seed, **({'init_obs': np.zeros(nr)} if add else {}))
    if m.check(np.shape(few) == (nr, T + add, ns), 'shape', '%s: %d rows and %d scenarios asked, %s' % (tag, nr, ns, np.shape(few)), event='few_scenarios') and nr > 100:
        marginals(m, np.moveaxis(few[:, add:], 2, 0).reshape(ns * nr, T, 1).transpose(2, 1, 0), q[:1], taus, tag + ' %d rows %d scenarios' % (nr, ns))
    # table input
    if not add:
        df = pd.concat({t: pd.DataFrame(q[:, :, j], index=x.index) for j, t in enumerate(taus)}, axis=1)
        z = sg.predict_scenarios(df, n_scen=N, random_state=seed)
        m.check(np.shape(z) == np.shape(s) and np.abs(z - s).max() < 1e-5, 'table-input', '%s: table and array quantiles give other scenarios' % tag, event='table_input')
    if T > 1 and len(taus) > 2:
        m.nontrivial('sg', T, list(taus), method, add, r, N)
    m.say(steps=T, levels=list(taus), scenarios=N, rows=r, initial_node=add)


def forecaster(m, rng, tier):
    name = ['linear', 'lgb', 'qrf', 'rff', 'hybrid'][int(rng.integers(5))]
    x, y = M.dataset(rng, n=int(rng.integers(220, 400)), T=int(rng.integers(1, 5)))
    kw = M.settings(rng, name, y.shape[1])
    add = bool(rng.random() < 0.3)
    f = M.fit(name, x, y, 1, q_vect=np.round(np.linspace(0.05, 0.95, int(rng.integers(4, 10))), 3), val_ratio=[None, 0.4][rng.integers(2)],
              conditional_to_hour=bool(rng.random() < 0.5), additional_node=add, n_scen_fit=int(rng.integers(7, 20)), **kw)
    xt = x.iloc[np.sort(rng.choice(len(x), 3, replace=False))]
    N, seed = 2500, int(rng.integers(1e6))
    kk = {}
    if add and rng.random() < 0.5:
        kk['init_obs'] = rng.normal(0, 3, 3)
    s = f.predict_scenarios(xt.copy(), n_scen=N, random_state=seed, **kk)
    tag = '%s %s add=%s' % (name, kw, add)
    m.ev('forecaster')
    m.check(np.shape(s) == (3, y.shape[1] + add, N), 'shape', '%s %s' % (tag, np.shape(s)))
    marginals(m, s[:, add:], f.predict_quantiles(xt.copy(), dataframe=False), np.asarray(f.q_vect, dtype=float), tag)
    if add:
        m.check(np.abs(s[:, 0] - np.atleast_2d(kk.get('init_obs', np.zeros(3))).T).max() < 1e-5, 'initial-value', tag, event='initial_node')
    m.check(np.allclose(f.predict_scenarios(xt.copy(), n_scen=N, random_state=seed, **kk), s, rtol=1e-10, atol=1e-10), 'same-seed', tag, event='same_seed')
    d = f.predict_scenarios(xt.copy(), random_state=seed, **kk)
    m.check(np.shape(d)[2] == f.n_scen_fit, 'default-number', '%s: %s, n_scen_fit=%d' % (tag, np.shape(d), f.n_scen_fit))
    m.nontrivial('fc', name, y.shape[1], add, sorted(map(str, kw.items())))


WORKLOADS = [W('scengen', scengen, 60, 700), W('forecaster', forecaster, 30, 300)]
