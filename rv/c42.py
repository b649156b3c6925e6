"""C42 isolation monitor: several objects used one after the other, interleaved, and from concurrent threads."""
import contextlib
import io
import sys
import threading
import numpy as np
import pandas as pd
from rv.common import W, Inconclusive
from rv import data as D
from rv import models as M
from rv import nets
from rv.c01 import build

PROP = 'C42'
RULE = ('one case = 2-5 objects (formatters, forecasters, adaptive models, reductions, scores, copulas, networks), each with its own '
        'settings, data and sequence of calls; the sequences run alone (reference), under random interleavings (with the objects created '
        'up front or when first used, and a different object order), and from threads released by a barrier with a small switch interval; '
        'every returned table, array and tree must equal the one of the undisturbed sequence; non-trivial: distinct interleavings')
REQUIRED = {'interleaved_results': 600, 'interleavings': 100, 'switches': 500, 'concurrent_results': 100, 'threads': 40, 'network_results': 10}
QUICK_S = 240


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def tree_key(g):
    return sorted((int(d['t']), round(float(d['p']), 10), [round(float(v), 9) for v in np.ravel(d['v'])]) for _, d in g.nodes(data=True))


def digest(o):
    """comparable form of a result"""
    if o is None:
        return None
    if hasattr(o, 'nodes'):
        return ('tree', tree_key(o))
    if isinstance(o, pd.DataFrame):
        return ('table', [str(i) for i in o.index], [str(c) for c in o.columns], o.values.tolist() if o.dtypes.map(lambda d: d == object).any() else np.asarray(o.values))
    if isinstance(o, pd.Series):
        return digest(o.to_frame())
    if isinstance(o, (list, tuple)):
        return [digest(v) for v in o]
    if isinstance(o, dict):
        return {str(k): digest(v) for k, v in o.items()}
    a = np.asarray(o)
    return ('array', a.shape, a.tolist() if a.dtype == object or a.dtype.kind in 'MmUS' else a)


def same(a, b):
    """digests agree; numbers up to the rounding left to the order in which threads add them"""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        return bool(np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)) if a.dtype.kind in 'fc' else bool((a == b).all())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(i, j) for i, j in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return bool(np.isclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True))
    return type(a) is type(b) and bool(a == b)


# each maker returns a list of calls; the first creates the object, all share a dict `o`
def m_formatter(rng):
    n = int(rng.integers(60, 110))
    idx = D.index(rng, n)
    dt = idx[1] - idx[0]
    x, x2 = D.signals(rng, idx), D.signals(rng, D.index(rng, n + 9, step=dt, tz=idx.tz))
    specs = D.rand_transforms(rng, list(x.columns), int(rng.integers(1, 4)), 0, 8, dt=dt)
    ts = [dict(names=['y'], functions=None, agg_freq=None, lags=[-i for i in range(1, int(rng.integers(2, 5)))], relative_lags=False, agg_bins=None)]
    norm = rng.random() < 0.5
    tf, hol, red = bool(rng.random() < 0.7), bool(rng.random() < 0.3), bool(rng.random() < 0.5)
    aug = bool(rng.random() < 0.7)
    par = bool(rng.random() < 0.2)

    def mk(o):
        f = o['f'] = build(specs, ts, None)
        f.augment = aug
        if norm:
            f.add_target_normalizer(['y'], 'mean', agg_freq='%dmin' % (2 * int(dt.total_seconds() // 60)), name='nm')
            f.add_normalizing_fun("df[t] - df['nm']", "df[t] + df['nm']")
    def tr(o):
        o['d'] = o['f'].transform(x.copy(), time_features=tf, holidays=hol, reduce_memory=red)
        return o['d']
    calls = [mk, tr, lambda o: o['f'].transform(x2.copy(), time_features=tf, return_target=False, holidays=hol),
             lambda o: [t.metadata.astype(str) for t in o['f'].transformers]]
    if norm:
        calls.append(lambda o: o['f'].denormalize(*o['d']))
    else:
        calls.append(lambda o: o['f'].prune_dataset_at_stepahead(o['d'][0], 0, [], method='periodic', period='%dmin' % int(3 * dt.total_seconds() // 60), tol_period=dt))
    def folds(o):
        try:
            return [[np.asarray(a) for a in fold] for fold in o['f'].time_kfcv(x.index, 4)]
        except RuntimeError:             # the windows are longer than the folds
            return 'refused'
    calls.append(folds)
    calls.append(tr)
    return 'formatter', calls


def m_model(rng, seeded=True):
    # concurrent forests are left out: quantile_forest seeds the global generator of Python at every fit
    names = M.NAMES if seeded else ['linear', 'lgb', 'energy']
    name = names[int(rng.integers(len(names)))]
    T = int(rng.integers(1, 4))
    x, y = M.dataset(rng, T=T, n=int(rng.integers(150, 220)))
    x2, y2 = M.dataset(rng, T=T, k=x.shape[1], n=160)
    kw = dict(M.settings(rng, name, T), val_ratio=[None, 0.3][rng.integers(2)], conditional_to_hour=bool(rng.random() < 0.5), q_vect=M.q_vect(rng))
    if T > 1 and rng.random() < 0.5:
        kw['nodes_at_step'] = [1] + [2] * (T - 1)
    if rng.random() < 0.3:
        kw['tree_type'] = 'ScenredTree'
    s = int(rng.integers(1e6))
    xt = x.iloc[::9]

    def mk(o):
        o['f'] = M.make(name, **kw)

    def fit(o, a=x, b=y):
        if seeded:
            np.random.seed(s)
        o['f'].fit(a.copy(), b.copy())
    calls = [mk, fit, lambda o: o['f'].predict(xt.copy()), lambda o: o['f'].predict_quantiles(xt.copy()),
             lambda o: o['f'].get_params()['val_ratio'],
             lambda o: o['f'].predict_quantiles(xt.copy())]
    if T > 1 and seeded:                 # the jitter of the scenarios and the tree fit draw from the global generator
        def draw(o, what):
            np.random.seed(s)
            return getattr(o['f'], what)(xt.iloc[:2].copy(), n_scen=12, random_state=5)
        calls += [lambda o: draw(o, 'predict_scenarios'), lambda o: draw(o, 'predict_trees')]
    if rng.random() < 0.5:
        calls += [lambda o: fit(o, x2, y2), lambda o: o['f'].predict_quantiles(x2.iloc[::7].copy())]
    return name, calls


def m_adaptive(rng):
    from pyforecaster.forecasting_models.holtwinters import HoltWinters
    from pyforecaster.forecasting_models.fast_adaptive_models import Fourier_es, FK
    from pyforecaster.forecasting_models.benchmarks import SeasonalPersistent
    n = int(rng.integers(140, 200))
    t = np.arange(n)
    df = pd.DataFrame({'y': np.sin(t / rng.uniform(1, 4)) * 2 + rng.normal(0, 0.5, n) + rng.uniform(-4, 4)}, index=D.index(rng, n, step='1h'))
    k = int(n * 0.6)
    cut = int(rng.integers(k + 5, n - 5))
    n_sa, mm = int(rng.integers(2, 6)), int(rng.integers(8, 20))
    a, b, q = float(rng.uniform(0.3, 0.9)), float(rng.uniform(0.3, 0.9)), [0.1, 0.5, 0.9]
    P = sorted(rng.choice(np.arange(3, 12), 2, replace=False).tolist())
    kind = str(rng.choice(['hw', 'fourier', 'fk', 'seasonal']))
    c = dict(target_name='y', n_sa=n_sa, q_vect=q, optimize_hyperpars=False, verbose=False)

    def mk(o):
        o['f'] = HoltWinters(periods=P, alpha=a * 0.4, gamma_1=b * 0.3, gamma_2=0.1, **c) if kind == 'hw' else \
            Fourier_es(alpha=a, omega=b, n_harmonics=2, m=mm, **c) if kind == 'fourier' else \
            FK(alpha=a, omega=b, n_harmonics=2, m=mm, r=0.1, q=0.1, **c) if kind == 'fk' else \
            SeasonalPersistent('y', seasonality=24, n_sa=n_sa, q_vect=q, val_ratio=0.3)
    return kind, [mk, lambda o: quiet(o['f'].fit, df.iloc[:k]) and None, lambda o: quiet(o['f'].predict, df.iloc[k:cut]),
                  lambda o: quiet(o['f'].predict, df.iloc[cut:]) if kind == 'hw' else quiet(o['f'].predict, df.iloc[k:]),
                  lambda o: quiet(o['f'].predict_quantiles, df.iloc[cut:]),
                  lambda o: quiet(o['f'].fit, df.iloc[:k]) and None, lambda o: quiet(o['f'].predict, df.iloc[k:cut])]


def m_copula(rng):
    from pyforecaster.copula import HourlyGaussianCopula
    n, T = int(rng.integers(200, 300)), int(rng.integers(2, 5))
    idx = pd.date_range('2022-01-01', periods=n, freq='1h')
    a = rng.normal(0, 1, (T, T))
    e = pd.DataFrame(rng.normal(0, 1, (n, T)) @ a + 0.1 * rng.normal(0, 1, (n, T)), index=idx)
    xt = pd.DataFrame(np.zeros((3, 1)), index=idx[[1, 8, 30]])
    C = HourlyGaussianCopula
    s = int(rng.integers(1e6))

    def mk(o):
        o['f'] = C()

    def sample(o):
        return o['f'].sample(xt, 9, random_state=s)
    return C.__name__, [mk, lambda o: o['f'].fit(e.copy(), x=e.copy()) and None, sample, sample]


def m_reduction(rng):
    from pyforecaster.scenred import scenred
    T, n = int(rng.integers(2, 6)), int(rng.integers(6, 25))
    s = np.cumsum(rng.normal(0, 1, (T, n)), axis=0)
    nodes = np.minimum(np.cumprod(np.r_[1, rng.integers(1, 3, T - 1)]), n)
    return 'scenred', [lambda o: None, lambda o: scenred(s.copy(), nodes=nodes)[4], lambda o: scenred(s * 2, nodes=nodes)[4],
                       lambda o: scenred(s.copy(), nodes=nodes)[4]]


def m_scores(rng):
    from pyforecaster import metrics as Me
    n, T = int(rng.integers(30, 80)), int(rng.integers(1, 4))
    idx = D.index(rng, n)
    y = pd.DataFrame(rng.normal(3, 1, (n, T)), index=idx, columns=['t%d' % i for i in range(T)])
    h = y + rng.normal(0, 0.5, (n, T))
    taus = [0.1, 0.5, 0.9]
    q = pd.DataFrame(np.sort(rng.normal(3, 1, (n, T, 3)), axis=2).reshape(n, -1), index=idx, columns=pd.MultiIndex.from_product([y.columns, taus]))
    ag = rng.integers(0, 3, n)
    return 'scores', [lambda o: None, lambda o: Me.rmse(h, y), lambda o: Me.nmae(h, y, agg_index=ag), lambda o: Me.crps(q, y, alphas=taus, agg_index=ag),
                      lambda o: Me.reliability(q, y, alphas=taus), lambda o: Me.rmse(h, y, agg_index=ag)]


def m_net(rng):
    name = str(rng.choice(['FFNN', 'PICNN', 'CausalInvertibleNN', 'NN']))
    x, y = nets.data(rng, T=2, k=4, n=130)
    kw = dict(n_epochs=1, batch_size=32, n_hidden_x=int(rng.integers(3, 8)), n_layers=2, n_out=2, learning_rate=1e-2, q_vect=[0.1, 0.9],
              normalize_target=bool(rng.random() < 0.7))
    if name == 'PICNN':
        kw['optimization_vars'] = [str(x.columns[int(rng.integers(4))])]
        kw.update(n_latent=2)
    if name == 'CausalInvertibleNN':
        name = 'FFNN'
    C = nets.cls(name)
    s = int(rng.integers(1e6))

    def mk(o):
        np.random.seed(s)
        o['f'] = C(**kw)

    def fit(o):
        nets.fit(o['f'], x, y, s)
    return name, [mk, fit, lambda o: nets.quiet(o['f'].predict, x.iloc[::9].copy()), lambda o: nets.quiet(o['f'].predict_quantiles, x.iloc[::9].copy()),
                  lambda o: nets.quiet(o['f'].predict, x.iloc[::9].copy())]


def m_categorical(rng, forests=True):
    from pyforecaster.forecaster import LinearForecaster
    from pyforecaster.forecasting_models.randomforests import QRF
    T = int(rng.integers(1, 4))
    x, y = M.dataset(rng, T=T, n=int(rng.integers(80, 160)))
    pool = ['b', 'a', 'z', 'Z', 'on', 'off', 'high', '10', '9']
    names = [pool[i] for i in rng.permutation(len(pool))[:int(rng.integers(2, 6))]]
    v = rng.choice(names, len(x))
    v[:len(names)] = names
    x['kind'] = pd.Series(v, index=x.index, dtype=object)
    y = y.add(pd.Series(v).map({k: 3.0 * i for i, k in enumerate(names)}).values, axis=0)
    lin = rng.random() < 0.5 or not forests
    xt = x.iloc[::11]

    def mk(o):
        o['f'] = LinearForecaster(val_ratio=0.3) if lin else QRF(n_estimators=4, n_single=1, parallel=False, random_state=3)

    def bad(o):
        z = xt.copy()
        z['kind'] = 'never seen'
        try:
            o['f'].predict(z)
        except ValueError:
            return 'refused'
        return 'accepted'
    return 'categorical', [mk, lambda o: o['f'].fit(x.copy(), y.copy()) and None, lambda o: o['f'].predict(xt.copy()), bad,
                           lambda o: o['f'].predict_quantiles(xt.copy()), lambda o: o['f'].predict(xt.copy())]


def m_hybrid(rng):
    """gradient boosters / forests choosing columns per step with their own formatter"""
    from pyforecaster.formatter import Formatter
    from pyforecaster.forecasting_models.gradientboosters import LGBMHybrid
    n = int(rng.integers(150, 200))
    df = D.signals(rng, D.index(rng, n, step='1h'))
    lags, T = int(rng.integers(4, 9)), int(rng.integers(2, 4))
    kw = dict(n_estimators=4, num_leaves=4, min_child_samples=5, n_jobs=1, n_single=T, q_vect=[0.1, 0.5, 0.9], metadata_features=['hour'],
              keep_last_n_lags=int(rng.integers(1, 3)), tol_period='1h', val_ratio=0.2)
    s = int(rng.integers(1e6))

    def mk(o):
        f = o['fm'] = Formatter()
        f.add_transform(['y', 'a'], lags=np.arange(lags))
        f.add_target_transform(['y'], lags=-np.arange(1, T + 1))
        o['x'], o['y'] = f.transform(df.copy())
        o['f'] = LGBMHybrid(formatter=f, **kw)
        return o['x']

    def fit(o):
        np.random.seed(s)
        o['f'].fit(o['x'].copy(), o['y'].copy())
    pred = lambda o: o['f'].predict(o['x'].iloc[::8].copy())
    return 'hybrid', [mk, fit, pred, lambda o: o['f'].predict_quantiles(o['x'].iloc[::8].copy()), pred]


def m_reconciliation(rng):
    from rv import hier
    from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation
    h, bottoms, root, naming = hier.hierarchy(rng, naming='str', max_depth=2)
    n, T = int(rng.integers(70, 100)), int(rng.integers(1, 3))
    idx = pd.date_range('2022-03-01', periods=n, freq='1h')
    x, y, _, _ = hier.stacked(rng, h, bottoms, n, T, idx)
    method = str(rng.choice(['minT', 'bayes', 'dummy']))

    def mk(o):
        o['f'] = HierarchicalReconciliation({k: list(v) for k, v in h.items()}, method=method, q_vect=np.array([0.1, 0.5, 0.9]), n_scenarios=5)
    return 'reconciliation', [mk, lambda o: quiet(o['f'].fit, x.copy(), y.copy()) and None, lambda o: quiet(o['f'].predict, x.copy()),
                              lambda o: quiet(o['f'].predict, x.copy())]


def m_global(rng):
    """stacked form with several shared signals, plain or two-level columns, and a model trained on it"""
    import pyforecaster.formatter as pyf
    from pyforecaster.forecaster import LinearForecaster
    n = int(rng.integers(70, 110))
    idx = D.index(rng, n, step='1h')
    shared = [str(s) for s in rng.permutation(['temp', 'wind', 'ghi', 'rain', 'price', 'cloud', 'day'])[:int(rng.integers(2, 7))]]
    priv = ['s%d' % i for i in range(int(rng.integers(1, 4)))]
    df = pd.DataFrame(rng.normal(0, 1, (n, len(priv) + len(shared))), index=idx, columns=priv + shared)
    multi = bool(rng.random() < 0.5)
    if multi:
        groups = ['g%d' % int(rng.integers(3)) for _ in shared]
        df.columns = pd.MultiIndex.from_tuples([(p, 'p of %s' % p) for p in priv] + list(zip(groups, shared)))
    corr, split = bool(rng.random() < 0.4), int(rng.integers(2))

    def mk(o):
        f = o['f'] = pyf.Formatter().add_transform(['target'], lags=[1, 2])
        for part in ([shared] if split else [[s] for s in shared]):
            f.add_transform(part, lags=[0, -1])
        f.add_target_transform(['target'], lags=[-1, -2])

    def tr(o):
        o['x'], o['y'] = o['f'].transform(df.copy(), global_form=True, parallel=False, corr_reorder=corr)
        return o['x'], o['y']

    def fit(o):
        k = o['x'].drop(columns='name').notna().all(axis=1) & o['y'].notna().all(axis=1)
        x = o['x'].loc[k].drop(columns='name').astype(float)
        o['m'] = LinearForecaster(val_ratio=0.3, q_vect=[0.1, 0.5, 0.9]).fit(x, o['y'].loc[k].astype(float))
        o['xt'] = x.iloc[::7]
    return 'global', [mk, tr, fit, lambda o: o['m'].predict_quantiles(o['xt'].copy())]


MAKERS = [m_formatter, m_formatter, m_model, m_model, m_adaptive, m_copula, m_reduction, m_scores, m_categorical, m_hybrid, m_reconciliation, m_global, m_global]


def alone(seqs):
    out = []
    for _, calls in seqs:
        o = {}
        out.append([digest(c(o)) for c in calls])
    return out


def mixed(m, seqs, rng, create_first):
    order = []
    for i, (_, calls) in enumerate(seqs):
        order += [i] * (len(calls) - (1 if create_first else 0))
    order = [int(i) for i in rng.permutation(order)]
    pos, objs, out = [0] * len(seqs), [{} for _ in seqs], [[] for _ in seqs]
    if create_first:
        for i in rng.permutation(len(seqs)):
            out[i].append(digest(seqs[i][1][0](objs[i])))
            pos[i] = 1
    for i in order:
        out[i].append(digest(seqs[i][1][pos[i]](objs[i])))
        pos[i] += 1
    m.ev('interleavings')
    m.ev('switches', sum(a != b for a, b in zip(order, order[1:])))
    m.nontrivial('order', [s[0] for s in seqs], order)
    return out


def compare(m, seqs, ref, out, mech, tag):
    for i, (name, calls) in enumerate(seqs):
        for k in range(len(calls)):
            m.check(same(out[i][k], ref[i][k]), mech, lambda: '%s: %s, call %d of %d differs from the undisturbed sequence (objects %s)' % (
                tag, name, k, len(calls), [s[0] for s in seqs]), event='concurrent_results' if mech == 'concurrent' else 'interleaved_results')


def interleaved(m, rng, tier):
    k = int(rng.integers(2, 6))
    if rng.random() < 0.4:               # several objects of one kind
        mk = MAKERS[int(rng.integers(len(MAKERS)))]
        seqs = [mk(rng) for _ in range(k)]
    else:
        seqs = [MAKERS[int(rng.integers(len(MAKERS)))](rng) for _ in range(k)]
    ref = alone(seqs)
    for r in range(2):
        compare(m, seqs, ref, mixed(m, seqs, rng, bool(r)), 'interleaved', 'created %s' % ('first' if r else 'when used'))
    p = [int(i) for i in rng.permutation(k)]
    again = alone([seqs[i] for i in p])
    out = [None] * k
    for j, i in enumerate(p):
        out[i] = again[j]
    compare(m, seqs, ref, out, 'order-of-use', 'objects in order %s' % p)
    m.say(objects=[s[0] for s in seqs])


def concurrent(m, rng, tier):
    k = int(rng.integers(2, 5))
    mk = [m_formatter, lambda r: m_model(r, seeded=False), m_scores, m_reduction, lambda r: m_categorical(r, forests=False), m_global]
    if rng.random() < 0.5:
        one = mk[int(rng.integers(len(mk)))]
        mk = [one]
    seqs = [mk[int(rng.integers(len(mk)))](rng) for _ in range(k)]
    ref = alone(seqs)
    old = sys.getswitchinterval()
    out, errs = [None] * k, []
    bar = threading.Barrier(k)

    def run(i):
        try:
            bar.wait(60)
            o = {}
            out[i] = [digest(c(o)) for c in seqs[i][1]]
        except BaseException as e:
            errs.append((i, e))
    sys.setswitchinterval(1e-5)
    try:
        th = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(k)]
        [t.start() for t in th]
        [t.join(150) for t in th]
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in th):
        raise Inconclusive('threads did not finish')
    m.ev('threads', k)
    for i, e in errs:
        m.check(False, 'concurrent-crash', '%s: %r (objects %s)' % (seqs[i][0], e, [s[0] for s in seqs]))
    if not errs:
        compare(m, seqs, ref, out, 'concurrent', 'threads')
    m.nontrivial('threads', [s[0] for s in seqs], k)
    m.say(threads=[s[0] for s in seqs])


def networks(m, rng, tier):
    seqs = [m_net(rng) for _ in range(2)]
    ref = alone(seqs)
    out = mixed(m, seqs, rng, True)
    for i, (name, calls) in enumerate(seqs):
        for k in range(len(calls)):
            m.check(same(out[i][k], ref[i][k]), 'network-interleaved', '%s call %d (objects %s)' % (name, k, [s[0] for s in seqs]), event='network_results')
    nets.clear()
    m.say(networks=[s[0] for s in seqs])


WORKLOADS = [W('interleaved', interleaved, 60, 900), W('concurrent', concurrent, 24, 300), W('networks', networks, 6, 40)]
