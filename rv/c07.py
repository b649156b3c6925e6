"""C07 global form, threaded and simulated formatting against plain formatting of each signal."""
import numpy as np
import pandas as pd
from rv.common import W, CaseTimeout
from rv import data as D

PROP = 'C07'
RULE = ('one case = random signals and covariates (flat or two-level columns) x random transformer set; the stacked form is '
        'compared, signal by signal, with a fresh formatter applied to that signal alone; threaded and simulated runs are '
        'compared with plain ones; non-trivial: at least two signals and one generated feature; distinct by configuration')
REQUIRED = {'signals_compared': 150, 'multiindex': 15, 'threaded': 30, 'simulated': 40, 'reduced': 30, 'chunked_runs': 15, 'nan_cases': 15, 'orders': 200}
QUICK_S = 200


def formatter(specs, targets, normal=None, **kw):
    from pyforecaster.formatter import Formatter
    f = Formatter(**kw)
    for s in specs:
        D.add(f, s)
    for s in targets:
        D.add(f, s, target=True)
    if normal:
        f.add_target_normalizer(['target'], normal[0], agg_freq=normal[1], name='nr')
        f.add_normalizing_fun("df[t] - df['nr']", "df[t] + df['nr']")
    return f


def tgt(rng, name='target'):
    k = int(rng.integers(1, 5))
    if rng.random() < 0.3:
        return dict(names=[name], functions=['mean'], agg_freq=2, steps=2, lags=[-i for i in range(1, k + 1)],
                    relative_lags=bool(rng.random() < 0.5), agg_bins=None)
    return dict(names=[name], functions=None, agg_freq=None, lags=[-i for i in range(1, k + 1)], relative_lags=False, agg_bins=None)


def glob(m, rng, tier):
    n = int(rng.integers(70, 160))
    idx = D.index(rng, n)
    dt = idx[1] - idx[0]
    multi = bool(rng.random() < 0.45)
    k = int(rng.integers(1, 6))
    covs = ['c%d' % i for i in range(int(rng.integers(0, 3)))]
    sig = [str(s) for s in rng.permutation(['s%d' % i for i in range(k)])]
    normal = [('mean', 5), None, None][rng.integers(3)]
    specs = D.rand_transforms(rng, ['target'], int(rng.integers(1, 3)), 0, 8, dt=dt)
    if multi:
        priv = ['p%d' % i for i in range(int(rng.integers(0, 3)))]
        shared = ['w%d' % i for i in range(int(rng.integers(1, 3)))] if rng.random() < 0.8 else []
        for c in priv + shared:
            specs.append(dict(names=[c], functions=None, agg_freq=None, lags=[int(v) for v in np.sort(rng.choice(6, 2, False))],
                              relative_lags=False, agg_bins=None))
        parts, each = {}, {}
        sh = D.signals(rng, idx, shared) if shared else pd.DataFrame(index=idx)
        for s in sig:
            d = D.signals(rng, idx, ['load'] + priv)
            each[s] = pd.concat([d.rename(columns={'load': 'target'}), sh], axis=1)
            order = list(rng.permutation(d.columns))
            for c in order:
                parts[(s, c)] = d[c]
        for c in shared:
            parts[('common', c)] = sh[c]
        keys = list(parts)
        x = pd.DataFrame({i: parts[kk] for i, kk in enumerate(keys)}, index=idx)
        x.columns = pd.MultiIndex.from_tuples(keys)
        m.ev('multiindex')
    else:
        for c in covs:
            specs.append(dict(names=[c], functions=['max'], agg_freq=3, steps=3, lags=[int(v) for v in np.sort(rng.choice(6, 2, False))],
                              relative_lags=False, agg_bins=None))
        x = D.signals(rng, idx, list(rng.permutation(sig + covs)))
        each = {s: pd.concat([x[[s]].rename(columns={s: 'target'}), x[covs]], axis=1) for s in sig}
    if rng.random() < 0.35 and all(not s['functions'] or set(s['functions']) <= {'mean', 'max', 'min', 'sum', 'std', 'median'} for s in specs):
        # missing cells: both forms get the same ones
        for _ in range(int(rng.integers(1, 4))):
            i, j = int(rng.integers(n)), int(rng.integers(x.shape[1]))
            c = x.columns[j]
            x.iloc[i, j] = np.nan
            for s in sig:
                if multi and c[0] == s:
                    each[s].iloc[i, each[s].columns.get_loc('target' if c[1] == 'load' else c[1])] = np.nan
                elif multi and c[0] == 'common':
                    each[s].iloc[i, each[s].columns.get_loc(c[1])] = np.nan
                elif not multi and (c == s or c in covs):
                    each[s].iloc[i, each[s].columns.get_loc('target' if c == s else c)] = np.nan
        m.ev('nan_cases')
    targets = [tgt(rng)]
    kw = dict(time_features=bool(rng.random() < 0.6), holidays=bool(rng.random() < 0.2))
    red = bool(rng.random() < 0.5)
    ret = bool(rng.random() < 0.8)
    x0 = x.copy(deep=True)
    f = formatter(specs, targets, normal)
    gx, gy = f.transform(x, global_form=True, reduce_memory=red, return_target=ret, **kw)
    m.check(x.equals(x0), 'caller-data-modified', 'global form changed its input')
    m.check('name' in gx.columns, 'name-column', '%s' % list(gx.columns)[:9])
    m.check(sorted(set(gx['name'])) == sorted(sig), 'signal-set', '%s vs %s' % (sorted(set(gx['name'])), sorted(sig)))
    if red:
        m.ev('reduced')
    at = 0
    tol = dict(rtol=3e-7, atol=1e-30) if red else dict(rtol=1e-12, atol=1e-12)
    rows = 0
    names = gx['name'].values
    for s in sig:
        fx, fy = formatter(specs, targets, normal).transform(each[s].copy(), return_target=ret, **kw)
        pos = np.flatnonzero(names == s)
        ix = gx.iloc[pos].drop(columns='name')
        m.ev('signals_compared')
        if not m.check(set(ix.columns) == set(fx.columns), 'columns', lambda: 'signal %s: %s' % (s, set(ix.columns) ^ set(fx.columns))):
            continue
        m.frame_same(ix[fx.columns], fx, 'global-features', 'signal %s (multi %s)' % (s, multi), **tol)
        rows += len(fx)
        if ret:
            iy = gy.iloc[pos]
            m.frame_same(iy, fy, 'global-targets', 'signal %s' % s, **tol)
        m.check(len(pos) == 0 or (np.diff(pos) == 1).all(), 'not-stacked', 'rows of signal %s scattered' % s)
    m.check(len(gx) == rows, 'row-count', '%d rows, %d expected' % (len(gx), rows))
    if ret:
        m.check(gy.index.equals(gx.index), 'alignment', '')
    if k > 1 and rows:
        m.nontrivial([D.key(s) for s in specs], multi, red, k)
    m.say(signals=k, multi=multi, covs=covs, red=red, specs=specs)


def threaded(m, rng, tier):
    n = int(rng.integers(60, 200))
    idx = D.index(rng, n)
    names = ['y', 'a', 'b']
    x = D.signals(rng, idx)
    nt = int(rng.integers(1, 7))
    specs = D.rand_transforms(rng, names, nt, -2, 10, dt=idx[1] - idx[0])
    targets = [dict(names=['y'], functions=None, agg_freq=None, lags=[-1, -2, -3], relative_lags=False, agg_bins=None)]
    a = formatter(specs, targets, n_parallel=int(rng.integers(1, 9)))
    b = formatter(specs, targets)
    x0 = x.copy()
    # the threaded path has no public entry of its own
    ax, ay = getattr(a, '_transform', a.transform)(x, **({'parallel': True} if hasattr(a, '_transform') else {}))
    bx, by = b.transform(x0.copy())
    m.ev('threaded')
    m.check(x.equals(x0), 'caller-data-modified', 'threaded')
    m.frame_same(ax, bx, 'threaded-features', '%s' % specs)
    m.frame_same(ay, by, 'threaded-targets', '')
    for i, (p, q) in enumerate(zip(a.transformers, b.transformers)):
        same_meta(m, p.metadata, q.metadata, 'threaded transformer %d' % i)
    m.nontrivial('t', [D.key(s) for s in specs])


def same_meta(m, p, q, msg):
    if not m.check(p is not None and q is not None, 'metadata-missing', msg):
        return
    m.check(list(p.index) == list(q.index) and list(p.columns) == list(q.columns), 'metadata-index',
            lambda: '%s: %s vs %s' % (msg, list(p.index)[:6], list(q.index)[:6]))
    m.check([str(v) for v in p.values.ravel()] == [str(v) for v in q.values.ravel()], 'metadata-values',
            lambda: '%s:\n%s\n%s' % (msg, p, q))


def simulate(f, x):
    if hasattr(f, '_simulate_transform'):
        return f._simulate_transform(x)
    try:
        next(f.time_kfcv(x.index, 2, x=x))
    except RuntimeError:
        pass


def simulated(m, rng, tier):
    n = int(rng.integers(120, 300))
    idx = D.index(rng, n)
    dt = idx[1] - idx[0]
    x = D.signals(rng, idx)
    specs = D.rand_transforms(rng, ['y', 'a', 'b'], int(rng.integers(1, 5)), -3, 10, dt=dt)
    targets = [tgt(rng, 'y')]
    real = formatter(specs, targets)
    rx, ry = real.transform(x.copy())
    how = rng.integers(4)
    x0 = x.copy()
    if how == 3:        # a formatter that already worked on data with another step
        sim = formatter(specs, targets)
        ox = D.signals(rng, D.index(rng, n, step=dt * 3))
        try:
            sim.transform(ox, time_features=False)
        except Exception as e:
            m.ev('refused_' + type(e).__name__)
            sim = formatter(specs, targets)
        simulate(sim, x)
    elif how == 0:
        sim = formatter(specs, targets)
        try:
            next(sim.time_kfcv(x.index, 2, x=x))
        except RuntimeError:
            pass          # dead band longer than the fold; the metadata is populated anyway
    elif how == 1:
        sim = formatter(specs, targets)
        simulate(sim, x)
    else:
        sim = formatter(specs, targets, dt=dt)
        it = bool(rng.random() < 0.5)
        lim = sim.get_time_lims(include_target=it)
        rl = real.get_time_lims(include_target=it)
        m.check(lim.equals(rl), 'time-limits', lambda: '%s vs %s' % (lim, rl))
    m.ev('simulated')
    m.check(x.equals(x0), 'caller-data-modified', 'simulated run')
    for i, (p, q) in enumerate(zip(sim.transformers + sim.target_transformers, real.transformers + real.target_transformers)):
        same_meta(m, p.metadata, q.metadata, 'simulated (how %d) transformer %d of %s' % (how, i, specs + targets))
    # the metadata names real columns, and a simulated formatter then formats like a fresh one
    for tr in sim.transformers:
        if tr.metadata is not None:
            m.check(set(tr.metadata.index) <= set(rx.columns), 'metadata-names-unknown-column', '')
    sx, sy = sim.transform(x.copy())
    m.frame_same(sx, rx, 'transform-after-simulate', '')
    m.frame_same(sy, ry, 'transform-after-simulate', '')
    m.nontrivial('s', how, [D.key(s) for s in specs])


def ray_global(m, rng, tier):
    """Parallel global form (ray). A ray that cannot start here gives no verdict."""
    idx = D.index(rng, 80)
    k = int(rng.integers(2, 5))
    x = D.signals(rng, idx, ['s%d' % i for i in range(k)] + ['c0'])
    specs = [dict(names=['target'], functions=None, agg_freq=None, lags=[0, 1, 4], relative_lags=False, agg_bins=None),
             dict(names=['c0'], functions=['mean'], agg_freq=3, steps=3, lags=[1], relative_lags=False, agg_bins=None)]
    t = [tgt(rng)]
    ax, ay = formatter(specs, t).transform(x.copy(), global_form=True, reduce_memory=False)
    try:
        bx, by = formatter(specs, t).transform(x.copy(), global_form=True, reduce_memory=False, parallel=True)
    except Exception as e:
        if 'ray' in type(e).__module__.lower() and 'RayTaskError' not in type(e).__name__:
            raise CaseTimeout()
        raise
    m.ev('ray_runs')
    m.frame_same(bx, ax, 'parallel-global-features', '')
    m.frame_same(by, ay, 'parallel-global-targets', '')


def chunked(m, rng, tier):
    """Parallel global form in several rounds of workers. The distributed map is replaced by a sequential one (the signals of a
    round, in order), so that what is observed is how the rounds are cut and put together."""
    from pyforecaster import formatter as F
    if not (hasattr(F, 'fdf_parallel') and hasattr(F, 'cpu_count')):
        m.ev('no_stand_in')
        return
    idx = D.index(rng, 60)
    k, cpus = int(rng.integers(2, 10)), int(rng.integers(1, 5))
    x = D.signals(rng, idx, ['s%d' % i for i in range(k)] + ['c0'])
    specs = [dict(names=['target'], functions=None, agg_freq=None, lags=[0, 1, 4], relative_lags=False, agg_bins=None),
             dict(names=['c0'], functions=['mean'], agg_freq=3, steps=3, lags=[1], relative_lags=False, agg_bins=None)]
    t = [tgt(rng)]
    red, corr = bool(rng.random() < 0.5), bool(rng.random() < 0.4)
    ax, ay = formatter(specs, t).transform(x.copy(), global_form=True, reduce_memory=red, corr_reorder=corr)
    seen = []

    def seq(f, df, *a, **kw):
        seen.append(len(df))
        r = [f(d) for d in df]
        return tuple(pd.concat([i[j] for i in r]) for j in range(2)) if isinstance(r[0], tuple) else pd.concat(r)
    old = F.fdf_parallel, F.cpu_count
    F.fdf_parallel, F.cpu_count = seq, lambda: cpus
    try:
        bx, by = formatter(specs, t).transform(x.copy(), global_form=True, reduce_memory=red, corr_reorder=corr, parallel=True)
    finally:
        F.fdf_parallel, F.cpu_count = old
    m.ev('rounds', len(seen))
    m.check(sorted(set(bx['name'])) == sorted(set(ax['name'])), 'signal-set',
            lambda: '%d signals on %d cpus: delivered %s' % (k, cpus, sorted(set(bx['name']))), event='chunked_runs')
    if len(bx) == len(ax):
        o = np.argsort(bx['name'].values, kind='stable')
        q = np.argsort(ax['name'].values, kind='stable')
        m.frame_same(bx.iloc[o][ax.columns], ax.iloc[q], 'parallel-global-features', '%d signals on %d cpus' % (k, cpus))
        m.frame_same(by.iloc[o], ay.iloc[q], 'parallel-global-targets', '%d signals on %d cpus' % (k, cpus))
    else:
        m.check(False, 'row-count', '%d rows, %d serial ones (%d signals, %d cpus)' % (len(bx), len(ax), k, cpus))
    if k > cpus and k % cpus:
        m.nontrivial('chunked', k, cpus, red)


def reordered(m, rng, tier):
    """Features sorted by correlation with the target: each signal keeps its own values and its own order, also on new data."""
    n, k = int(rng.integers(90, 160)), int(rng.integers(1, 5))
    idx = D.index(rng, n)
    dt = idx[1] - idx[0]
    sig = ['s%d' % i for i in range(k)]
    x, x2 = D.signals(rng, idx, sig + ['c0']), D.signals(rng, idx + n * dt, sig + ['c0'])
    specs = D.rand_transforms(rng, ['target'], int(rng.integers(1, 3)), 0, 9, dt=dt)
    specs = specs + [dict(names=['c0'], functions=None, agg_freq=None, lags=[0, 1, 3, 6], relative_lags=False, agg_bins=None)]
    t = [tgt(rng)]
    red = bool(rng.random() < 0.5)
    kw = dict(global_form=True, reduce_memory=red, time_features=bool(rng.random() < 0.5))
    f, p = formatter(specs, t), formatter(specs, t)
    plain, py = p.transform(x.copy(), **kw)
    got, gy = f.transform(x.copy(), corr_reorder=True, **kw)
    m.frame_same(gy, py, 'reordered-targets', 'red %s' % red)
    groups = [list(tr.metadata.index[tr.metadata['name'] == v]) for tr in p.transformers for v in tr.metadata['name'].unique()]
    if sum(map(len, groups)) != len({c for g in groups for c in g}):
        return
    if not m.check(list(got.columns) == list(plain.columns) and got.index.equals(plain.index) and (got['name'].values == plain['name'].values).all(),
                   'reordered-layout', '%s %s' % (list(got.columns)[:9], list(plain.columns)[:9])):
        return
    rest = [c for c in plain.columns if c not in {c for g in groups for c in g}]
    m.frame_same(got[rest], plain[rest], 'reordered-other-columns', 'red %s' % red)
    tol = dict(rtol=3e-6, atol=1e-30) if red else dict(rtol=1e-12, atol=1e-12)
    perms = {}
    for s in sig:
        w = (plain['name'] == s).values
        y0 = py.iloc[:, 0].values[w].astype(float)
        for g in groups:
            A, B = plain.loc[w, g].values.astype(float), got.loc[w, g].values.astype(float)
            if any(np.ptp(A[:, j]) < 1e-9 or any(np.allclose(A[:, i], A[:, j], rtol=1e-4) for i in range(j)) for j in range(len(g))):
                continue                 # equal or constant columns have no order
            perm = [next((j for j in range(len(g)) if np.allclose(B[:, i], A[:, j], **tol)), -1) for i in range(len(g))]
            if not m.check(sorted(perm) == list(range(len(g))), 'reordered-values', lambda: 'signal %s columns %s: sources %s' % (s, g, perm), event='orders'):
                continue
            c = [np.corrcoef(A[:, j], y0)[0, 1] for j in perm]
            m.check(all(a >= b - 1e-6 for a, b in zip(c, c[1:])), 'not-by-correlation', lambda: 'signal %s of %d columns %s: %s' % (s, k, g, np.round(c, 4)), event='orders')
            perms[s, tuple(g)] = perm
    for data in (x2, x):
        a, _ = f.transform(data.copy(), corr_reorder=True, return_target=False, **kw)
        b, _ = p.transform(data.copy(), return_target=False, **kw)
        if not m.check(len(a) == len(b), 'row-count', 'prediction table'):
            return
        for (s, g), perm in perms.items():
            w = (b['name'] == s).values
            m.close(a.loc[w, list(g)].values.astype(float), b.loc[w, [g[j] for j in perm]].values.astype(float), 'order-at-prediction',
                    'signal %s of %d columns %s: the order of the features is not the one of training' % (s, k, list(g)), event='orders', **tol)
    if len({tuple(v) for v in perms.values()}) > 1 and k > 1:
        m.nontrivial('reordered', k, red, [D.key(s) for s in specs])


WORKLOADS = [W('chunked', chunked, 24, 200), W('reordered', reordered, 30, 300), W('global', glob, 120, 1500), W('threaded', threaded, 60, 800), W('simulated', simulated, 90, 1000),
             W('ray_global', ray_global, 1, 6, timeout=150)]
