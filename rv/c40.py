"""C40 Plots draw the data they are given: artists and animation frames read back and compared with the plotted tables."""
import os
import tempfile
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D
from rv import trees as T

PROP = 'C40'
RULE = ('one case = random table, quantile fan, tree list or formatted signal handed to a plotting function; the animation object is captured and frames '
        'are drawn in random order, the data of every line, mesh and bar is read back from the figure and compared with the source, which must be '
        'unchanged; non-trivial: more than one row and column')
REQUIRED = {'heat_values': 30, 'heat_ticks': 30, 'fan_lines': 200, 'frame_lines': 200, 'tree_lines': 100, 'bars': 200, 'cells': 30, 'inputs_kept': 100}
QUICK_S = 200


class Frames:
    """captures the animation functions instead of running a timer."""

    def __enter__(self):
        from matplotlib import animation
        self.mod, self.orig, got = animation, animation.FuncAnimation, []

        class Captured:
            def __init__(self, fig, func, frames=None, init_func=None, **k):
                self.fig, self.func, self.frames, self.init = fig, func, frames, init_func
                got.append(self)

            def save(self, *a, **k):
                pass

        animation.FuncAnimation = Captured
        self.got = got
        return self

    def __exit__(self, *a):
        self.mod.FuncAnimation = self.orig


def number(f):
    return len(f) if hasattr(f, '__len__') else int(f)


def line_data(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]


def heat(m, rng, tier):
    import matplotlib.pyplot as plt
    from pyforecaster.plot_utils import plot_summary_score, plot_multiple_summary_scores
    r, c = int(rng.integers(1, 9)), int(rng.integers(1, 40))
    edges = np.cumsum(rng.integers(1, 5, r + 1)) + float(rng.choice([0, 0.25]))
    ints = bool(rng.random() < 0.6)
    df = pd.DataFrame(rng.normal(0, 3, (r, c)), index=pd.IntervalIndex.from_breaks(edges) if ints else ['g%d' % i for i in range(r)])
    if rng.random() < 0.3:
        df.iloc[int(rng.integers(r)), int(rng.integers(c))] = np.nan
    tag = '%d x %d intervals %s' % (r, c, ints)
    d0 = df.copy()
    spec = None
    kw = {}
    if ints and rng.random() < 0.5:
        spec = {'round': int(rng.integers(1, 3)), 'unify': ['left', 'mean'][rng.integers(2)]}
        kw = dict(label_specs={'y': dict(spec)}, interval_to_ints=False)
    fig, ax = plot_summary_score(df, **kw)
    m.check(df.equals(d0) and list(df.index) == list(d0.index) and list(df.columns) == list(d0.columns), 'inputs-kept', '%s: the table handed in is relabelled' % tag,
            event='inputs_kept')
    mesh = ax.collections[0].get_array()
    got = np.ma.filled(np.ma.asarray(mesh).astype(float), np.nan).reshape(r, c)
    m.close(got, d0.values, 'heat-values', tag, event='heat_values')
    for t, l in zip(ax.get_xticks(), ax.get_xticklabels()):
        if l.get_text():
            m.check(l.get_text() == str(d0.columns[int(t)]), 'heat-ticks', '%s: column %d is labelled %s' % (tag, int(t), l.get_text()), event='heat_ticks')
    if spec:
        want = [round(i.left, spec['round']) if spec['unify'] == 'left' else (round(i.left, spec['round']) + round(i.right, spec['round'])) / 2 for i in d0.index]
        for t, l in zip(ax.get_yticks(), ax.get_yticklabels()):
            if l.get_text():
                m.check(abs(float(l.get_text()) - want[int(t)]) < 1e-9, 'heat-rows', '%s: row %s labelled %s' % (tag, d0.index[int(t)], l.get_text()))
    elif not ints:
        for t, l in zip(ax.get_yticks(), ax.get_yticklabels()):
            if l.get_text():
                m.check(l.get_text() == d0.index[int(t)], 'heat-rows', '%s: %s' % (tag, l.get_text()))
    plt.close('all')
    if rng.random() < 0.4:
        dfs = {'a': df, 'b': df * 2 + 1}
        fig, axs = plot_multiple_summary_scores(dfs, 6, 3)
        for a, k in zip(axs, dfs):
            got = np.ma.filled(np.ma.asarray(a.collections[0].get_array()).astype(float), np.nan).reshape(r, c)
            m.close(got, dfs[k].values, 'heat-values', '%s: panel %s' % (tag, k))
            m.check(a.get_title() == k, 'panel-title', a.get_title())
            lim = a.collections[0].get_clim()
            allv = np.concatenate([v.values.ravel() for v in dfs.values()])
            m.check(np.isclose(lim, [np.nanmin(allv), np.nanmax(allv)]).all(), 'common-scale', '%s: %s' % (tag, lim))
        plt.close('all')
    if r > 1 and c > 1:
        m.nontrivial('heat', r, c, ints, str(spec))
    m.say(kind='heat map', rows=r, columns=c)


def fan(m, rng, tier):
    import matplotlib.pyplot as plt
    from pyforecaster.plot_utils import plot_quantiles
    n, t, k, ns = int(rng.integers(3, 40)), int(rng.integers(2, 10)), int(rng.integers(2, 6)), int(rng.integers(1, 4))
    idx = D.index(rng, n, step='1h')
    cols = ['y_%d' % i for i in range(t)]
    S = [pd.DataFrame(rng.normal(5, 1, (n, t)), index=idx, columns=cols) for _ in range(ns)]
    q = np.sort(rng.normal(5, 2, (n, t, k)), -1)
    lev = np.linspace(0.1, 0.9, k)
    frame = rng.random() < 0.5
    qs = pd.DataFrame(q.reshape(n, -1), index=idx, columns=pd.MultiIndex.from_product([cols, lev])) if frame else q
    sig = [s if rng.random() < 0.6 else s.values for s in S]
    if ns == 1 and rng.random() < 0.5:
        sig = sig[0]
    step, n_rows = int(rng.integers(1, 4)), int(rng.integers(2, 60))
    keep = list(sig) if isinstance(sig, list) else sig
    copies = [s.copy() for s in S]
    q0 = q.copy()
    tag = '%d rows %d steps %d levels, every %d rows' % (n, t, k, step)
    with Frames() as F:
        plot_quantiles(sig, qs, ['s%d' % i for i in range(ns)], n_rows=n_rows, step=step)
    same = all(a is b for a, b in zip(sig, keep)) if isinstance(sig, list) else sig is keep
    m.check(same and all(a.equals(b) for a, b in zip(S, copies)) and (q == q0).all(), 'inputs-kept', tag, event='inputs_kept')
    an = F.got[-1]
    ax = an.fig.axes[0]
    N = number(an.frames)
    m.check(1 <= N and (N - 1) * step < n and N <= n_rows and N >= min(n_rows, n // step), 'frames', '%s: %d frames of %d' % (tag, N, n_rows), event='frames')
    if an.init is not None:
        an.init()
    for i in rng.permutation(N)[:8]:
        an.func(int(i))
        L = line_data(ax)
        row = int(i) * step
        want = [s.values[row] for s in S] + [q[row, :, j] for j in range(k)]
        if not m.check(len(L) == len(want), 'lines', '%s: %d lines for %d curves' % (tag, len(L), len(want))):
            break
        for (x, y), w in zip(L, want):
            m.close(y, w, 'fan-lines', '%s: frame %d' % (tag, i), event='fan_lines')
            m.close(x, np.arange(t), 'fan-steps', tag)
    labels = [l.get_label() for l in ax.lines][:ns]
    m.check(labels == ['s%d' % i for i in range(ns)], 'legend', '%s: %s' % (tag, labels))
    plt.close('all')
    m.nontrivial('fan', n, t, k, ns, step)
    m.say(kind='quantile fan', rows=n, steps=t, levels=k)


def series(m, rng, tier):
    import matplotlib.pyplot as plt
    from pyforecaster.plot_utils import ts_animation
    n, t, ns = int(rng.integers(4, 40)), int(rng.integers(2, 10)), int(rng.integers(1, 4))
    ys = [rng.normal(0, 3, (n, t)) for _ in range(ns)]
    step = int(rng.integers(1, 3))
    target = rng.normal(0, 3, n * step + t) if rng.random() < 0.5 else None
    off = int(rng.integers(0, 9))
    ts = [np.arange(t) + off + j for j in range(ns)] if rng.random() < 0.6 else None
    tag = '%d series %d rows %d steps, target %s' % (ns, n, t, target is not None)
    y0 = [y.copy() for y in ys]
    with Frames() as F:
        ts_animation(ys, ts=ts, names=['n%d' % i for i in range(ns)], frames=20, step=step, target=target)
    an = F.got[-1]
    ax = an.fig.axes[0]
    an.init()
    N = min(number(an.frames), (n - 1) // step)
    m.check(number(an.frames) <= n, 'frames', '%s: %d' % (tag, number(an.frames)), event='frames')
    for i in rng.permutation(N)[:6]:
        an.func(int(i))
        L = line_data(ax)
        want = [y[i * step] for y in y0] + ([target[i * step:i * step + t]] if target is not None else [])
        if not m.check(len(L) == len(want), 'lines', '%s: %d lines' % (tag, len(L))):
            break
        for j, ((x, y), w) in enumerate(zip(L, want)):
            m.close(y, w, 'frame-lines', '%s: frame %d curve %d' % (tag, i, j), event='frame_lines')
            m.close(x, np.arange(t) if ts is None else ts[0] if j >= ns else ts[j], 'frame-steps', tag)
    lo, hi = ax.get_ylim()
    m.check(lo <= min(y.min() for y in y0) and hi >= max(y.max() for y in y0), 'limits', '%s: %s' % (tag, (lo, hi)))
    m.check(all((a == b).all() for a, b in zip(ys, y0)), 'inputs-kept', tag, event='inputs_kept')
    plt.close('all')
    m.nontrivial('series', n, t, ns, step, target is None)
    m.say(kind='animated series', rows=n, steps=t, series=ns)


def tree(m, rng, tier):
    import matplotlib.pyplot as plt
    import networkx as nx
    from pyforecaster.scenred import scenred, plot_from_graph
    from pyforecaster.plot_utils import plot_trees
    steps, n = int(rng.integers(2, 7)), int(rng.integers(3, 14))
    nodes = np.array([1] + sorted(rng.integers(1, n, steps - 1).tolist()))
    gs = []
    for _ in range(int(rng.integers(1, 4))):
        gs.append(scenred(np.cumsum(rng.normal(0, 1, (steps, n)), 0), nodes=nodes)[4])
    before = [T.signature(g) for g in gs]
    tag = '%d steps %d scenarios nodes %s' % (steps, n, nodes.tolist())

    def same(lines, g):
        got = sorted(tuple(np.round(np.ravel(y), 9)) for _, y in lines)
        want = sorted(tuple(np.round(v[:, 0], 9)) for v, _ in T.paths(g))
        m.check(got == want, 'tree-lines', '%s: %d curves, %d paths' % (tag, len(got), len(want)), event='tree_lines')
        m.ev('tree_lines', len(got) - 1)
        m.check(all((np.ravel(x) == np.arange(steps)).all() for x, _ in lines), 'tree-steps', tag)

    fig, ax = plt.subplots()
    plot_from_graph(gs[0], ax=ax)
    same(line_data(ax), gs[0])
    plt.close('all')
    with Frames() as F:
        plot_trees(gs + gs[:1], frames=10)
    an = F.got[-1]
    ax = an.fig.axes[0]
    sizes = {sum(1 for k in g if g.out_degree(k) == 0) for g in gs}
    for i in rng.permutation(number(an.frames)):
        if len(sizes) == 1:
            an.func(int(i))
            same(line_data(ax), (gs + gs[:1])[int(i)])
    m.check([T.signature(g) for g in gs] == before, 'inputs-kept', tag, event='inputs_kept')
    plt.close('all')
    m.nontrivial('tree', steps, n, tuple(nodes))
    m.say(kind='tree', steps=steps, scenarios=n)


def bars(m, rng, tier):
    import matplotlib.pyplot as plt
    from pyforecaster.formatter import Formatter
    n = int(rng.integers(60, 120))
    idx = D.index(rng, n, step='1h')
    df = D.signals(rng, idx, ['y', 'b'])
    lags = np.sort(rng.choice(np.arange(0, 12), int(rng.integers(1, 5)), replace=False))
    agg = ['mean', 'min', 'max'][:int(rng.integers(1, 4))]
    wins = [np.sort(rng.choice(np.arange(0, 10), 4, replace=False))]
    f = Formatter(logger=None).add_transform(['y', 'b'], lags=lags)
    f.add_transform(['y'], agg, agg_bins=np.sort(rng.choice(np.arange(1, 12), 3, replace=False)))
    f.add_target_transform(['y'], lags=-np.arange(1, int(rng.integers(2, 6))))
    d0 = df.copy()
    x, y = f.transform(df.copy())
    full = pd.concat([x, y], axis=1)
    sig = 'y' if rng.random() < 0.7 else 'b'
    with Frames() as F:
        f.plot_transformed_feature(df, sig, frames=30)
    m.check(df.equals(d0), 'inputs-kept', sig, event='inputs_kept')
    an = F.got[-1]
    ax = an.fig.axes[0]
    an.init()
    meta = []
    for t in f.transformers + f.target_transformers:
        for c, r in t.metadata.loc[t.metadata['name'] == sig].iterrows():
            meta.append((c, r['start_time'].total_seconds() / 86400, r['end_time'].total_seconds() / 86400))
    tag = '%s lags %s aggregations %s' % (sig, lags.tolist(), agg)
    for i in rng.permutation(min(number(an.frames), len(full) - 1))[:6]:
        an.func(int(i))
        got = []
        for p in ax.patches:
            d = p.get_data()
            got.append((round(float(d.edges[0]), 7), round(float(d.edges[1]), 7), round(float(np.ravel(d.values)[0]), 7)))
        want = [(round(a, 7), round(b, 7), round(float(full[c].iloc[i]), 7)) for c, a, b in meta]
        m.check(sorted(got) == sorted(want), 'bars', '%s: row %d draws %s instead of %s' % (tag, i, sorted(got)[:3], sorted(want)[:3]), event='bars')
        m.ev('bars', len(want) - 1)
    plt.close('all')
    m.nontrivial('bars', tuple(lags), len(agg), sig)
    # the features kept for a step ahead, drawn over their time windows
    if rng.random() < 0.5:
        drawn = []
        orig = plt.pause
        plt.pause = lambda *a: drawn.append((plt.gca().get_title(), line_data(plt.gca())[1:]))
        last = int(rng.integers(0, 3))
        try:
            f.plot_dataset_at_stepahead(x, method='periodic', period='6h', tol_period='2h', keep_last_n_lags=last)
        finally:
            plt.pause = orig
        m.check(len(drawn) == y.shape[1], 'step-datasets', '%s: %d drawings for %d steps' % (tag, len(drawn), y.shape[1]))
        allm = pd.concat([t.metadata for t in f.transformers])
        for title, L in drawn:
            k = int(title.split()[-1])
            xi = f.prune_dataset_at_stepahead(x, k, [], method='periodic', period='6h', tol_period='2h', keep_last_n_lags=last)
            want = sorted((round(allm.loc[c, 'start_time'].total_seconds(), 6), round(allm.loc[c, 'end_time'].total_seconds(), 6)) for c in xi.columns)
            got = sorted((round(a[0], 6), round(a[-1], 6)) for a, _ in L)
            m.check(got == want, 'step-windows', '%s: step %d draws %s instead of %s' % (tag, k, got[:3], want[:3]), event='step_windows')
        plt.close('all')
    m.say(kind='feature bars', signal=sig, lags=str(lags.tolist()))


def cells(m, rng, tier):
    from pyforecaster.plot_utils import hist_2d
    n = int(rng.integers(40, 300))
    d = pd.DataFrame({'v': rng.normal(3, 1, n), 'a': rng.normal(0, 1, n), 'b': rng.choice([0.0, 1, 2, 5], n) if rng.random() < 0.3 else rng.gamma(2, 1, n)})
    if rng.random() < 0.4:
        d.iloc[rng.integers(0, n, 5), 0] = np.nan
    qs = None if rng.random() < 0.5 else np.sort(rng.choice(np.arange(0, 101, 10), int(rng.integers(3, 8)), replace=False)) / 100
    d0 = d.copy()
    h = hist_2d(d, 'v', 'a', 'b', plot=False, qs=qs)
    m.check(d.equals(d0), 'inputs-kept', 'table', event='inputs_kept')
    q = np.linspace(0.1, 0.9, 11) if qs is None else qs
    ea, eb = np.unique(np.quantile(d0['a'], q)), np.unique(np.quantile(d0['b'], q))
    m.check(h.shape == (len(ea) - 1, len(eb) - 1), 'cells', '%s, expected %s' % (h.shape, (len(ea) - 1, len(eb) - 1)))
    for i in range(h.shape[0]):
        for j in range(h.shape[1]):
            w = d0['v'][(d0['a'] > ea[i]) & (d0['a'] <= ea[i + 1]) & (d0['b'] > eb[j]) & (d0['b'] <= eb[j + 1])].dropna()
            if len(w):
                m.close(h.iloc[i, j], w.mean(), 'cells', 'cell %d %d of %d rows' % (i, j, len(w)), event='cells')
    m.nontrivial('cells', n, len(q))
    m.say(kind='cell means', rows=n)


def resampling(m, rng, tier):
    import matplotlib.pyplot as plt
    from pyforecaster.stat_utils import bootstrap
    n = int(rng.integers(10, 40))
    s = pd.Series(rng.normal(2, 1, n))
    seed = int(rng.integers(1 << 30))
    with tempfile.TemporaryDirectory(dir=os.environ.get('RV_SCRATCH')) as d:
        np.random.seed(seed)
        a = bootstrap(s.copy(), 'mean', n_sampling=120)
        np.random.seed(seed)
        b = bootstrap(s.copy(), np.mean, save_plots_dir=d, n_sampling=120)
        m.check(sorted(os.listdir(d)) == ['bootstrap_rectified_qq_plot.pdf', 'bootstrap_stripplot.pdf'], 'files', str(os.listdir(d)), event='bootstrap_files')
    m.close(b.values, a.values, 'plots-change-the-result', 'bootstrap of %d' % n)
    plt.close('all')
    m.say(kind='bootstrap plots', rows=n)


WORKLOADS = [W('heat', heat, 40, 500), W('fan', fan, 40, 500), W('series', series, 40, 500), W('tree', tree, 40, 500), W('bars', bars, 30, 400),
             W('cells', cells, 40, 500), W('resampling', resampling, 3, 20)]
