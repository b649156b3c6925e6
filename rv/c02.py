"""C02 generated columns equal their declaration (reference model) and their metadata window."""
import re
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D
from rv.c01 import build

PROP = 'C02'
RULE = ('one case = random transformer (features or targets) on a random regular dataset; every generated column is '
        'compared with a brute-force reference from the declaration and from the reported window; non-trivial: aggregation, '
        'bins, negative or relative lags; distinct by configuration')
REQUIRED = {'columns_vs_declaration': 400, 'columns_vs_window': 400, 'names_checked': 300, 'reuse_checked': 20, 'window_perturbed': 200}
QUICK_S = 120


def tol(x):
    return 1e-6 * max(1.0, float(np.abs(np.nan_to_num(x)).max()))


def refs(spec, x, dt):
    out = []
    for lag, name, fun, first, last, edges in D.expected_columns(spec, dt):
        out.append((lag, name, fun, first, last, edges, D.window_series(x[name].values, fun, first, last)))
    return out


def check_columns(m, spec, x, got, md, dt):
    exp = refs(spec, x, dt)
    new = [c for c in got.columns if c in set(md.index)]
    m.check(len(new) == len(exp), 'column-count', lambda: '%d columns generated, %d declared; cfg %s' % (len(new), len(exp), spec))
    m.check(got.columns.is_unique, 'column-count', lambda: 'duplicated columns; cfg %s' % spec)
    if len(new) != len(exp) or not got.columns.is_unique:
        return
    pos = x.index.get_indexer(got.index)
    # match by name: source signal, function, lag and bins must be readable from the column name
    for lag, name, fun, first, last, edges, ref in exp:
        cand = new
        if spec['lags'] is not None:
            cand = [c for c in cand if re.search(r'_lag_0*(-?)0*%d$' % abs(lag), c) and
                    (('-' in c.split('_lag_')[1]) == (lag < 0))]
        cand = [c for c in cand if md.loc[c, 'name'] == name and c.startswith(str(name))]
        if fun:
            cand = [c for c in cand if '_%s' % fun in c]
        if edges:
            cand = [c for c in cand if '_%d_%d' % edges in c]
        m.check(len(cand) == 1, 'column-name', lambda: 'columns %s for declared (%s, %s, lag %s, bins %s), cfg %s'
                % (cand, name, fun, lag, edges, spec), event='names_checked')
        if len(cand) != 1:
            continue
        c = cand[0]
        m.close(got[c].values, ref[pos], 'value-vs-declaration', 'column %s cfg %s' % (c, spec), rtol=1e-7,
                atol=tol(ref), event='columns_vs_declaration')
        # declared time window
        r = md.loc[c]
        w0, w1 = int(round(r['start_time'] / dt)), int(round(r['end_time'] / dt)) - 1
        exact = bool(spec['functions'])
        m.check((w0, w1) == (first, last) if exact else (w0 <= first and w1 >= last and w1 == last),
                'window-vs-declaration', lambda: 'column %s reports steps %d..%d, declared %d..%d; cfg %s'
                % (c, w0, w1, first, last, spec))
        ref2 = D.window_series(x[r['name']].values, fun, w0 if exact else w1, w1)
        m.close(got[c].values, ref2[pos], 'value-vs-window', 'column %s reported window %d..%d cfg %s' % (c, w0, w1, spec),
                rtol=1e-7, atol=tol(ref), event='columns_vs_window')
        if fun:
            m.check(r['function'] == fun, 'metadata-function', lambda: 'column %s reported as %s, cfg %s' % (c, r['function'], spec))
        if spec['lags'] is not None and not edges:
            m.check(r['lag'] == lag, 'metadata-lag', lambda: 'column %s reported lag %s' % (c, r['lag']))


def features(m, rng, tier):
    n = int(rng.integers(45, 90))
    idx = D.index(rng, n)
    dt = idx[1] - idx[0]
    x = D.signals(rng, idx)
    spec = D.rand_transform(rng, ['y', 'a', 'b'], -5 if rng.random() < 0.4 else 0, 8,
                            funs=['mean', 'min', 'max', 'sum', 'std', 'spread', 'q80', 'median'], dt=dt)
    if 'std' in (spec['functions'] or []) and (spec.get('steps', 1) < 2 or spec['agg_bins'] is not None):
        spec['functions'] = ['mean']
    if spec['kind'] == 'lag' and rng.random() < 0.3:
        spec['agg_freq'], spec['steps'] = 3, 3
        spec['relative_lags'] = bool(rng.random() < 0.7)
    f = build([spec], [], None)
    o, _ = f.transform(x.copy(), time_features=False, return_target=False)
    check_columns(m, spec, x, o, f.transformers[0].metadata, dt)
    if spec['kind'] != 'lag' or spec['relative_lags'] or min(spec['lags'] or [0]) < 0:
        m.nontrivial(D.key(spec), n)
    m.say(spec=spec, rows=len(o), columns=list(o.columns)[:6])
    # the same formatter on other data, possibly with another sampling step, follows the declaration again
    if rng.random() < 0.5:
        idx2 = D.index(rng, n + 7)
        if isinstance(spec['agg_freq'], str):
            idx2 = D.index(rng, n + 7, step=dt)
        x2 = D.signals(rng, idx2)
        o2, _ = f.transform(x2.copy(), time_features=False, return_target=False)
        check_columns(m, spec, x2, o2, f.transformers[0].metadata, idx2[1] - idx2[0])
        m.ev('reuse_checked')


def targets(m, rng, tier):
    n = int(rng.integers(45, 90))
    idx = D.index(rng, n)
    dt = idx[1] - idx[0]
    x = D.signals(rng, idx)
    spec = D.rand_transform(rng, ['y', 'a'], -10, 0, nonnested_ok=False, dt=dt)
    if spec['lags'] is None:
        spec['lags'] = [-1, -2]
    f = build([], [spec], None)
    _, t = f.transform(x.copy(), time_features=False)
    check_columns(m, spec, x, t, f.target_transformers[0].metadata, dt)
    m.nontrivial('target', D.key(spec), n)
    m.say(target=spec, rows=len(t))


def window(m, rng, tier):
    """perturbing one observation outside the reported window changes nothing, the edges inside it do"""
    n = int(rng.integers(45, 70))
    idx = D.index(rng, n)
    dt = idx[1] - idx[0]
    x = D.signals(rng, idx)
    spec = D.rand_transform(rng, ['a', 'b'], -3, 6, funs=['mean', 'sum'], dt=dt)
    f = build([spec], [], None)
    o, _ = f.transform(x.copy(), time_features=False, return_target=False)
    md = f.transformers[0].metadata
    if len(o) < 2:
        return
    c = md.index[int(rng.integers(len(md)))]
    t = o.index[int(rng.integers(len(o)))]
    i = x.index.get_loc(t)
    name = md.loc[c, 'name']
    w0, w1 = i + int(round(md.loc[c, 'start_time'] / dt)), i + int(round(md.loc[c, 'end_time'] / dt)) - 1
    for j, inside in ((w0 - 1, False), (w0, True), (w1, True), (w1 + 1, False)):
        if j < 0 or j >= n:
            continue
        x2 = x.copy()
        x2.iloc[j, x2.columns.get_loc(name)] += 1000.
        o2, _ = build([spec], [], None).transform(x2, time_features=False, return_target=False)
        if t not in o2.index:
            m.check(False, 'rows-changed', 'row disappeared')
            continue
        ch = abs(o2.loc[t, c] - o.loc[t, c]) > 1e-3
        m.check(ch == inside, 'window-edge', lambda: 'column %s at row %d, observation %d (window %d..%d): changed=%s, cfg %s'
                % (c, i, j, w0, w1, ch, spec), event='window_perturbed')
    m.nontrivial('w', D.key(spec), c)


WORKLOADS = [W('features', features, 300, 5000), W('targets', targets, 150, 2000), W('window', window, 250, 3000)]
