"""C20 tree forecasts: superposition of the point forecast on the error tree of the hour."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import models as M
from rv.trees import signature, check_tree, warm

PROP = 'C20'
RULE = ('one case = fitted forecaster with one error tree per hour x rows in random order, repeated calls, initial observations, parallel '
        'prediction; every node value compared with the stored tree plus the forecast of the row; non-trivial: rows of different hours')
REQUIRED = {'rows': 120, 'node_values': 1500, 'trees_unchanged': 30, 'single_row': 20, 'initial_observation': 20, 'repeat': 30, 'online': 15, 'same_seed': 15}
QUICK_S = 240


def compare(m, g, ref, shift, tag):
    a, ea = signature(g)
    b, eb = signature(ref)
    m.check(ea == eb and [(k, t) for k, t, _, _ in a] == [(k, t) for k, t, _, _ in b], 'structure', '%s: not the structure of the tree of its hour' % tag)
    m.check(all(abs(p - q) < 1e-12 for (_, _, p, _), (_, _, q, _) in zip(a, b)), 'probabilities', tag)
    va = np.array([v[0] for _, _, _, v in a])
    vb = np.array([v[0] + shift[t] for _, t, _, v in b])
    m.close(va, vb, 'node-values', '%s: node values are not error tree + forecast' % tag, rtol=1e-6, atol=1e-6)
    m.ev('node_values', len(va))


def prefit(m, rng, tier, par_on=False):
    name = ['linear', 'lgb', 'rff'][int(rng.integers(3))]
    T = int(rng.integers(1, 6))
    x, y = M.dataset(rng, n=24 * int(rng.integers(8, 13)), T=T, tz=[None, 'Europe/Zurich'][rng.integers(2)])
    add = bool(rng.random() < 0.5)
    nodes = np.hstack([1, np.sort(rng.integers(1, 8, T - 1))])
    kw = M.settings(rng, name, T)
    par = par_on
    f = M.fit(name, x, y, 1, online_tree_reduction=False, additional_node=add, nodes_at_step=nodes, n_scen_fit=25, parallel_preds=par, **kw)
    stored = {h: signature(t) for h, t in f.scengen.trees.items()}
    import copy
    ref = copy.deepcopy(f.scengen.trees)
    m.check(sorted(ref) == list(range(24)), 'tree-per-hour', str(sorted(ref)))
    for h in rng.choice(24, 3, replace=False):
        check_tree(m, ref[int(h)], T + add, '%s stored tree of hour %d' % (name, h))
    r = int(rng.integers(1, 9))
    xt = x.iloc[rng.choice(len(x), r, replace=False)]
    kk = {}
    if add and rng.random() < 0.7:
        kk['init_obs'] = rng.normal(0, 10, r)
    tag = '%s T=%d add=%s parallel=%s' % (name, T, add, par)
    p = f.predict(xt.copy()).values

    def shifts(order):
        s = p[order]
        if add:
            s = np.column_stack([kk['init_obs'][order] if 'init_obs' in kk else s[:, 0], s])
            m.ev('initial_observation')
        return s

    def call(order, **extra):
        k2 = dict(kk)
        if 'init_obs' in k2:
            k2['init_obs'] = k2['init_obs'][order]
        t = f.predict_trees(xt.iloc[order].copy(), **k2, **extra)
        m.check(not (len(order) == 1 and isinstance(t, list)), 'single-row', '%s: a list for a single row' % tag)
        return [t] if len(order) == 1 else t
    for order in (np.arange(r), rng.permutation(r), np.array([int(rng.integers(r))])):
        if len(order) == 1:
            m.ev('single_row')
        tr = call(order)
        if not m.check(isinstance(tr, list) and len(tr) == len(order), 'one-tree-per-row', '%s: %d rows' % (tag, len(order))):
            return
        sh = shifts(order)
        for i, g in enumerate(tr):
            m.ev('rows')
            compare(m, g, ref[int(xt.index[order[i]].hour)], sh[i], tag)
        m.ev('repeat')
        # writing on a result must not reach the stored trees
        for n_ in tr[0].nodes:
            tr[0].nodes[n_]['v'] = np.atleast_1d(1e6)
            tr[0].nodes[n_]['p'] = -1.0
    m.check({h: signature(t) for h, t in f.scengen.trees.items()} == stored, 'stored-trees-changed', tag, event='trees_unchanged')
    if len(set(xt.index.hour)) > 1:
        m.nontrivial('pre', name, T, add, list(nodes), r, par)
    m.say(model=name, steps=T, rows=r, hours=list(map(int, xt.index.hour)), initial_node=add)


def online(m, rng, tier):
    """trees built at prediction time: one per row in row order, root on the initial observation, reproducible"""
    T = int(rng.integers(2, 5))
    x, y = M.dataset(rng, n=240, T=T, noise=0.05)
    y = y - y.mean() + 0.0
    add = bool(rng.random() < 0.6)
    nodes = np.hstack([1, np.sort(rng.integers(1, 8, T - 1))])
    f = M.fit('linear', x, y, 1, additional_node=add, nodes_at_step=nodes, val_ratio=0.4)
    r = int(rng.integers(2, 5))
    xt = x.iloc[rng.choice(len(x), r, replace=False)]
    kk = dict(init_obs=rng.normal(0, 10, r)) if add else {}
    seed = int(rng.integers(1e6))
    tr = f.predict_trees(xt.copy(), n_scen=60, random_state=seed, **kk)
    m.check(len(tr) == r, 'one-tree-per-row', 'online')
    q = f.predict_quantiles(xt.copy(), dataframe=False)
    sc = f.predict_scenarios(xt.copy(), n_scen=60, random_state=seed, **kk)
    for i, g in enumerate(tr):
        m.ev('online')
        check_tree(m, g, T + add, 'online T=%d add=%s' % (T, add), nodes=np.hstack([1, nodes]) if add else nodes, scens=sc[i], exact=True, tol=2e-5)
        if add:
            root = [a['v'] for _, a in g.nodes(data=True) if a['t'] == 0][0]
            m.check(abs(float(np.ravel(root)[0]) - kk['init_obs'][i]) < 1e-4, 'root-on-observation', 'row %d: root %s, observed %s' % (i, root, kk['init_obs'][i]), event='initial_observation')
    again = f.predict_trees(xt.copy(), n_scen=60, random_state=seed, **kk)
    for g, h in zip(tr, again):
        (a, ea), (b, eb) = signature(g), signature(h)
        m.check(ea == eb and len(a) == len(b) and all(u[:2] == v[:2] and abs(u[2] - v[2]) < 1e-9 for u, v in zip(a, b)), 'same-seed', 'add=%s: same random state, another tree' % add, event='same_seed')
        m.close(np.array([v[3][0] for v in a]), np.array([v[3][0] for v in b]), 'same-seed', 'add=%s: same random state, other values' % add, rtol=1e-9, atol=1e-9)
    one = f.predict_trees(xt.iloc[[0]].copy(), n_scen=20, random_state=seed, **({'init_obs': kk['init_obs'][:1]} if add else {}))
    m.check(not isinstance(one, list), 'single-row', 'online', event='single_row')
    m.nontrivial('online', T, add, list(nodes), r)


def parallel(m, rng, tier):
    prefit(m, rng, tier, True)


WORKLOADS = [W('parallel', parallel, 1, 10), W('prefit', prefit, 36, 300), W('online', online, 16, 160)]
