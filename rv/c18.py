"""C18 scenario trees are well-formed probability trees."""
import os
import tempfile
import numpy as np
import pandas as pd
from rv.common import W
from rv import models as M
from rv.trees import check_tree, paths, warm

PROP = 'C18'
RULE = ('one case = random scenarios (random walks, seasonal, heavy tailed, repeated values) x tree type x nodes per step (list, array, '
        'default, not starting from one); the oracle inspects every node and edge of the produced graph; non-trivial: more than one leaf '
        'and at least three steps')
REQUIRED = {'trees': 120, 'nodes': 2000, 'scenred': 30, 'quantile': 20, 'diff': 10, 'gas': 3, 'forecaster_trees': 20, 'nodes-per-step': 400, 'caller_data': 100, 'long': 6, 'returned': 150, 'start_tree': 30}
QUICK_S = 240


def scens(rng, T=None, n=None):
    T = T or int(rng.integers(2, 9))
    n = n or int(rng.integers(20, 120))
    k = rng.integers(4)
    if k == 0:
        s = np.cumsum(rng.normal(0, 1, (T, n)), axis=0)
    elif k == 1:
        s = rng.normal(0, 1, (T, n)) * rng.uniform(0.1, 10, (T, 1)) + rng.normal(0, 50)
    elif k == 2:
        s = rng.standard_t(3, (T, n)) + np.sin(np.arange(T))[:, None] * 3
    else:
        s = np.sort(rng.exponential(1, (1, n))) * np.arange(1, T + 1)[:, None] + rng.normal(0, 0.01, (T, n))
    return s


def rand_nodes(rng, T, n, mult=False):
    if mult:
        k = [1]
        for _ in range(T - 1):
            k.append(k[-1] * int(rng.choice([1, 2, 2, 3])) if k[-1] < 12 else k[-1])
        return np.array(k)
    return np.hstack([1, np.sort(rng.integers(1, max(2, min(n, 30)), T - 1))]).astype(int)


def described(m, g, arrays, vals, tag):
    """scenarios, node indices and values returned with a tree are those of the tree"""
    ts, idx, tv = arrays
    ts, idx, tv = np.asarray(ts, dtype=float), np.asarray(idx), np.asarray([float(np.ravel(v)[0]) for v in tv])
    V = np.array([vals[k][0] for k in range(len(vals))])
    tol = 1e-5 * (1 + np.abs(V).max())
    m.check(tv.shape == V.shape and np.abs(tv - V).max() <= tol, 'returned-values', lambda: '%s: values %s, those of the tree %s' % (tag, tv[:6], V[:6]), event='returned')
    m.check(ts.shape == idx.shape and np.abs(ts - V[idx]).max() <= tol, 'returned-scenarios',
            lambda: '%s: returned scenarios differ from the paths of the tree by %.4g' % (tag, np.abs(ts - V[idx]).max()), event='returned')


def run(m, rng, kind, sc, nodes, tag, via):
    from pyforecaster import tree_builders as tb
    from pyforecaster.scenred import retrieve_scenarios_indexes
    T, n = sc.shape
    C = {'scenred': tb.ScenredTree, 'quantile': tb.QuantileTree, 'diff': tb.DiffTree, 'gas': tb.NeuralGas}[kind]
    asked = None if nodes is None else np.array(nodes)
    sc0 = sc.copy()
    given = nodes if nodes is None or rng.random() < 0.5 else list(map(int, nodes))
    kk = dict(do_plot=False) if kind == 'gas' else {}
    it = int(rng.integers(3, 25)) if kind in ('diff', 'gas') else 100
    if via == 'init':
        t = C(nodes_at_step=given)
        g, *arrays = t.gen_tree(sc, k_max=it, **kk)
    else:
        t = C()
        g, *arrays = t.gen_tree(sc, k_max=it, nodes_at_step=given, **kk)
    m.ev(kind)
    m.check((sc == sc0).all(), 'scenarios-modified', tag, event='caller_data')
    if asked is not None:
        m.check(list(map(int, given)) == list(map(int, asked)), 'nodes-modified', '%s: %s became %s' % (tag, asked, given), event='caller_data')
    ok = check_tree(m, g, T, tag, nodes=asked, scens=sc, exact=kind == 'scenred', in_range=kind in ('scenred', 'quantile'))
    if ok:
        idx, leaves = retrieve_scenarios_indexes(g)
        P = {tuple(np.round(v.ravel(), 6)) for v, _ in paths(g)}
        vals = {k: np.asarray(a['v'], dtype=float).ravel() for k, a in g.nodes(data=True)}
        Q = {tuple(np.round(np.hstack([vals[i] for i in idx[:, c]]), 6)) for c in range(idx.shape[1])}
        m.check(P == Q, 'path-indexes', '%s: scenario indexes do not list the root-to-leaf paths' % tag)
        described(m, g, arrays, vals, tag)
        if kind != 'scenred' and rng.random() < 0.5:
            # grown again from this tree, on other scenarios: this one is left as it is
            g2, *arrays2 = C(nodes_at_step=given).gen_tree(sc + 1, k_max=it, start_tree=g, **kk)
            after = {k: np.asarray(a['v'], dtype=float).ravel() for k, a in g.nodes(data=True)}
            m.check(all(np.array_equal(after[k], vals[k]) for k in vals), 'start-tree-modified', tag, event='start_tree')
            m.check(sorted(g2.edges) == sorted(g.edges) and all(abs(g2.nodes[k]['p'] - g.nodes[k]['p']) < 1e-12 for k in g), 'start-tree-structure', tag, event='start_tree')
            described(m, g2, arrays2, {k: np.asarray(a['v'], dtype=float).ravel() for k, a in g2.nodes(data=True)}, tag + ' from a tree')
        if kind == 'quantile' and asked is not None and asked[-1] <= 6 and n >= 40:
            # the values spread over the scenarios of their own step
            med = np.median(sc, axis=1)
            root = [np.asarray(a['v'], dtype=float).ravel()[0] for _, a in g.nodes(data=True) if a['t'] == 0][0]
            m.check(abs(root - med[0]) < 1e-6 + 1e-6 * abs(med[0]), 'root-value', '%s: %s median %s' % (tag, root, med[0]))
    return g


def builder(m, rng, tier):
    kind = ['scenred', 'scenred', 'quantile', 'quantile', 'diff'][rng.integers(5)]
    sc = scens(rng, T=int(rng.integers(2, 7)) if kind == 'diff' else None, n=int(rng.integers(20, 60)) if kind == 'diff' else None)
    T, n = sc.shape
    if kind == 'scenred' and rng.random() < 0.15:
        n = T + 1                      # as many scenarios as steps plus one: used to be mistaken for an extra step
        sc = sc[:, :n]
    nodes = rand_nodes(rng, T, n, mult=kind == 'quantile')
    if rng.random() < 0.1 and kind != 'quantile':
        nodes[0] = 3
    if rng.random() < 0.15:
        nodes = None if (n >= 32 and T >= 3 and kind != 'quantile') else nodes
    tag = '%s T=%d n=%d nodes=%s' % (kind, T, n, None if nodes is None else list(nodes))
    run(m, rng, kind, sc, nodes, tag, ['init', 'call'][rng.integers(2)])
    if T > 2 and (nodes is None or nodes[-1] > 1):
        m.nontrivial(kind, T, n, None if nodes is None else list(nodes))
    m.say(kind=kind, steps=T, scenarios=n, nodes=nodes)


def gas(m, rng, tier):
    sc = scens(rng, T=int(rng.integers(2, 5)), n=int(rng.integers(20, 40)))
    nodes = rand_nodes(rng, sc.shape[0], 20, mult=True)
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            run(m, rng, 'gas', sc, nodes, 'gas %s' % list(nodes), 'init')
        finally:
            os.chdir(here)
    m.nontrivial('gas', sc.shape, list(nodes))


def ties(m, rng, tier):
    """scenarios with equal values (counts, zero production) still give a probability tree"""
    from pyforecaster.tree_builders import ScenredTree
    T, n = int(rng.integers(2, 6)), int(rng.integers(15, 60))
    sc = rng.integers(0, int(rng.integers(2, 6)), (T, n)).astype(float)
    sc[0] = rng.normal(0, 1, n) if rng.random() < 0.5 else sc[0, 0]
    nodes = rand_nodes(rng, T, n)
    g = ScenredTree(nodes_at_step=nodes).gen_tree(sc)[0]
    m.ev('scenred')
    check_tree(m, g, T, 'ties T=%d n=%d nodes=%s' % (T, n, list(nodes)), scens=sc, exact=True)
    m.nontrivial('ties', T, n, list(nodes))


def several(m, rng, tier):
    """scenarios of several variables are reduced together"""
    from pyforecaster.scenred import scenred
    T, n, v = int(rng.integers(2, 8)), int(rng.integers(15, 60)), int(rng.integers(2, 5))
    sc = np.cumsum(rng.normal(0, 1, (T, n, v)), axis=0) * rng.uniform(0.1, 5, v)
    nodes = rand_nodes(rng, T, n)
    sc0 = sc.copy()
    g = scenred(sc, nodes=nodes, metric=['cityblock', 'euclidean'][rng.integers(2)])[4]
    m.check((sc == sc0).all(), 'scenarios-modified', 'several variables', event='caller_data')
    m.ev('several')
    check_tree(m, g, T, '%d variables T=%d n=%d nodes=%s' % (v, T, n, list(nodes)), nodes=nodes, scens=sc, exact=True)
    m.nontrivial('several', T, n, v, list(nodes))


def long(m, rng, tier):
    """many steps, with nodes growing one at a time or in bursts"""
    from pyforecaster.scenred import scenred
    T, n = int(rng.integers(60, 220)), int(rng.integers(20, 45))
    sc = np.cumsum(rng.normal(0, 1, (T, n)), axis=0) * float(10.0 ** rng.integers(-4, 5))
    top = int(rng.integers(4, n - 4))
    nodes = np.minimum(np.arange(1, T + 1), top) if rng.random() < 0.5 else np.hstack([1, np.sort(rng.integers(1, top + 1, T - 1))]).astype(int)
    g = scenred(sc.copy(), nodes=nodes.copy(), metric=['cityblock', 'euclidean'][rng.integers(2)])[4]
    m.ev('long')
    check_tree(m, g, T, 'long T=%d n=%d top %d' % (T, n, top), nodes=nodes, scens=sc, exact=True)
    m.nontrivial('long', T, n, top)


def uneven(m, rng, tier):
    """numbers of nodes which are no multiples of each other are honoured or refused"""
    from pyforecaster import tree_builders as tb
    T = int(rng.integers(2, 6))
    nodes = np.hstack([1, np.sort(rng.integers(2, 9, T - 1))]).astype(int)
    sc = scens(rng, T=T, n=60)
    kind = ['QuantileTree', 'DiffTree'][rng.integers(2)]
    kw = dict(base_tree='quantiles') if kind == 'DiffTree' else {}
    m.ev('uneven')
    m.nontrivial('uneven', kind, list(nodes))
    try:
        g = getattr(tb, kind)(nodes_at_step=nodes, **kw).gen_tree(sc, k_max=2)[0]
    except (AssertionError, ValueError):
        m.ev('uneven_refused')
        return
    check_tree(m, g, T, '%s nodes=%s' % (kind, list(nodes)), nodes=nodes, scens=sc, in_range=kind == 'QuantileTree')


def forecaster(m, rng, tier):
    T = int(rng.integers(2, 6))
    name = ['linear', 'lgb', 'qrf'][int(rng.integers(3))]
    x, y = M.dataset(rng, n=240, T=T)
    kind = ['ScenredTree', 'QuantileTree', 'DiffTree'][rng.integers(3)]
    add = bool(rng.random() < 0.4)
    pre = bool(rng.random() < 0.5)
    nodes = rand_nodes(rng, T + add, 20, mult=kind == 'QuantileTree')
    if add:
        given = nodes[1:]
    else:
        given = nodes
    kw = M.settings(rng, name, T)
    f = M.fit(name, x, y, 1, nodes_at_step=given, tree_type=kind, additional_node=add, prefit_trees=pre and rng.random() < 0.5,
              online_tree_reduction=not pre, n_scen_fit=40, max_iterations=10, **kw)
    r = int(rng.integers(1, 4))
    xt = x.iloc[np.sort(rng.choice(len(x), r, replace=False))]
    kk = {}
    if add and rng.random() < 0.6:
        kk['init_obs'] = rng.normal(0, 1, r)
    if not pre and rng.random() < 0.5:
        n2 = rand_nodes(rng, T + add, 15, mult=kind == 'QuantileTree')
        kk['nodes_at_step'] = n2[1:] if add else n2
        nodes = n2
    few = kind == 'ScenredTree' and rng.random() < 0.4          # as few scenarios as nodes
    n_scen = max(2, int(np.max(nodes))) if few else 50
    tr = f.predict_trees(xt.copy(), n_scen=n_scen, random_state=2, **kk)
    tr = [tr] if r == 1 and not isinstance(tr, list) else tr
    tag = '%s %s pre=%s add=%s nodes=%s' % (name, kind, pre, add, list(nodes))
    m.check(len(tr) == r, 'trees-per-row', '%s: %d trees for %d rows' % (tag, len(tr), r))
    for g in tr:
        m.ev('forecaster_trees')
        check_tree(m, g, T + add, tag, nodes=nodes)
    m.nontrivial('fc', name, kind, pre, add, list(nodes), r)


WORKLOADS = [W('long', long, 10, 80), W('builder', builder, 110, 1500), W('gas', gas, 4, 30), W('ties', ties, 20, 200), W('several', several, 20, 200), W('uneven', uneven, 20, 200), W('forecaster', forecaster, 24, 240)]
