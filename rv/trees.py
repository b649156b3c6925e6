"""Oracle for scenario trees, written on the graph alone."""
import numpy as np


def warm():
    """compile the reduction kernels"""
    from pyforecaster.scenred import scenred, superimpose_signal_to_tree
    import pandas as pd
    g = scenred(np.random.default_rng(0).normal(0, 1, (3, 8)), nodes=np.array([1, 2, 3]))[4]
    superimpose_signal_to_tree(pd.Series([0.0, 0, 0]), g)


def check_tree(m, g, T, tag, nodes=None, scens=None, exact=False, in_range=True, tol=1e-9):
    """g: networkx DiGraph with t, p, v. scens (T, n[, n_var]) bounds the values; exact: values must be scenario values."""
    if not m.check(hasattr(g, 'nodes') and len(g.nodes) > 0, 'empty-tree', tag):
        return False
    d = dict(g.nodes(data=True))
    if not m.check(all({'t', 'p', 'v'} <= set(a) for a in d.values()), 'missing-attributes', tag):
        return False
    m.ev('trees')
    m.ev('nodes', len(d))
    t = {k: int(a['t']) for k, a in d.items()}
    p = {k: float(a['p']) for k, a in d.items()}
    roots = [k for k in d if g.in_degree(k) == 0]
    m.check(len(roots) == 1 and t[roots[0]] == 0, 'one-root', '%s: roots %s' % (tag, [(r, t[r]) for r in roots[:5]]))
    m.check(abs(p[roots[0]] - 1) < 1e-9, 'root-probability', '%s: %s' % (tag, p[roots[0]]))
    m.check(all(g.in_degree(k) == 1 for k in d if k not in roots), 'one-parent', tag)
    bad = [(a, b) for a, b in g.edges if t[b] != t[a] + 1]
    m.check(not bad, 'edge-times', '%s: %s' % (tag, [(t[a], t[b]) for a, b in bad[:3]]))
    leaves = [k for k in d if g.out_degree(k) == 0]
    m.check(all(t[k] == T - 1 for k in leaves), 'leaves-at-end', '%s: leaf times %s, horizon %d' % (tag, sorted({t[k] for k in leaves}), T))
    m.check(sorted(set(t.values())) == list(range(T)), 'steps', '%s: steps %s' % (tag, sorted(set(t.values()))))
    m.check(all(p[k] > 0 for k in d), 'positive-probability', tag)
    for k in d:
        ch = list(g.successors(k))
        if ch:
            s = sum(p[c] for c in ch)
            m.check(abs(s - p[k]) < 1e-9, 'children-probability', '%s: node at step %d has probability %s, its children %s' % (tag, t[k], p[k], s))
    for s in range(T):
        s_p = sum(p[k] for k in d if t[k] == s)
        m.check(abs(s_p - 1) < 1e-9, 'step-probability', '%s: step %d sums to %s' % (tag, s, s_p))
        cnt = sum(1 for k in d if t[k] == s)
        if nodes is not None:
            want = 1 if s == 0 else int(nodes[s])
            m.check(cnt == want, 'nodes-per-step', '%s: %d nodes at step %d, %d requested' % (tag, cnt, s, want))
        vals = np.array([np.asarray(d[k]['v'], dtype=float).ravel() for k in d if t[k] == s])
        m.check(np.isfinite(vals).all(), 'finite-values', '%s: step %d %s' % (tag, s, vals.ravel()[:4]))
        if scens is not None and in_range:
            sc = np.asarray(scens[s], dtype=float).reshape(np.shape(scens)[1], -1)
            if exact:
                ok = all((np.abs(sc - v).max(axis=1) <= tol).any() for v in vals)
                m.check(ok, 'value-of-scenario', '%s: step %d has values that no scenario takes' % (tag, s))
            else:
                m.check(vals.min() >= sc.min() - tol and vals.max() <= sc.max() + tol, 'values-in-range',
                        '%s: step %d values [%s, %s], scenarios [%s, %s]' % (tag, s, vals.min(), vals.max(), sc.min(), sc.max()))
    return True


def paths(g):
    """root-to-leaf paths as (value matrix (T, n_var), leaf probability)"""
    d = dict(g.nodes(data=True))
    out = []
    for k in d:
        if g.out_degree(k) == 0:
            w = [k]
            while g.in_degree(w[0]):
                w.insert(0, next(iter(g.predecessors(w[0]))))
            out.append((np.array([np.asarray(d[i]['v'], dtype=float).ravel() for i in w]), float(d[k]['p'])))
    return out


def signature(g):
    d = dict(g.nodes(data=True))
    return [(k, int(a['t']), float(a['p']), np.asarray(a['v'], dtype=float).ravel().tolist()) for k, a in sorted(d.items())], sorted(g.edges)
