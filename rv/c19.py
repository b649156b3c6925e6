"""C19 scenario reduction: mass, values, monotone counts and the graph, from the returned arrays alone."""
import numpy as np
from rv.common import W
from rv.trees import check_tree, paths, warm
from rv.c18 import scens, rand_nodes

PROP = 'C19'
RULE = ('one case = random scenarios (one or two signals) x nodes per step or tolerance x metric; every survivor, probability and value is '
        'compared with the original scenarios; non-trivial: at least one scenario merged at two different steps')
REQUIRED = {'step_mass': 400, 'original_values': 400, 'merged_mass': 400, 'graph_paths': 60, 'untouched_last_step': 15, 'group_mass': 60, 'root_group': 8}
QUICK_S = 200


def case(m, rng, tier):
    from pyforecaster.scenred import scenred
    T, n = int(rng.integers(1, 9)), int(rng.integers(5, 90))
    nv = int(rng.integers(1, 3))
    sc = np.dstack([scens(rng, T, n) for _ in range(nv)])
    inp = sc[:, :, 0] if nv == 1 and rng.random() < 0.7 else sc
    metric = ['cityblock', 'euclidean'][rng.integers(2)]
    nodes = rand_nodes(rng, T, n)
    mode = rng.integers(4)
    if mode == 0:
        nodes[-1] = n if T > 1 else 1
    kw = {}
    if mode == 3:
        kw['tol'] = float(rng.choice([0.1, 1, 10]))
        nodes = None
    elif T > 1 and (nodes == 1).all():
        nodes[-1] = 2
    given = None if nodes is None else nodes.copy() if rng.random() < 0.6 else list(map(int, nodes))
    inp0 = inp.copy()
    S, P, J, Me, g = scenred(inp, nodes=given, metric=metric, **kw)
    tag = 'T=%d n=%d signals=%d nodes=%s %s' % (T, n, nv, nodes, metric)
    m.check((inp == inp0).all(), 'input-modified', tag)
    if nodes is not None:
        m.check(list(map(int, given)) == list(map(int, nodes)), 'nodes-modified', tag)
    k = S.shape[1]
    m.check(S.shape == (T, k, nv) and P.shape == (T, k), 'shapes', '%s: %s %s' % (tag, S.shape, P.shape))
    cnt = (P > 0).sum(axis=1)
    merged = 0
    for t in range(T):
        m.check((P[t] >= 0).all() and abs(P[t].sum() - 1) < 1e-9, 'step-mass', '%s: step %d probabilities sum to %s' % (tag, t, P[t].sum()), event='step_mass')
        if nodes is not None:
            m.check(cnt[t] <= nodes[t], 'too-many', '%s: step %d keeps %d' % (tag, t, cnt[t]))
            m.check(cnt[t] == min(nodes[t], n) or mode == 3, 'too-few', '%s: step %d keeps %d of %d requested' % (tag, t, cnt[t], nodes[t]))
        if t:
            m.check(cnt[t - 1] <= cnt[t], 'fewer-later', '%s: %s' % (tag, cnt))
        for s in range(k):
            d = np.abs(sc[t] - S[t, s]).max(axis=1)
            if d.min() != 0:
                m.check(False, 'not-an-original-value', '%s: step %d scenario %d' % (tag, t, s))
                break
        m.ev('original_values')
        if t < T - 1:
            for s in np.flatnonzero(P[t] > 0):
                heirs = [j for j in np.flatnonzero(P[t + 1] > 0) if (S[:t + 1, j] == S[:t + 1, s]).all()]
                m.check(abs(P[t + 1, heirs].sum() - P[t, s]) < 1e-9, 'merged-mass', '%s: step %d scenario %d has probability %s, those that share its past %s' % (
                    tag, t, s, P[t, s], P[t + 1, heirs].sum()), event='merged_mass')
            if cnt[t] < cnt[t + 1]:
                merged += 1
        m.check(np.array_equal(np.asarray(Me[t], dtype=bool), S[t, :, 0][:, None] == S[t, :, 0][None]), 'match-matrix', '%s: step %d' % (tag, t))
    # probabilities are multiples of the original ones
    m.check(np.abs(P * n - np.round(P * n)).max() < 1e-6, 'fractional-mass', tag)
    last = S[-1][P[-1] > 0]
    for s in np.flatnonzero(P[-1] > 0):
        m.check((np.abs(sc[-1] - S[-1, s]).max(axis=1) == 0).any(), 'not-an-original-value', tag)
    if nodes is not None and nodes[-1] >= n and T > 1:
        m.ev('untouched_last_step')
        m.check(np.allclose(P[-1], 1 / n) and np.array_equal(S[-1], sc[-1]), 'last-step-changed', tag)
        m.close((P[-1][:, None] * S[-1]).sum(axis=0), sc[-1].mean(axis=0), 'expectation', tag)
    if k <= 500:
        ok = check_tree(m, g, T, tag, scens=sc, exact=True, tol=0)
        if ok:
            a = sorted((tuple(v.ravel()), round(p, 9)) for v, p in paths(g))
            b = sorted((tuple(S[:, s].ravel()), round(float(P[-1, s]), 9)) for s in np.flatnonzero(P[-1] > 0))
            m.check(a == b, 'graph-paths', '%s: the graph has %d paths, the reduced set %d' % (tag, len(a), len(b)), event='graph_paths')
    if merged > 1:
        m.nontrivial(T, n, nv, None if nodes is None else list(nodes), metric, mode)
    m.say(steps=T, scenarios=n, signals=nv, nodes=nodes, survivors=list(map(int, cnt)))


def groups(m, rng, tier):
    """well separated groups of scenarios: one representative each, with the probability of the group; the root is in the larger of two groups"""
    from pyforecaster.scenred import scenred
    T, k = int(rng.integers(2, 6)), int(rng.integers(2, 5))
    sizes = rng.choice(np.arange(2, 30 if rng.random() < 0.6 else 60), k, replace=False)
    lab = rng.permutation(np.repeat(np.arange(k), sizes))
    n, nv = len(lab), int(rng.integers(1, 3))
    centre = rng.permutation(k)[:, None, None] * 100.0 + rng.normal(0, 3, (k, T, nv))
    sc = np.moveaxis(centre[lab] + rng.normal(0, 0.02, (n, T, nv)), 0, 1)
    nodes = np.array([1] + [k] * (T - 1))
    if T > 2 and rng.random() < 0.5:
        nodes[-1] = int(rng.integers(k, n + 1))
    elif rng.random() < 0.3:
        nodes[1:] = n
    S, P, J, Me, g = scenred(sc[:, :, 0] if nv == 1 and rng.random() < 0.5 else sc, nodes=nodes.copy(), metric=['cityblock', 'euclidean'][rng.integers(2)])
    near = lambda t, v: int(np.argmin(np.abs(centre[:, t, 0] - v[0])))
    for t in range(1, T):
        if nodes[t] == k:
            mass = np.zeros(k)
            for s in np.flatnonzero(P[t] > 0):
                mass[near(t, S[t, s])] += P[t, s]
            m.close(mass, sizes / n, 'group-mass', 'step %d of %d: %d groups of sizes %s keep %s' % (t, T, k, list(map(int, sizes)), mass.round(3)), event='group_mass')
    if k == 2:
        r = near(0, S[0, np.flatnonzero(P[0] > 0)[0]])
        m.check(r == int(np.argmax(sizes)), 'root-group', 'sizes %s: the root is in the smaller group' % list(map(int, sizes)), event='root_group')
    m.nontrivial(T, k, n, nv, list(map(int, nodes)))


WORKLOADS = [W('groups', groups, 60, 700), W('reduction', case, 150, 2500)]
