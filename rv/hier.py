"""Random hierarchies and an independent model of what they mean."""
import numpy as np
import pandas as pd


def hierarchy(rng, naming=None, max_depth=3):
    """random tree-shaped hierarchy {aggregate: [children]} with shuffled declaration order, and its bottom names"""
    naming = naming or ['str', 'int', 'mixed', 'int bottom'][rng.integers(4)]
    cnt = [0]
    h, bottoms = {}, []

    def name(bottom):
        cnt[0] += 1
        k = cnt[0]
        if naming == 'int' or (naming == 'mixed' and rng.random() < 0.5) or (naming == 'int bottom' and bottom):
            return k * 7 % 1009
        return ('b%d' if bottom else 'agg_%d') % (k * 31 % 97 + 100 * k)

    def node(depth):
        me = name(False)
        ch = []
        for _ in range(int(rng.integers(1 if depth else 2, 4))):
            if depth < max_depth - 1 and rng.random() < 0.35:
                ch.append(node(depth + 1))
            else:
                b = name(True)
                bottoms.append(b)
                ch.append(b)
        h[me] = ch
        return me

    root = node(0)
    if naming == 'mixed':
        pass
    keys = list(h)
    order = rng.permutation(len(keys)) if rng.random() < 0.7 else range(len(keys))
    return {keys[i]: h[keys[i]] for i in order}, bottoms, root, naming


def below(h, k):
    out = []
    for c in h[k]:
        out += below(h, c) if c in h else [c]
    return list(dict.fromkeys(out))      # once, also when several children share a signal


def grouped(rng):
    """the same bottom signals aggregated in several ways below one total (by region, by type)"""
    ways = int(rng.integers(2, 4))
    nb = int(rng.integers(4, 9))
    bottoms = ['b%d' % i for i in range(nb)]
    h, tops = {}, []
    for w in range(ways):
        k = int(rng.integers(2, 4))
        lab = np.r_[np.arange(k), rng.integers(0, k, nb - k)]
        rng.shuffle(lab)
        for g in range(k):
            h['way %d group %d' % (w, g)] = [b for b, l in zip(bottoms, lab) if l == g]
            tops.append('way %d group %d' % (w, g))
    h['total'] = tops
    if rng.random() < 0.4:               # and some of them directly below the total
        h['total'] = tops + [str(b) for b in rng.choice(bottoms, 2, replace=False)]
    keys = list(h)
    return {keys[i]: h[keys[i]] for i in rng.permutation(len(keys))}, bottoms, 'total', 'grouped'


def depth_of(h, root):
    out, todo = {}, [(root, 0)]
    while todo:
        k, d = todo.pop()
        out[k] = d
        todo += [(c, d + 1) for c in h.get(k, [])]
    return out


def stacked(rng, h, bottoms, n, T, idx, noise=1.0):
    """features and targets of all the series in the stacked (global) form, series blocks in random order; returns x, y, tables"""
    series = {}
    t = np.arange(n + T + 3)
    for i, b in enumerate(bottoms):
        series[b] = np.sin(2 * np.pi * t / (11 + 3 * i)) * (1 + i) + noise * rng.normal(0, 1, len(t)) + rng.normal(0, 3)
    for k in h:
        series[k] = np.sum([series[b] for b in below(h, k)], axis=0)
    names = list(series)
    names = [names[i] for i in rng.permutation(len(names))]
    xs, ys = [], []
    for k in names:
        s = series[k]
        x = pd.DataFrame({'l%d' % j: s[2 - j:2 - j + n] for j in range(3)}, index=idx)
        y = pd.DataFrame({'t_%d' % j: s[3 + j:3 + j + n] for j in range(T)}, index=idx)
        x['name'] = [k] * n
        xs.append(x)
        ys.append(y)
    x, y = pd.concat(xs), pd.concat(ys)
    return x, y, series, names
