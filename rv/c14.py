"""C14 categorical features: the codes that reach the underlying regressor are recorded and checked for consistency."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import models as M

PROP = 'C14'
RULE = ('one case = forecaster with one or two categorical columns (text, mixed or category type, any order of categories) x prediction '
        'tables with subsets and permutations of the categories; the monitor reads the codes at the boundary with the wrapped regressor; '
        'non-trivial: at least three categories, prediction subset smaller than the training set of categories')
REQUIRED = {'codes_seen': 2000, 'mapping_checked': 60, 'equal_to_coded_model': 40, 'unseen_rejected': 40, 'data_untouched': 80, 'subset_calls': 60}
QUICK_S = 200


class Boundary:
    """records the tables given to the wrapped regressors"""

    def __enter__(self):
        import sklearn.linear_model as lm
        from quantile_forest import RandomForestQuantileRegressor as R
        self.rec, self.saved = [], []
        for c in (lm.LinearRegression, lm.RidgeCV, R):
            for meth in ('fit', 'predict'):
                o = getattr(c, meth)
                self.saved.append((c, meth, o, meth in vars(c)))

                def wrap(s, X, *a, _o=o, _m=meth, **k):
                    self.rec.append((_m, X.copy() if isinstance(X, pd.DataFrame) else np.array(X)))
                    return _o(s, X, *a, **k)
                setattr(c, meth, wrap)
        return self

    def __exit__(self, *a):
        for c, meth, o, own in self.saved:
            if own:
                setattr(c, meth, o)
            else:
                delattr(c, meth)


def cats(rng, n):
    k = int(rng.integers(2, 7))
    pool = [['b', 'a', 'z', 'Z', 'é', '', 'aa'], ['10', '9', '1', '-1', '2', '02', '3'], ['on', 'off', 'x y', 'NaN', 'None', '0', 'high']][rng.integers(3)]
    names = [pool[i] for i in rng.permutation(len(pool))[:k]]
    v = rng.choice(names, n)
    v[:k] = names
    return names, v


def make_x(rng, vals, idx, kind, num, names):
    x = pd.DataFrame(num, index=idx, columns=['f%d' % i for i in range(num.shape[1])])
    for j, (c, v) in enumerate(vals.items()):
        s = pd.Series(v, index=idx, dtype=object)
        if kind[c] == 'category':
            s = s.astype(pd.CategoricalDtype([names[c][i] for i in rng.permutation(len(names[c]))], ordered=bool(rng.random() < 0.5)))
        x.insert(int(j if rng.random() < 2 else 0), c, s)
    return x


def case(m, rng, tier):
    name = ['linear', 'qrf'][int(rng.integers(2))]
    n = int(rng.integers(120, 250))
    idx = pd.date_range('2021-03-01', periods=n, freq='h', tz=[None, 'UTC'][rng.integers(2)])
    cc = ['c1', 'c2'][: int(rng.integers(1, 3))]
    names, vals, kind, eff = {}, {}, {}, {}
    for c in cc:
        names[c], vals[c] = cats(rng, n)
        kind[c] = ['object', 'category'][rng.integers(2)]
        eff[c] = dict(zip(names[c], rng.normal(0, 3, len(names[c]))))
    num = rng.normal(0, 1, (n, int(rng.integers(1, 3))))
    x = make_x(rng, vals, idx, kind, num, names)
    T = int(rng.integers(1, 3))
    y = pd.DataFrame(num[:, [0]] * rng.normal(0, 1, T) + sum(np.array([eff[c][v] for v in vals[c]]) for c in cc)[:, None] + 0.1 * rng.normal(0, 1, (n, T)),
                     index=idx, columns=['t%d' % i for i in range(T)])
    kw = M.settings(rng, name, T)
    kw['val_ratio'] = [None, 0.3][rng.integers(2)]
    x0, y0 = x.copy(deep=True), y.copy(deep=True)
    tag = '%s %s categories %s' % (name, kind, names)
    f = M.make(name, **kw)
    maps = {c: {} for c in cc}

    def read(rec, src, phase):
        """codes of every recorded table whose rows can be matched with the source rows (by length and order)"""
        for meth, X in rec:
            X = X if isinstance(X, pd.DataFrame) else pd.DataFrame(X, columns=src.columns)
            rows = src.loc[X.index] if X.index.isin(src.index).all() else src.iloc[:len(X)]
            for c in cc:
                if c not in X.columns:
                    continue
                code = X[c].values
                m.check(pd.api.types.is_numeric_dtype(X[c]), 'not-coded', '%s: column %s reached the regressor as %s' % (tag, c, X[c].dtype))
                for v, z in zip(rows[c].astype(str).values, code):
                    maps[c].setdefault(v, set()).add(float(z))
                m.ev('codes_seen', len(code))
            nums = [k for k in src.columns if k not in cc and k in X.columns]
            m.close(X[nums].values, rows[nums].values, 'numeric-altered', '%s: numeric columns changed' % tag)
    with Boundary() as b:
        f.fit(x, y)
        read(b.rec, x0, 'fit')
    m.check(x.equals(x0) and (x.dtypes == x0.dtypes).all() and y.equals(y0), 'data-altered', '%s: fit changed the data' % tag, event='data_untouched')
    full = f.predict(x.copy())
    small = False
    for _ in range(3):
        sub = {c: [str(v) for v in rng.choice(names[c], int(rng.integers(1, len(names[c]) + 1)), replace=False)] for c in cc}
        keep = np.ones(n, dtype=bool)
        for c in cc:
            keep &= np.isin(vals[c], sub[c])
        r = rng.permutation(np.flatnonzero(keep))[: int(rng.integers(1, 40))]
        if len(r) == 0:
            continue
        small |= any(len(sub[c]) < len(names[c]) for c in cc)
        xt = make_x(rng, {c: vals[c][r] for c in cc}, idx[r], {c: ['object', 'category'][rng.integers(2)] for c in cc}, num[r], names)
        xk = xt.copy(deep=True)
        with Boundary() as b:
            p = f.predict(xt)
            q = f.predict_quantiles(xt)
            read(b.rec, xk, 'predict')
        m.ev('subset_calls')
        m.check(xt.equals(xk) and (xt.dtypes == xk.dtypes).all(), 'data-altered', '%s: prediction changed the data' % tag, event='data_untouched')
        m.frame_same(p, full.iloc[r], 'subset-forecast', '%s: forecasts change with the subset of categories' % tag)
    for c in cc:
        d = {v: z for v, z in maps[c].items() if len(z) != 1}
        m.check(not d, 'inconsistent-codes', '%s: column %s codes %s' % (tag, c, d), event='mapping_checked')
        codes = [min(z) for z in maps[c].values()]
        m.check(len(set(codes)) == len(codes), 'codes-collide', '%s: column %s %s' % (tag, c, maps[c]), event='mapping_checked')
    if all(len(z) == 1 for c in cc for z in maps[c].values()):
        def code(t):
            t = t.copy()
            for c in cc:
                t[c] = np.array([min(maps[c][str(v)]) for v in t[c].astype(str)])
            return t
        g = M.make(name, **kw)
        g.fit(code(x0), y0)
        m.frame_same(full, g.predict(code(x0)), 'coded-model', '%s: differs from a model given the codes' % tag, event='equal_to_coded_model')
        m.frame_same(f.predict_quantiles(x0.copy()), g.predict_quantiles(code(x0)), 'coded-model', '%s: quantiles differ from a model given the codes' % tag, event='equal_to_coded_model')
    # unseen category
    c = cc[int(rng.integers(len(cc)))]
    bad = x0.iloc[:4].copy()
    bad[c] = pd.Series([names[c][0], 'UNSEEN', names[c][0], names[c][0]], index=bad.index, dtype=object)
    m.raises(lambda: f.predict(bad), Exception, 'unseen-coded', '%s: a category not seen in training is accepted in predict' % tag, event='unseen_rejected')
    for miss in (None, np.nan):
        if str(miss) not in names[c]:
            bad = x0.iloc[:4].copy()
            bad[c] = pd.Series([names[c][0], miss, names[c][0], names[c][0]], index=bad.index, dtype=object)
            m.raises(lambda: f.predict(bad), Exception, 'missing-coded', '%s: a missing category (none in training) is given the code of another one' % tag,
                     event='missing_rejected')
    m.raises(lambda: f.predict_quantiles(bad), Exception, 'unseen-coded', '%s: a category not seen in training is accepted in predict_quantiles' % tag, event='unseen_rejected')
    m.frame_same(f.predict(x0.copy()), full, 'repeat', '%s: prediction changed after a rejected call' % tag)
    if max(len(v) for v in names.values()) > 2 and small:
        m.nontrivial(name, sorted(map(str, names.items())), sorted(kind.items()), n)
    m.say(model=name, categories=names)


def refit(m, rng, tier):
    """refitting on other categories: new ones are accepted, old ones are forgotten"""
    name = ['linear', 'qrf'][int(rng.integers(2))]
    n = 120
    idx = pd.date_range('2021-03-01', periods=n, freq='h')
    kw = M.settings(rng, name, 1)

    def d(pool):
        v = rng.choice(pool, n)
        v[: len(pool)] = pool
        x = pd.DataFrame({'c': pd.Series(v, index=idx, dtype=object), 'f': rng.normal(0, 1, n)}, index=idx)
        return x, pd.DataFrame({'t': np.array([pool.index(i) for i in v]) * 2.0 + rng.normal(0, .1, n)}, index=idx)
    x1, y1 = d(['k', 'l', 'm'])
    x2, y2 = d(['a', 'l', 'z', 'm2'])
    f = M.make(name, **kw)
    f.fit(x1, y1)
    f.fit(x2.copy(), y2)
    g = M.make(name, **kw)
    g.fit(x2.copy(), y2)
    m.frame_same(f.predict(x2.copy()), g.predict(x2.copy()), 'refit', '%s: refit on other categories' % name)
    m.raises(lambda: f.predict(x1.iloc[:5].copy()), Exception, 'unseen-coded', '%s: categories of an earlier fit are accepted' % name, event='unseen_rejected')
    m.nontrivial('refit', name, sorted(kw.items()))


WORKLOADS = [W('codes', case, 60, 800), W('refit', refit, 10, 80)]
