"""C23 scores against their definitions."""
import functools
import numpy as np
import pandas as pd
from rv.common import W
from rv import scores as S
from rv import models as M

PROP = 'C23'
RULE = ('one case = forecast and observation tables (rows, steps, ties, constant columns, unsorted time), quantile table or array in either layout; '
        'every value of every score is recomputed from its definition; non-trivial: at least two steps or levels and non-zero errors')
REQUIRED = {'rmse': 200, 'mape': 200, 'nmae': 200, 'quantile_score': 200, 'reliability': 200, 'crps': 200, 'perfect': 100, 'reordered': 100, 'unmodified': 300,
            'scorer': 30}
QUICK_S = 200


def case(m, rng, tier):
    from pyforecaster import metrics as me
    x, t = S.tables(rng)
    q, qdf, al = S.qtable(rng, t)
    n, T = t.shape
    x0, t0, q0 = x.copy(), t.copy(), qdf.copy()
    inter = bool(rng.random() < 0.5)
    X, Y = x.values, t.values
    tag = 'n=%d T=%d Q=%d' % (n, T, len(al))

    def get(f, *a, **k):
        r = f(*a, **k)
        m.check(x.equals(x0) and t.equals(t0) and qdf.equals(q0) and list(x.columns) == list(x0.columns), 'data-modified', '%s %s' % (f, tag), event='unmodified')
        return r

    for nm, f, ref in (('rmse', me.rmse, S.rmse(X, Y)), ('mape', me.mape, S.mape(X, Y)), ('nmae', functools.partial(me.nmae, inter_normalization=inter), S.nmae(X, Y, inter))):
        r = get(f, x, t)
        m.check(list(r.columns) == list(t.columns) and len(r) == 1, 'labels', '%s %s: %s' % (nm, tag, list(r.columns)))
        m.close(r.values[0], ref, nm, tag, rtol=1e-9, atol=1e-9)
        m.check((r.values >= 0).all(), 'negative', nm)
        m.check(np.abs(get(f, t, t).values).max() < 1e-12, 'perfect', '%s: perfect forecasts do not score zero' % nm)
        p = rng.permutation(n)
        m.close(f(x.iloc[p], t.iloc[p]).values, r.values, 'reordered', nm, rtol=1e-9)
        # same data, rows of the forecasts given in another order: labels decide
        m.close(get(me.summary_score, x, t, score=f).values, r.values, 'summary-score', nm)
        x2 = x.copy()
        x2.columns = ['p%d' % i for i in range(T)]
        c2 = list(x2.columns)
        s2 = me.summary_score(x2, t, score=f)
        m.close(s2.values, r.values, 'summary-score', '%s: other column names' % nm)
        m.check(list(x2.columns) == c2, 'data-modified', '%s: summary_score renamed the columns of the forecasts' % nm, event='unmodified')
        m.close(me.summary_score(X.copy(), t, score=f).values, r.values, 'summary-score', '%s: array' % nm)
    form = ['table', 'array', 'swapped'][rng.integers(3)]
    qq = qdf if form == 'table' else (q.copy() if form == 'array' else np.swapaxes(q, 1, 2).copy())
    if form == 'swapped' and len(al) == T:
        qq, form = q.copy(), 'array'
    a = al
    if rng.random() < 0.15:
        a = None
    lv = np.linspace(0, 1, len(al)) if a is None else al
    qs, rel = get(me.quantile_scores, qq, t, alphas=a)
    rel2 = get(me.reliability, qq, t, alphas=a)
    rel3 = get(me.reliability, qq, t, alphas=a, get_score=True)
    cr = get(me.crps, qq, t, alphas=a)
    cr2 = get(me.crps, qq, t, alphas=a, collapse_quantile_axis=False)
    tag += ' ' + form
    for tab, nm in ((qs, 'quantile_scores'), (rel, 'reliability'), (cr2, 'crps')):
        m.check(list(tab.columns) == [(b, c) for b in lv for c in t.columns], 'quantile-labels', '%s %s: %s' % (nm, tag, list(tab.columns)[:5]))
    for j, b in enumerate(lv):
        ref = S.pinball(q[:, :, j], Y, b).mean(axis=0)
        cov = (q[:, :, j] > Y).mean(axis=0)
        m.close(qs[b].values[0], ref, 'quantile-score', '%s level %s' % (tag, b), event='quantile_score')
        m.close(cr2[b].values[0], ref, 'quantile-score', '%s level %s' % (tag, b), event='quantile_score')
        m.check((qs[b].values >= -1e-12).all(), 'negative', 'quantile score')
        m.close(rel[b].values[0], cov, 'reliability', '%s level %s' % (tag, b))
        m.close(rel2[b].values[0], cov, 'reliability', '%s level %s' % (tag, b))
        m.close(rel3[b].values[0], cov - b, 'reliability-score', '%s level %s' % (tag, b))
    ref = np.mean([S.pinball(q[:, :, j], Y, b).mean(axis=0) for j, b in enumerate(lv)], axis=0)
    m.check(set(cr.columns) == set(t.columns), 'quantile-labels', 'crps %s: %s' % (tag, list(cr.columns)))
    m.close(cr[list(t.columns)].values[0], ref, 'crps', tag)
    perfect = np.repeat(Y[:, :, None], len(al), 2)
    m.check(np.abs(me.crps(perfect, t, alphas=al).values).max() < 1e-12, 'perfect', 'crps')
    if form != 'swapped' and form == 'table':
        p = rng.permutation(n)
        m.close(me.crps(qdf.iloc[p], t.iloc[p], alphas=a)[list(cr.columns)].values, cr.values, 'reordered', 'crps')
    # an over-forecast and an under-forecast of the same size are weighted by the level
    if np.abs(X - Y).max() > 0 and (T > 1 or len(al) > 1):
        m.nontrivial(n, T, len(al), form, inter)
    m.say(rows=n, steps=T, levels=list(al), form=form)


class Fake:
    def __init__(self, y_hat, q, al, mode):
        self.y_hat, self.q, self.q_vect, self.mode = y_hat, q, al, mode

    def predict(self, X):
        r = self.y_hat.loc[X.index]
        return r.values if self.mode == 'array' else r.copy()

    def predict_quantiles(self, X):
        r = self.q.loc[X.index]
        return r


def scorer(m, rng, tier):
    from pyforecaster import metrics as me
    y_hat, y = S.tables(rng, tz=None)
    n, T = y.shape
    _, qdf, al = S.qtable(rng, y)
    e = Fake(y_hat.set_axis(['o%d' % i for i in range(T)], axis=1) if rng.random() < 0.5 else y_hat, qdf, al, ['array', 'frame'][rng.integers(2)])
    x = pd.DataFrame(rng.normal(0, 1, (n, 2)), index=y.index)
    rows = np.sort(rng.choice(n, int(rng.integers(max(2, T + 1), n + 1)), replace=False)) if n > T + 3 else np.arange(n)
    xs, ys, H = x.iloc[rows], y.iloc[rows], y_hat.values[rows]
    if len(rows) == T:
        return
    q = qdf.values.reshape(n, T, len(al))[rows]
    Y = ys.values
    y0 = ys.copy()
    ref = {'rmse': np.sqrt(((H - Y) ** 2).mean(axis=1)).mean(), 'mape': (np.abs(H - Y) / (np.abs(Y) + 1e-5)).mean(), 'nmae': S.nmae_rows(H, Y).mean(),
           'crps': np.mean([S.pinball(q[:, :, j], Y, a).mean() for j, a in enumerate(al)]),
           'reliability': np.mean([(q[:, :, j] > Y).mean() for j, a in enumerate(al)])}
    for f in (me.rmse, me.mape, me.nmae, me.crps, me.reliability):
        k = f.__name__
        g = functools.partial(f) if rng.random() < 0.3 else f
        if k in ('crps', 'reliability') and xs.index.duplicated().any():
            continue
        s = me.make_scorer(g)(e, xs, ys)
        m.close(float(s), ref[k], 'scorer:%s' % k, 'n=%d T=%d' % (len(rows), T), rtol=1e-8, atol=1e-10, event='scorer')
    m.check(ys.equals(y0), 'data-modified', 'scorer', event='unmodified')
    # a forecaster of this library
    x2, y2 = M.dataset(rng, n=200)
    f = M.fit('linear', x2, y2, q_vect=al)
    h = f.predict(x2.copy()).values
    m.close(float(me.make_scorer(me.rmse)(f, x2, y2)), np.sqrt(((h - y2.values) ** 2).mean(axis=1)).mean(), 'scorer:model', '', event='scorer')
    qq = f.predict_quantiles(x2.copy(), dataframe=False)
    m.close(float(me.make_scorer(me.crps)(f, x2, y2)), np.mean([S.pinball(qq[:, :, j], y2.values, a).mean() for j, a in enumerate(al)]), 'scorer:model', 'crps', event='scorer')
    m.nontrivial('scorer', n, T, len(rows), len(al))


WORKLOADS = [W('scores', case, 260, 2600), W('scorer', scorer, 40, 400)]
