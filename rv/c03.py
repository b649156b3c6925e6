"""C03 row alignment, completeness, pass-through, no mutation, repeatability of formatting."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D
from rv.c01 import build

PROP = 'C03'
RULE = ('one case = random dataset (regular, with missing values, or with dropped rows) x random feature and target '
        'transforms, formatted with and without targets and again after other data; expected rows come from a brute-force '
        'reference; non-trivial: some rows are dropped and some kept')
REQUIRED = {'row_sets': 150, 'passthrough': 150, 'no_target_agrees': 150, 'repeat_agrees': 100, 'nan_rows_cases': 20, 'latest_row_kept': 100, 'untouched_inputs': 70, 'normalized_rows': 150, 'targets_only': 10}
QUICK_S = 120


def align(m, rng, tier):
    n = int(rng.integers(60, 120))
    idx = D.index(rng, n)
    dt = idx[1] - idx[0]
    x = D.signals(rng, idx, names=('y', 'a', 'b', 'extra'))
    flat = rng.random()
    if flat < 0.12:                     # every row alike
        x = x.iloc[[0] * n].set_axis(idx)
    elif flat < 0.3:                    # few levels: many equal rows
        x = (x / 4).round()
    nan = rng.random() < 0.35
    if nan:
        for _ in range(int(rng.integers(1, 5))):
            x.iloc[int(rng.integers(n)), int(rng.integers(3))] = np.nan
    augment = bool(rng.random() < 0.75)
    # custom callables see windows with NaN in a way of their own: keep to the standard statistics here
    funs = ['mean', 'min', 'max', 'sum', 'median']
    specs = D.rand_transforms(rng, ['y', 'a', 'b'], int(rng.integers(1, 4)), 0, 8, funs=funs, dt=dt, nonnested_ok=not nan)
    tspecs = D.rand_transforms(rng, ['y', 'a'], int(rng.integers(1, 3)), -8, -1, funs=funs, dt=dt, bins_ok=False)
    tspecs = [t for t in tspecs if t['lags'] is not None]
    if not tspecs:
        tspecs = [dict(names=['y'], functions=None, agg_freq=None, lags=[-1, -2], relative_lags=False, agg_bins=None)]
    def make():
        f = build(specs, tspecs, None)
        f.augment = augment
        return f

    def complete(sp):
        ok = np.ones(n, bool)
        for s in sp:
            for _, name, fun, a, b, _ in D.expected_columns(s, dt):
                ok &= np.isfinite(D.window_series(x[name].values, fun, a, b))
        return ok
    fe, te = complete(specs), complete(tspecs)
    if (fe & te).sum() < 3:
        return
    tf = bool(rng.random() < 0.5)
    f = make()
    before = x.copy()
    xo, to = f.transform(x, time_features=tf)
    m.check(before.equals(x) and list(before.columns) == list(x.columns), 'input-mutated', 'transform changed its input')
    m.check(xo.index.equals(to.index), 'alignment', lambda: 'features %d rows, targets %d rows' % (len(xo), len(to)))
    exp = x.index[fe & te]
    m.check(xo.index.equals(exp), 'row-set', lambda: 'kept %d rows, %d complete rows; missing %s extra %s; cfg %s -> %s' % (
        len(xo), len(exp), list(exp.difference(xo.index)[:3]), list(xo.index.difference(exp)[:3]), specs, tspecs), event='row_sets')
    gen = [c for c in xo.columns if c not in x.columns]
    m.check(not xo[gen].isna().any().any() and not to.isna().any().any(), 'nan-kept', 'missing values in generated columns')
    if augment:
        m.check(all(c in xo.columns for c in x.columns), 'original-dropped', 'original columns lost: %s' % list(xo.columns))
        keep = [c for c in x.columns if c in xo.columns]
        m.frame_same(xo[keep], x.loc[xo.index, keep], 'pass-through', 'original columns changed', event='passthrough')
    else:
        m.check(not any(c in xo.columns for c in x.columns), 'augment-false', 'original columns kept', event='passthrough')
    nt = sum(len(D.expected_columns(s, dt)) for s in tspecs)
    m.check(to.shape[1] == nt, 'target-columns', lambda: '%d target columns, declared %d' % (to.shape[1], nt))
    # prediction mode
    f2 = make()
    xp, _ = f2.transform(x, time_features=tf, return_target=False)
    expp = x.index[fe]
    m.check(xp.index.equals(expp), 'row-set-prediction', lambda: 'kept %d rows of %d complete ones' % (len(xp), len(expp)))
    common = xo.index.intersection(xp.index)
    m.check(len(common) == len(xo), 'prediction-loses-rows', 'rows with targets missing in prediction mode')
    m.frame_same(xp.loc[common, :], xo.loc[common, :] if set(xp.columns) == set(xo.columns) else xo, 'prediction-differs',
                 'features with and without targets differ', event='no_target_agrees')
    if fe[-1]:
        m.check(x.index[-1] in xp.index, 'latest-row-lost', 'the newest complete row is not delivered', event='latest_row_kept')
    # history: other data in between, then the same data
    other = D.signals(rng, D.index(rng, n + 5, step=dt, tz=idx.tz), names=('y', 'a', 'b', 'extra'))
    if rng.random() < 0.7:
        f.transform(other, time_features=tf, return_target=bool(rng.random() < 0.5))
    xr, tr = f.transform(x, time_features=tf)
    m.frame_same(xr, xo, 'repeat-differs', 'second transform of the same data', event='repeat_agrees', atol=1e-12)
    m.frame_same(tr, to, 'repeat-differs', 'second transform of the same data (targets)', atol=1e-12)
    m.ev('nan_rows_cases', nan)
    if 0 < (fe & te).sum() < n:
        m.nontrivial([D.key(s) for s in specs + tspecs], nan, augment, n)
    m.say(specs=specs, targets=tspecs, rows_in=n, rows_out=len(xo), nan=nan)


def gaps(m, rng, tier):
    """dropped rows: lags are in rows, so the reference is row based; only lag features are declared"""
    n = int(rng.integers(60, 100))
    idx = D.index(rng, n)
    keep = np.sort(rng.choice(n, size=n - int(rng.integers(1, 10)), replace=False))
    x = D.signals(rng, idx, names=('y', 'a')).iloc[keep]
    lags, tl = D.rand_lags(rng, 0, 8), [-l for l in D.rand_lags(rng, 1, 6)]
    specs = [dict(names=['y', 'a'], functions=None, agg_freq=None, lags=lags, relative_lags=False, agg_bins=None)]
    ts = [dict(names=['y'], functions=None, agg_freq=None, lags=tl, relative_lags=False, agg_bins=None)]
    xo, to = build(specs, ts, None).transform(x.copy(), time_features=False)
    k = len(x)
    exp = x.index[max(lags):k + min(tl)]
    m.check(xo.index.equals(exp) and to.index.equals(exp), 'row-set-gaps', lambda: '%d rows, expected %d' % (len(xo), len(exp)), event='row_sets')
    m.nontrivial('gaps', lags, tl, len(x))


def untouched(m, rng, tier):
    """the caller's frame is left alone whatever its form: shuffled rows, views, integer columns, extra object columns"""
    n = int(rng.integers(50, 90))
    idx = D.index(rng, n)
    x = D.signals(rng, idx, names=('y', 'a', 'extra'))
    form = ['shuffled', 'view', 'int', 'object', 'fortran', 'reversed'][int(rng.integers(6))]
    if form == 'shuffled':
        x = x.iloc[rng.permutation(n)]
    elif form == 'reversed':
        x = x.iloc[::-1]
    elif form == 'view':
        x = x.iloc[2:-2]
    elif form == 'int':
        x['extra'] = np.arange(len(x))
    elif form == 'object':
        x['extra'] = ['s%d' % i for i in range(len(x))]
    elif form == 'fortran':
        x = pd.DataFrame(np.asfortranarray(x.values), index=x.index, columns=x.columns)
    f = build([dict(names=['y', 'a'], functions=['mean'], agg_freq=None, lags=[0, 1, 2], relative_lags=False, agg_bins=None)] if rng.random() < 0.3 else
              [dict(names=['y', 'a'], functions=None, agg_freq=None, lags=[0, 1, 2], relative_lags=False, agg_bins=None)],
              [dict(names=['y'], functions=None, agg_freq=None, lags=[-1, -2], relative_lags=False, agg_bins=None)], None)
    if rng.random() < 0.3:               # targets only
        f.transformers = []
        m.ev('targets_only')
    if rng.random() < 0.5:
        f.add_target_normalizer(['y'], ['mean', 'max'][rng.integers(2)], agg_freq='%dmin' % (int(rng.integers(1, 5)) * int((idx[1] - idx[0]).total_seconds() // 60)), lags=[int(rng.integers(1, 3))], name='nrm')
        f.add_normalizing_fun("df[t] - df['nrm']", "df[t] + df['nrm']")
        m.ev('normalizer')
    before, order = x.copy(deep=True), list(x.index)
    freq, names = x.index.freq, list(x.columns)
    try:
        f.transform(x, time_features=bool(rng.random() < 0.5), return_target=bool(rng.random() < 0.7))
    except Exception as e:
        m.ev('refused_' + type(e).__name__)
    m.check(list(x.index) == order and list(x.columns) == names and x.index.freq == freq and x.equals(before), 'input-mutated',
            lambda: 'transform changed the %s frame it was given' % form, event='untouched_inputs')
    m.nontrivial('untouched', form, n)



def normalized(m, rng, tier):
    """rows without the history of the normalizers are dropped like those without the history of the features, targets asked or not"""
    n = int(rng.integers(50, 120))
    idx = D.index(rng, n)
    x = D.signals(rng, idx, names=('y', 'a'))
    dt = idx[1] - idx[0]
    k, lag, L, H = int(rng.integers(2, 12)), int(rng.integers(1, 4)), int(rng.integers(0, 6)), int(rng.integers(1, 5))
    f = build([dict(names=['y', 'a'], functions=None, agg_freq=None, lags=list(range(L + 1)), relative_lags=False, agg_bins=None)],
              [dict(names=['y'], functions=None, agg_freq=None, lags=[-i for i in range(1, H + 1)], relative_lags=False, agg_bins=None)], None)
    f.augment = bool(rng.random() < 0.5)
    f.add_target_normalizer(['y'], ['mean', 'max', 'min'][rng.integers(3)], agg_freq='%ds' % int(k * dt.total_seconds()), lags=[lag], name='nrm')
    f.add_normalizing_fun("df[t] - df['nrm']", "df[t] + df['nrm']")
    tf = bool(rng.random() < 0.5)
    first = max(L, k - 1 + lag)
    tag = 'window %d lag %d, features to lag %d, %d steps ahead' % (k, lag, L, H)
    xa, ya = f.transform(x.copy(), time_features=tf)
    xb, _ = f.transform(x.copy(), time_features=tf, return_target=False)
    m.check(list(xb.index) == list(idx[first:]), 'normalizer-rows', '%s: prediction rows start at %s, expected %s' % (tag, xb.index[:1], idx[first:first + 1]), event='normalized_rows')
    m.check(list(xa.index) == list(idx[first:n - H]) and list(ya.index) == list(xa.index), 'normalizer-rows', '%s: training rows %s..%s' % (tag, xa.index[:1], xa.index[-1:]), event='normalized_rows')
    m.check(not xb.isna().any().any() and not xa.isna().any().any() and not ya.isna().any().any(), 'normalizer-missing', '%s: missing values left' % tag, event='normalized_rows')
    m.frame_same(xb.loc[xa.index], xa, 'normalizer-features', tag, event='normalized_rows')
    m.nontrivial('normalized', k, lag, L, H, n)


WORKLOADS = [W('untouched', untouched, 90, 500), W('normalized', normalized, 40, 400), W('align', align, 250, 3000), W('gaps', gaps, 40, 400)]
