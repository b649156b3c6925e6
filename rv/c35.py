"""C35 memory reduction and chunked execution: cell-by-cell comparison with the input and with one-shot application."""
import os
import numpy as np
import pandas as pd
from rv.common import W, CaseTimeout
from rv import data as D

PROP = 'C35'
RULE = ('one case = random table mixing integer widths around every type limit, floats around the single-precision limits, '
        'missing values, infinities, booleans, text and dates; or a random chunking of a random table; non-trivial: some column '
        'changed type / more than one chunk; distinct by column kinds and sizes')
REQUIRED = {'cells': 20000, 'columns_narrowed': 150, 'limit_columns': 60, 'chunks': 300, 'chunked_functions': 20, 'splits': 100}
QUICK_S = 200
LIM = [np.iinfo(t) for t in (np.int8, np.int16, np.int32, np.int64)]


def column(rng, n, m):
    k = rng.integers(12)
    if k == 0:
        l = LIM[rng.integers(4)]
        base = rng.integers(-100, 100, n).astype(np.int64)
        lo, hi = [(l.min, l.max), (l.min + 1, l.max - 1), (0, l.max), (l.min, 0), (l.min + 1, 5), (-3, l.max - 1)][rng.integers(6)]
        base[rng.integers(n)] = lo
        base[rng.integers(n)] = hi
        m.ev('limit_columns')
        return 'intlim', pd.Series(base)
    if k == 1:
        l = LIM[rng.integers(3)]
        off = int(rng.integers(0, 3))
        v = rng.integers(0, 50, n).astype(np.int64)
        v[rng.integers(n)] = l.max + off if rng.random() < 0.5 else l.min - off
        m.ev('limit_columns')
        return 'intover', pd.Series(v)
    if k == 2:
        t = [np.uint8, np.uint16, np.uint32, np.uint64][rng.integers(4)]
        v = rng.integers(0, 200, n).astype(t)
        v[0] = np.iinfo(t).max
        return 'uint', pd.Series(v)
    if k == 3:
        t = [np.int8, np.int16, np.int32][rng.integers(3)]
        return 'small', pd.Series(rng.integers(-100, 100, n).astype(t))
    if k == 4:
        return 'float', pd.Series(rng.normal(0, 10.0 ** rng.integers(-10, 10), n))
    if k == 5:
        v = rng.normal(0, 1, n)
        v[rng.random(n) < 0.3] = np.nan
        return 'nan', pd.Series(v)
    if k == 6:
        f = float(np.finfo(np.float32).max)
        v = rng.normal(0, 1, n)
        v[rng.integers(n)] = [f, f * 1.0000001, -f, -f * 2, 1e300, np.nextafter(f, 0)][rng.integers(6)]
        m.ev('limit_columns')
        return 'flim', pd.Series(v)
    if k == 7:
        v = rng.normal(0, 1, n)
        if rng.random() < 0.5:
            v[rng.integers(n)] = [1e300, -1e300, 3.5e38, 1e39][rng.integers(4)]     # beyond single precision next to an infinity / a gap
        v[rng.integers(n)] = [np.inf, -np.inf, np.nan][rng.integers(3)]
        return 'inf', pd.Series(v)
    if k == 8:
        return 'bool', pd.Series(rng.random(n) < 0.5)
    if k == 9:
        return 'text', pd.Series(rng.choice(['a', 'bb', ''], n)).astype(object)
    if k == 10:
        return 'category', pd.Series(pd.Categorical(rng.choice(['a', 'bb', 'c'], n), categories=['c', 'a', 'bb'], ordered=bool(rng.random() < 0.3)))
    return 'date', pd.Series(pd.date_range('2020-01-01', periods=n, freq='h'))


def same_cells(m, out, x0, msg):
    m.check(list(out.columns) == list(x0.columns), 'columns-changed', '%s: %s' % (msg, list(out.columns)))
    if not m.check(out.index.equals(x0.index), 'index-changed', msg) or list(out.columns) != list(x0.columns):
        return
    for j in range(x0.shape[1]):
        a, b = out.iloc[:, j], x0.iloc[:, j]
        m.ev('cells', len(b))
        if a.dtype != b.dtype:
            m.ev('columns_narrowed')
        if b.dtype.kind in 'iub':
            ok = np.array([int(p) == int(q) for p, q in zip(a.tolist(), b.tolist())])
            m.check(ok.all(), 'integer-value-changed', lambda: '%s col %d %s->%s: %s from %s' % (
                msg, j, b.dtype, a.dtype, a[~ok].tolist()[:3], b[~ok].tolist()[:3]))
            m.check(a.dtype.kind in 'iubf', 'kind-changed', '%s %s' % (b.dtype, a.dtype))
        elif b.dtype.kind == 'f':
            av, bv = a.values.astype(float), b.values.astype(float)
            m.check((np.isnan(av) == np.isnan(bv)).all(), 'missing-values-changed', msg)
            m.check((np.isinf(av) == np.isinf(bv)).all(), 'overflow', lambda: '%s: %s became %s' % (msg, bv[np.isinf(av) != np.isinf(bv)][:3], 'inf'))
            fin = np.isfinite(av) & np.isfinite(bv)
            m.check(np.isclose(av[fin], bv[fin], rtol=1.2e-7, atol=1.5e-45).all() and (av[np.isinf(bv)] == bv[np.isinf(bv)]).all(),
                    'float-rounding', lambda: '%s: %s vs %s' % (msg, av[fin][:5], bv[fin][:5]))
        else:
            m.check(a.tolist() == b.tolist(), 'non-numeric-changed', msg)


def reduce(m, rng, tier):
    from pyforecaster.big_data_utils import reduce_mem_usage, reduce_mem_usage_series, reduce_mem_usage_df
    n = int(rng.integers(2, 60))
    k = int(rng.integers(1, 12))
    cols = [column(rng, n, m) for _ in range(k)]
    x = pd.concat([c[1] for c in cols], axis=1)
    x.columns = ['c%d' % i for i in rng.permutation(k)]
    kind = rng.integers(3)
    if kind == 0:
        x.index = D.index(rng, n)
    elif kind == 1:
        x.index = rng.permutation(n) % max(1, n // 2)      # repeated labels
    x0 = x.copy(deep=True)
    how = rng.integers(3)
    if how == 0:
        out = reduce_mem_usage(x, parallel=False)
    elif how == 1:
        out = reduce_mem_usage_df(x)
    else:
        out = pd.concat([reduce_mem_usage_series(x[c]) for c in x.columns], axis=1)
    same_cells(m, out, x0, 'reduce %d kinds %s' % (how, [c[0] for c in cols]))
    m.check(x.equals(x0) and (x.dtypes == x0.dtypes).all(), 'input-modified', 'reduce %d' % how)
    if how < 2:
        twice = reduce_mem_usage(out, parallel=False)
        same_cells(m, twice, out, 'second reduction')
    m.nontrivial(sorted(c[0] for c in cols), n, kind, how)
    m.say(kinds=[c[0] for c in cols], rows=n)


def two_level(m, rng, tier):
    from pyforecaster.big_data_utils import reduce_mem_usage
    idx = D.index(rng, int(rng.integers(5, 50)))
    x = pd.concat({'p': D.signals(rng, idx), 'q': D.signals(rng, idx)}, axis=1)
    x0 = x.copy(deep=True)
    same_cells(m, reduce_mem_usage(x, parallel=False), x0, 'two-level columns')
    m.check(x.equals(x0), 'input-modified', 'two-level')
    m.nontrivial('2l', len(x))


def f_row(v):
    return v * 2 - np.abs(v).sum(axis=1, keepdims=True)


def f_col(v):
    return v - v.mean(axis=0, keepdims=True)


def f_elem(v):
    return np.where(v > 0, v, v / 3.0)


def f_rowstat(v):
    return np.hstack([v.min(axis=1, keepdims=True), v.max(axis=1, keepdims=True)])


def f_colstat(v):
    return np.vstack([v.min(axis=0, keepdims=True), v.max(axis=0, keepdims=True)])


def splits(m, rng, tier):
    from pyforecaster.big_data_utils import array_split
    n, k = int(rng.integers(1, 50)), int(rng.integers(1, 20))
    parts, axis = int(rng.integers(1, 25)), int(rng.integers(2))
    v = rng.normal(0, 1, (n, k))
    df = pd.DataFrame(v, columns=['c%d' % i for i in range(k)])
    df['t'] = 'z'
    x = df if rng.random() < 0.6 else v
    out = array_split(x, parts, axis=axis)
    m.check(len(out) == parts, 'chunk-count', '%d of %d' % (len(out), parts))
    m.ev('chunks', len(out))
    sz = [o.shape[axis] for o in out]
    m.check(sum(sz) == x.shape[axis] and max(sz) - min(sz) <= 1, 'chunk-sizes', '%s of %d' % (sz, x.shape[axis]))
    if isinstance(x, pd.DataFrame):
        back = pd.concat(out, axis=axis)
        m.check(back.equals(x) and (back.dtypes.values == x.dtypes.values).all(), 'chunks-do-not-recompose', 'axis %d parts %d' % (axis, parts))
    else:
        m.close(np.concatenate(out, axis=axis), x, 'chunks-do-not-recompose')
    m.ev('splits')
    if parts > 1:
        m.nontrivial('s', n, k, parts, axis)


def chunked(m, rng, tier):
    from pyforecaster.big_data_utils import fdf_parallel
    axis = int(rng.integers(2))
    n, k = int(rng.integers(8, 80)), int(rng.integers(2, 30))
    parts = int(rng.integers(1, 12))
    df = pd.DataFrame(rng.normal(0, 1, (n, k)), columns=['c%d' % i for i in rng.permutation(k)],
                      index=D.index(rng, n) if rng.random() < 0.5 else rng.permutation(n))
    f = [[f_row, f_elem, f_rowstat], [f_col, f_elem, f_colstat]][axis][rng.integers(3)]
    aslist = rng.random() < 0.3
    df0 = df.copy()
    if aslist:
        cut = sorted(rng.choice(np.arange(1, df.shape[axis]), size=min(3, df.shape[axis] - 1), replace=False))
        b = [0] + list(cut) + [df.shape[axis]]
        arg = [df.iloc[p:q] if axis == 0 else df.iloc[:, p:q] for p, q in zip(b, b[1:])]
    else:
        arg = df
    out = fdf_parallel(f, arg, n_splits=parts, axis=axis, use_ray=False)
    ref = f(df0.values)
    m.ev('chunked_functions')
    m.check(df.equals(df0), 'input-modified', 'chunked')
    m.close(np.asarray(out), ref, 'chunked-differs', '%s axis %d parts %d shape %s list %s' % (f.__name__, axis, parts, df.shape, aslist))
    if ref.shape == df.shape and m.check(isinstance(out, pd.DataFrame), 'not-a-table', ''):
        m.check(out.index.equals(df.index) and list(out.columns) == list(df.columns), 'labels-changed', '%s axis %d parts %d' % (f.__name__, axis, parts))
    m.nontrivial('c', n, k, parts, axis, f.__name__, aslist)
    m.say(n=n, k=k, parts=parts, axis=axis, f=f.__name__)


def ray_chunked(m, rng, tier):
    from pyforecaster.big_data_utils import fdf_parallel, reduce_mem_usage
    n, k = 40, 20
    df = pd.DataFrame(rng.normal(0, 1, (n, k)), columns=['c%d' % i for i in rng.permutation(k)], index=D.index(rng, n))
    try:
        out = fdf_parallel(lambda d: d * 2, df, n_splits=6, axis=1)
        red = reduce_mem_usage(df)
    except Exception as e:
        if 'ray' in type(e).__module__.lower() and 'RayTaskError' not in type(e).__name__:
            raise CaseTimeout()
        raise
    m.frame_same(out, df * 2, 'ray-chunked', '')
    same_cells(m, red, df, 'ray reduction')


WORKLOADS = [W('reduce', reduce, 200, 4000), W('two_level', two_level, 10, 60), W('splits', splits, 150, 2000),
             W('chunked', chunked, 40, 500), W('ray_chunked', ray_chunked, 1, 4, timeout=150)]
