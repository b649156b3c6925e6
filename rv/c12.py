"""C12 prediction is pure and row-wise."""
import copy
import pickle
import numpy as np
import pandas as pd
from rv.common import W
from rv import models as M
from rv.trees import warm

PROP = 'C12'
RULE = ('one case = fitted forecaster x prediction table; the monitor compares repeated, subset, permuted, single-row and interleaved '
        'predictions, and digests of inputs and fitted state before and after; non-trivial: rows with different forecasts')
REQUIRED = {'repeat': 60, 'row_subset': 60, 'permuted': 60, 'single_row': 60, 'input_unchanged': 100, 'labels': 100, 'state_unchanged': 60, 'control': 50}
QUICK_S = 200


def flat(o, depth=0, seen=None):
    """readable digest of the fitted state (arrays, tables, dicts, numbers), ignoring loggers and opaque objects"""
    seen = seen if seen is not None else set()
    if id(o) in seen or depth > 5:
        return '~'
    if isinstance(o, (int, float, str, bool, type(None), np.generic)):
        return repr(o)
    if isinstance(o, np.ndarray):
        return ('A', o.shape, o.dtype.str, o.tobytes() if o.dtype != object else repr(o.tolist()))
    if isinstance(o, (pd.DataFrame, pd.Series)):
        return ('P', pickle.dumps(o.values.tolist()), list(map(str, o.index)))
    if isinstance(o, pd.Index):
        return ('I', list(map(str, o)))
    seen = seen | {id(o)}
    if isinstance(o, dict):
        return {str(k): flat(v, depth + 1, seen) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [flat(v, depth + 1, seen) for v in o]
    mod = type(o).__module__ or ''
    if mod.startswith('pyforecaster') or (mod.startswith('sklearn') and hasattr(o, '__dict__')):
        return {k: flat(v, depth + 1, seen) for k, v in vars(o).items() if 'logger' not in k}
    if mod.startswith('lightgbm') and hasattr(o, 'model_to_string'):
        return o.model_to_string()
    return type(o).__name__


def case(m, rng, tier):
    name = M.NAMES[int(rng.integers(len(M.NAMES)))]
    x, y = M.dataset(rng)
    if name == 'energy' and rng.random() < 0.7:
        x = x.rename(columns={c: 'force_off_t-%d' % i for i, c in enumerate(x.columns[:2])})
        off = [c for c in x.columns if 'force_off' in c]
        x[off] = (x[off] > 0.5).astype(float)
        y = y + x[off].values @ rng.normal(0, 4, (len(off), y.shape[1]))
        m.ev('control_columns')
    cat = None
    if name in ('linear', 'qrf') and rng.random() < 0.5:
        cat = ['u', 'v', 'w'][:int(rng.integers(2, 4))]
        x['kind'] = rng.choice(cat, len(x))
        y = y + (x['kind'] == 'v').values[:, None] * 3.0
        m.ev('categorical')
    kw = M.settings(rng, name, y.shape[1])
    kw.update(val_ratio=[None, 0.3][rng.integers(2)], conditional_to_hour=bool(rng.random() < 0.6), q_vect=M.q_vect(rng))
    xf, yf = x.copy(), y.copy()
    f = M.fit(name, xf, yf, int(rng.integers(1e6)), **kw)
    m.check(xf.equals(x) and yf.equals(y), 'fit-modifies-data', '%s: fit changed its inputs' % name, event='input_unchanged')
    n = int(rng.integers(200, 700)) if rng.random() < 0.15 else int(rng.integers(5, 60))
    if n < len(x) and rng.random() < 0.4:
        xt = x.iloc[np.sort(rng.choice(len(x), n, replace=False))]
    else:
        xt = pd.DataFrame(rng.normal(0, 1.5, (n, x.shape[1])), columns=x.columns,
                          index=pd.date_range('2024-10-26 22:00', periods=n, freq=['1h', '17min', '5h'][rng.integers(3)], tz=['UTC', 'Europe/Zurich'][rng.integers(2)]))
        if name == 'energy':
            off = [c for c in x.columns if 'force_off' in c]
            xt[off] = (xt[off] > 0).astype(float)
        if cat is not None:
            xt['kind'] = rng.choice(cat, n)
    x0 = xt.copy(deep=True)
    tag = '%s %s' % (name, kw)
    d0 = flat(f)
    # the order of summation differs with the number of rows; narrow kernels add up large terms of opposite sign
    tol = 1e-6 if name in ('rff', 'arff') else 1e-9
    outs = {'predict': lambda z: f.predict(z), 'quantiles': lambda z: f.predict_quantiles(z)}
    for w, fn in outs.items():
        a = fn(xt)
        m.check(xt.equals(x0) and list(xt.columns) == list(x0.columns), 'input-modified', '%s: %s changed its input' % (tag, w), event='input_unchanged')
        m.check(a.index.equals(x0.index), 'index', '%s: %s' % (tag, w), event='labels')
        lab = list(a.columns) if w == 'predict' else list(dict.fromkeys(a.columns.get_level_values(0)))
        m.check(lab == list(y.columns), 'target-labels', '%s: %s labels %s, trained on %s' % (tag, w, lab, list(y.columns)), event='labels')
        keep = a.copy(deep=True)
        b = fn(x0.copy())
        m.frame_same(b, keep, 'repeat', '%s: second %s differs' % (tag, w), rtol=1e-12, atol=1e-12, event='repeat')
        s = np.sort(rng.choice(n, int(rng.integers(1, n + 1)), replace=False))
        m.frame_same(fn(x0.iloc[s].copy()), keep.iloc[s], 'row-subset', '%s: %s of %d of %d rows' % (tag, w, len(s), n), rtol=tol, atol=tol, event='row_subset')
        p = rng.permutation(n)
        m.frame_same(fn(x0.iloc[p].copy()), keep.iloc[p], 'permuted', '%s: %s of permuted rows' % (tag, w), rtol=tol, atol=tol, event='permuted')
        i = int(rng.integers(n))
        m.frame_same(fn(x0.iloc[[i]].copy()), keep.iloc[[i]], 'single-row', '%s: %s of one row' % (tag, w), rtol=tol, atol=tol, event='single_row')
        if cat is not None:
            s = np.flatnonzero(x0['kind'].values == x0['kind'].values[i])
            m.frame_same(fn(x0.iloc[s].copy()), keep.iloc[s], 'row-subset', '%s: %s of the rows of one category' % (tag, w), rtol=tol, atol=tol, event='row_subset')
        # writing on a result must not reach the model
        a.iloc[:, :] = 0.0
        m.frame_same(fn(x0.copy()), keep, 'result-aliases-model', '%s: %s' % (tag, w), rtol=1e-12, atol=1e-12)
    qa = f.predict_quantiles(x0.copy(), dataframe=False)
    q0 = qa.copy()
    qa += 7
    m.close(f.predict_quantiles(x0.copy(), dataframe=False), q0, 'result-aliases-model', tag)
    f.predict_pmf(x0.iloc[:3].copy(), np.linspace(-5, 5, 6))
    d1 = flat(f)
    diff = [k for k in d0 if d0[k] != d1.get(k)]
    m.check(not diff, 'state-modified', '%s: predicting changed attributes %s' % (tag, diff), event='state_unchanged')
    if len(np.unique(keep.values)) > 1:
        m.nontrivial(name, sorted(map(str, kw.items())), n)
    m.say(model=name, rows=n, settings=kw)


def scenarios(m, rng, tier):
    """asking for scenarios or trees does not change what the model predicts"""
    name = ['linear', 'lgb', 'qrf'][int(rng.integers(3))]
    x, y = M.dataset(rng, n=200, T=int(rng.integers(2, 5)))
    kw = M.settings(rng, name, y.shape[1])
    f = M.fit(name, x, y, 1, nodes_at_step=[1] + [2] * (y.shape[1] - 1), **kw)
    xt = x.iloc[:3].copy()
    p, q = f.predict(xt), f.predict_quantiles(xt)
    f.predict_scenarios(xt, n_scen=20, random_state=1)
    f.predict_trees(xt, n_scen=20, random_state=1)
    m.check(xt.equals(x.iloc[:3]), 'input-modified', '%s scenarios' % name, event='input_unchanged')
    m.frame_same(f.predict(xt), p, 'repeat', '%s: after scenarios' % name, event='repeat')
    m.frame_same(f.predict_quantiles(xt), q, 'repeat', '%s: after scenarios' % name, event='repeat')
    m.nontrivial('scen', name, y.shape[1])



def control(m, rng, tier):
    """the energy balance of the switched-off rows, fed to the following steps, is that of each row alone"""
    from pyforecaster.forecasting_models.gradientboosters import LGBEnergyAware
    n, T = int(rng.integers(200, 420)), int(rng.integers(2, 4))
    idx = pd.date_range('2022-01-01', periods=n, freq='1h')
    x = pd.DataFrame(rng.normal(0, 1, (n, 3)), idx, ['y', 'a', 'b'])
    off = ['force_off_-%d' % i for i in range(int(rng.integers(1, 3)))]
    for c in off:
        x[c] = (rng.random(n) < 0.5) * 1.0
    y = pd.DataFrame({'t%d' % k: x[off].values @ rng.normal(0, 3, len(off)) * (-1) ** k + x['a'].values + 0.1 * rng.normal(0, 1, n) for k in range(T)}, idx)
    f = LGBEnergyAware(n_single=T, n_estimators=int(rng.integers(10, 25)), min_child_samples=3, num_leaves=int(rng.integers(4, 20)), learning_rate=0.2, verbose=-1,
                       val_ratio=[None, 0.3][rng.integers(2)], conditional_to_hour=bool(rng.random() < 0.5)).fit(x.copy(), y.copy())
    a, q = f.predict(x.copy()), f.predict_quantiles(x.copy())
    for k in (1, 2, int(rng.integers(3, 30)), int(rng.integers(30, 150)), n - 5):
        s = np.sort(rng.choice(n, k, replace=False))
        m.frame_same(f.predict(x.iloc[s].copy()), a.iloc[s], 'control-rows', 'energy aware, %s: %d of %d rows' % (off, k, n), event='control')
        m.frame_same(f.predict_quantiles(x.iloc[s].copy()), q.iloc[s], 'control-rows', 'energy aware quantiles, %s: %d of %d rows' % (off, k, n), event='control')
    one = x.iloc[[int(rng.integers(n))]]
    alike = pd.concat([one] * 3).set_axis(idx[:3])
    v = f.predict(alike).values
    m.check(np.ptp(v, axis=0).max() < 1e-12, 'equal-rows', lambda: 'energy aware: equal rows got %s' % v, event='control')
    m.nontrivial('control', n, T, off)
    m.say(model='energy aware', rows=n, steps=T)


WORKLOADS = [W('control', control, 6, 60), W('pure', case, 90, 1200), W('scenarios', scenarios, 8, 60)]
