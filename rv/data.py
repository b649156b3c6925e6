"""Workload data: seeded random datasets and formatter configurations."""
import functools
import numpy as np
import pandas as pd

STEPS = ['10min', '15min', '30min', '1h', '2h']


def index(rng, n, step=None, tz='rand', start=None):
    step = step or STEPS[rng.integers(len(STEPS))]
    if start is None:
        start = pd.Timestamp('2021-01-01') + pd.Timedelta(int(rng.integers(0, 500)), unit='D') + \
            pd.Timedelta(int(rng.integers(0, 24)), unit='h')
    if tz == 'rand':
        tz = [None, None, 'UTC', 'Europe/Zurich'][rng.integers(4)]
    idx = pd.date_range(start, periods=n, freq=step)
    if tz is not None:
        idx = pd.date_range(start.tz_localize('UTC'), periods=n, freq=step).tz_convert(tz)
    return idx


def signals(rng, idx, names=('y', 'a', 'b'), scale=None):
    n = len(idx)
    t = np.arange(n)
    out = {}
    for c in names:
        per = rng.integers(5, 60)
        s = np.sin(2 * np.pi * t / per + rng.uniform(0, 6)) * rng.uniform(0.5, 3) + rng.normal(0, 0.5, n)
        if rng.random() < 0.3:
            s = s + np.cumsum(rng.normal(0, 0.3, n))
        out[c] = s * (scale or 1) + rng.uniform(-2, 5)
    return pd.DataFrame(out, index=idx)


def spread(v):
    return np.max(v) - np.min(v)


def q80(v):
    return np.quantile(v, 0.8)


FUNS = {'mean': 'mean', 'min': 'min', 'max': 'max', 'std': 'std', 'sum': 'sum', 'median': 'median',
        'spread': spread, 'q80': q80}
REF = {'mean': np.mean, 'min': np.min, 'max': np.max, 'std': lambda v: np.std(v, ddof=1), 'sum': np.sum,
       'median': np.median, 'spread': spread, 'q80': q80}


def rand_lags(rng, lo, hi, kmax=4):
    k = int(rng.integers(1, kmax + 1))
    k = min(k, hi - lo + 1)
    l = rng.choice(np.arange(lo, hi + 1), size=k, replace=False)
    return [int(i) for i in (np.sort(l) if rng.random() < 0.7 else l)]


def rand_transform(rng, names, lo=0, hi=12, funs=None, bins_ok=True, nonnested_ok=True, dt=None):
    """A random add_transform call, as a dict. Lags in [lo, hi]."""
    funs = funs or ['mean', 'min', 'max', 'sum', 'spread', 'q80', 'median']
    kind = ['lag', 'agg', 'agg', 'bins', 'nolag'][rng.integers(5)]
    if kind == 'bins' and not bins_ok:
        kind = 'agg'
    k = int(rng.integers(1, len(names) + 1))
    spec = dict(names=[str(s) for s in rng.choice(names, size=k, replace=False)], kind=kind, functions=None,
                agg_freq=None, lags=None, relative_lags=False, agg_bins=None, nested=True)
    if kind == 'lag':
        spec['lags'] = rand_lags(rng, lo, hi)
        return spec
    nf = int(rng.integers(1, 3))
    spec['functions'] = [str(s) for s in rng.choice(funs, size=nf, replace=False)]
    if kind in ('agg', 'nolag'):
        steps = int(rng.integers(1, 9))
        spec['steps'] = steps
        if dt is not None and rng.random() < 0.5:
            spec['agg_freq'] = '%dmin' % int(steps * dt.total_seconds() // 60)
        else:
            spec['agg_freq'] = steps
        spec['relative_lags'] = bool(rng.random() < 0.4)
        if kind == 'agg':
            spec['lags'] = rand_lags(rng, lo, max(lo, hi // 3) if spec['relative_lags'] else hi)
    else:
        nb = int(rng.integers(2, 5))
        edges = np.sort(rng.choice(np.arange(0, 13), size=nb, replace=False))
        spec['agg_bins'] = [int(e) for e in (edges if rng.random() < 0.5 else edges[::-1])]
        spec['nested'] = bool(rng.random() < 0.7) if nonnested_ok else True
        if not spec['nested']:
            spec['functions'] = [f for f in spec['functions'] if f in ('mean', 'min', 'max', 'sum', 'median')] or ['mean']
        if rng.random() < 0.6:
            spec['lags'] = rand_lags(rng, lo, hi, 3)
    return spec


def key(spec):
    return tuple(sorted((k, str(v)) for k, v in spec.items()))


def add(formatter, spec, target=False):
    kw = dict(names=list(spec['names']), functions=None if spec['functions'] is None else [FUNS[f] for f in spec['functions']],
              agg_freq=spec['agg_freq'], lags=spec['lags'], relative_lags=spec['relative_lags'], agg_bins=spec['agg_bins'])
    if target:
        formatter.add_target_transform(**kw)
    else:
        if not spec.get('nested', True):
            kw['nested'] = False
        formatter.add_transform(**kw)
    return formatter


def expected_columns(spec, dt):
    """Reference semantics of one transformer: list of (name or None, signal, fun or None, first, last),
    where the value at row i is fun(x[i+first .. i+last]) (inclusive, in steps)."""
    out = []
    for name in spec['names']:
        lags = spec['lags'] if spec['lags'] is not None else [None]
        if spec['agg_bins'] is not None:
            e = sorted(spec['agg_bins'], reverse=True)
            win = e[0] - e[-1]
            for l in lags:
                sh = 0 if l is None else l * (win if spec['relative_lags'] else 1)
                for i in range(len(e) - 1):
                    for f in spec['functions']:
                        out.append((l, name, f, -(e[i] - 1) - sh, -e[i + 1] - sh, (e[i], e[i + 1])))
        else:
            steps = spec.get('steps', 1)
            for l in lags:
                sh = 0 if l is None else l * (steps if spec['relative_lags'] else 1)
                for f in (spec['functions'] or [None]):
                    out.append((l, name, f, -sh - (steps - 1 if f else 0), -sh, None))
    return out


def window_value(x, fun, i, first, last):
    a, b = i + first, i + last
    if a < 0 or b >= len(x) or b < a:
        return np.nan
    w = x[a:b + 1]
    if fun is None:
        return w[-1]
    return float(REF[fun](w)) if np.isfinite(w).all() else np.nan


def window_series(x, fun, first, last):
    return np.array([window_value(x, fun, i, first, last) for i in range(len(x))])


def column_ids(spec):
    lags = spec['lags'] if spec['lags'] is not None else [None]
    e = sorted(spec['agg_bins'], reverse=True) if spec['agg_bins'] is not None else None
    bins = [(e[i], e[i + 1]) for i in range(len(e) - 1)] if e else [None]
    return {(n, f, l, b, None if e or not spec['functions'] else spec.get('steps', 1)) for n in spec['names'] for l in lags for b in bins
            for f in (spec['functions'] or [None])}


def rand_transforms(rng, names, k, lo=0, hi=12, **kw):
    """k random transforms that do not generate the same column twice."""
    out, seen = [], set()
    for _ in range(8 * k):
        if len(out) == k:
            break
        s = rand_transform(rng, names, lo, hi, **kw)
        ids = column_ids(s)
        if ids & seen or (s['lags'] is None and not s['functions']):
            continue
        seen |= ids
        out.append(s)
    return out
