"""C06 per-step feature selection."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D
from rv.c01 import build

PROP = 'C06'
RULE = ('one case = random transforms and targets, formatted once, then a random sequence of selections (step ahead, method, period, '
        'tolerance, recent lags); the kept set is recomputed from the declared windows; non-trivial: a proper non-empty subset is kept')
REQUIRED = {'selections': 600, 'periodic': 150, 'up_to': 100, 'keep_lags': 100, 'keep_seconds': 80}
QUICK_S = 120


def select(m, rng, tier):
    n = int(rng.integers(90, 140))
    idx = D.index(rng, n)
    dt = idx[1] - idx[0]
    x = D.signals(rng, idx)
    specs = D.rand_transforms(rng, ['y', 'a', 'b'], int(rng.integers(1, 4)), -4 if rng.random() < 0.4 else 0, 14, dt=dt)
    ts = [dict(names=['y'], functions=None, agg_freq=None, lags=[-i for i in range(1, int(rng.integers(3, 12)))], relative_lags=False, agg_bins=None)]
    if rng.random() < 0.4:
        ts.append(dict(names=['a'], functions=['mean'], agg_freq=2, steps=2, lags=[-2, -4], relative_lags=False, agg_bins=None))
    f = build(specs, ts, None)
    xo, to = f.transform(x.copy())
    if len(xo) < 3:
        return
    base = [t.metadata.copy() for t in f.transformers + f.target_transformers]
    # declared windows, keyed by column through the values (column order = declaration order per source signal)
    feats = []
    for s, tr in zip(specs, f.transformers):
        exp = D.expected_columns(s, dt)
        cols = list(tr.metadata.index)
        if len(cols) != len(exp):
            m.check(False, 'column-count', '%d vs %d' % (len(cols), len(exp)))
            return
        pos = x.index.get_indexer(xo.index)
        left = list(cols)
        for e in exp:
            ref = D.window_series(x[e[1]].values, e[2], e[3], e[4])[pos]
            hit = [c for c in left if np.allclose(xo[c].values, ref, rtol=1e-7, atol=1e-6)]
            if not hit:
                m.check(False, 'column-missing', 'no column holds %s of cfg %s' % (e, s))
                return
            c = hit[0]
            if len(hit) > 1:        # e.g. mean and max over a single step: same window, any assignment is fine
                named = [h for h in hit if e[2] is None or '_%s' % e[2] in h]
                c = (named or hit)[0]
            left.remove(c)
            f0 = e[3] if e[2] else e[4] - (s.get('steps', 1) - 1)
            feats.append((c, f0 * dt, e[4] * dt + dt, e[0], s))
    tcols = []
    for s in ts:
        tcols += [(e[3] * dt, e[4] * dt + dt) for e in D.expected_columns(s, dt)]
    meta = [[], ['hour'], ['hour', 'y']][rng.integers(3)]
    for _ in range(int(rng.integers(4, 9))):
        j = int(rng.integers(len(tcols)))
        t0, t1 = tcols[j]
        method = ['periodic', 'periodic', 'up_to', 'all'][rng.integers(4)]
        period = pd.Timedelta([24, 6, 3, 12][rng.integers(4)], unit='h') if rng.random() < 0.6 else dt * int(rng.integers(2, 9))
        tol = dt * int(rng.integers(0, 3))
        kl = int(rng.integers(1, 4)) if rng.random() < 0.35 else 0
        ks = int(dt.total_seconds() * rng.integers(1, 7)) if rng.random() < 0.3 else 0
        want = set()
        for c, a, b, lag, s in feats:
            if method == 'periodic':
                k = ((t0 - a) % period <= tol) or ((t1 - b) % period <= tol)
            elif method == 'up_to':
                k = b <= t1
            else:
                k = True
            if kl and lag is not None and 0 <= lag < kl and s['agg_bins'] is None:
                k = True
            if ks and abs(b) <= pd.Timedelta(ks, unit='s') and b <= t1:
                k = True
            want.add(c) if k else None
        amb = {c for c, a, b, lag, s in feats if kl and s['agg_bins'] is not None}
        if method != 'all':
            m.ev('periodic' if method == 'periodic' else 'up_to')
        m.ev('keep_lags', kl > 0)
        m.ev('keep_seconds', ks > 0)
        arg = dict(period=str(period) if rng.random() < 0.5 else period, tol_period=tol)
        got = f.prune_dataset_at_stepahead(xo, j, list(meta), method=method, keep_last_n_lags=kl, keep_last_seconds=ks, **arg)
        names = list(got.columns)
        gset = set(names) - set(meta)
        m.check(len(names) == len(set(names)), 'duplicate-columns', str(names))
        m.check((gset - amb) == (want - amb - set(meta)), 'selected-set', lambda: 'target %d (%s..%s) %s period %s tol %s last %d / %d s: missing %s, extra %s'
                % (j, t0, t1, method, period, tol, kl, ks, sorted(want - gset)[:4], sorted(gset - want)[:4]), event='selections')
        m.check(all(c in names for c in meta), 'metadata-columns', 'metadata columns lost')
        if set(names) <= set(xo.columns):
            m.frame_same(got, xo[names], 'values-changed', 'selected values', atol=0, rtol=0)
        if 0 < len(want) < len(feats):
            m.nontrivial(method, str(period), str(tol), kl, j, sorted(want))
    xo2, _ = build(specs, ts, None).transform(x.copy())
    m.check(xo.equals(xo2), 'dataset-mutated', 'selection changed the dataset')
    for a, b in zip(base, [t.metadata for t in f.transformers + f.target_transformers]):
        m.check(list(a.columns) == list(b.columns) and a.equals(b), 'metadata-mutated', 'selection changed the stored metadata')
    m.say(specs=specs, targets=ts, features=len(feats))


WORKLOADS = [W('select', select, 200, 2500)]
