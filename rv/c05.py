"""C05 leak-free time cross-validation folds."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D
from rv.c01 import build

PROP = 'C05'
RULE = ('one case = random index (step, gaps) x transforms (declared look-back) x number of folds x multiplier; each fold is '
        'checked against the declared look-back; non-trivial: dead band longer than zero; distinct by (config, folds)')
REQUIRED = {'folds': 600, 'deadband_rows': 500, 'too_short_rejected': 5, 'simulated_metadata': 30}
QUICK_S = 120


def folds(m, rng, tier):
    n = int(rng.integers(200, 500))
    idx = D.index(rng, n)
    dt = idx[1] - idx[0]
    x = D.signals(rng, idx)
    specs = D.rand_transforms(rng, ['y', 'a', 'b'], int(rng.integers(1, 4)), 0, 10, dt=dt)
    look = max(-e[3] for s in specs for e in D.expected_columns(s, dt))
    dead = dt * max(look, 0)
    f = build(specs, [dict(names=['y'], functions=None, agg_freq=None, lags=[-1, -2], relative_lags=False, agg_bins=None)], None)
    if rng.random() < 0.5:
        ti = f.transform(x.copy())[0].index
        kw = {}
        if len(ti) < 50:
            return
    else:
        ti, kw = x.index, dict(x=x)
        m.ev('simulated_metadata')
    if rng.random() < 0.3:
        keep = np.sort(rng.choice(len(ti), len(ti) - int(rng.integers(1, 20)), replace=False))
        ti = ti[keep]
    span = ti[-1] - ti[0]
    k = int(rng.integers(2, 7))
    while k > 2 and span / (k - 1) <= dead * 1.3:
        k -= 1
    if span / (k - 1) <= dead * 1.3:
        return
    mult = int(rng.integers(1, 4))
    out = list(f.time_kfcv(ti, k, mult, **kw))
    m.check(len(out) == k * mult, 'fold-count', '%d folds, asked %d x %d' % (len(out), k, mult))
    w = span / (k - 1)
    cover = np.zeros(len(ti), bool)
    eps = pd.Timedelta('1us')
    starts = []
    for i, (tr, te) in enumerate(out):
        tr, te = np.asarray(tr), np.asarray(te)
        m.ev('folds')
        m.check(tr.dtype == bool and te.dtype == bool and len(tr) == len(te) == len(ti), 'mask-shape', '')
        m.check(not (tr & te).any(), 'train-test-overlap', lambda: 'fold %d: %d rows in both' % (i, (tr & te).sum()))
        if not te.any():
            m.check(False, 'empty-test', 'fold %d' % i)
            continue
        cover |= te
        tpos = np.flatnonzero(te)
        m.check((np.diff(tpos) == 1).all(), 'test-not-contiguous', 'fold %d' % i)
        t0 = ti[0] + (span - w) * (i / (k * mult - 1))
        t1 = t0 + w
        starts.append(ti[tpos[0]])
        inside = (ti >= t0 - eps) & (ti <= t1 + eps)
        strictly = (ti > t0 + eps) & (ti < t1 - eps)
        m.check((te <= inside).all() and (strictly <= te).all(), 'test-window', lambda: 'fold %d: test %s..%s, window %s..%s'
                % (i, ti[tpos[0]], ti[tpos[-1]], t0, t1))
        far = (ti < t0 - dead - eps) | (ti > t1 + dead + eps)
        close = (ti > t0 - dead + eps) & (ti < t1 + dead - eps) if dead > pd.Timedelta(0) else te
        m.check(not (tr & close).any(), 'dead-band-violated', lambda: 'fold %d: %d training rows within %s of the test window; cfg %s'
                % (i, (tr & close).sum(), dead, specs))
        m.check(not (far & ~tr).any(), 'training-rows-lost', lambda: 'fold %d: %d rows beyond the dead band unused' % (i, (far & ~tr).sum()))
        m.ev('deadband_rows', (close & ~te).sum())
        # the real data dependence: no observation feeds both a training and a test feature row from outside a shared past
        if tr.any():
            dtr = ti[tr]
            after = dtr[dtr > ti[tpos[-1]]]
            if len(after) and dead > pd.Timedelta(0):
                m.check(after.min() - dead > ti[tpos[-1]] - eps, 'training-features-read-test-rows', 'fold %d' % i)
    if len(out) == k * mult and k * mult > 1:
        m.check(cover.all(), 'period-not-covered', lambda: '%d rows never tested' % (~cover).sum())
        m.check(all(a <= b for a, b in zip(starts, starts[1:])), 'fold-order', '')
    if dead > pd.Timedelta(0):
        m.nontrivial([D.key(s) for s in specs], k, mult, len(ti))
    m.say(specs=specs, k=k, mult=mult, dead=dead, rows=len(ti))


def too_short(m, rng, tier):
    idx = D.index(rng, 120)
    x = D.signals(rng, idx)
    lag = int(rng.integers(45, 80))
    f = build([dict(names=['a'], functions=None, agg_freq=None, lags=[lag], relative_lags=False, agg_bins=None)], [], None)
    k = int(rng.integers(4, 8))
    m.raises(lambda: list(f.time_kfcv(x.index, k, x=x)), Exception, 'dead-band-too-long-accepted',
             'look-back of %d steps with test folds of %d steps' % (lag, 119 // (k - 1)), event='too_short_rejected')


WORKLOADS = [W('folds', folds, 200, 2500), W('too_short', too_short, 10, 50)]
