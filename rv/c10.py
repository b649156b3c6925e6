"""C10 row cap of the post-fit phase: the rows handed to the dependence estimation are recorded and compared with the data."""
import numpy as np
import pandas as pd
from rv.common import W, Inconclusive
from rv import models as M

PROP = 'C10'
RULE = ('one case = forecaster x dataset (uneven hours, several time zones, unordered rows) x cap x seed; the monitor records the residual '
        'table handed to the scenario generator at fit; non-trivial: the cap is binding')
REQUIRED = {'rows_recorded': 2000, 'capped_fits': 40, 'stratified_hours': 300, 'loose_caps': 15, 'point_model': 40, 'reproducible': 40}
QUICK_S = 200


class Spy:
    """Records the residuals given to ScenGen.fit."""

    def __enter__(self):
        from pyforecaster.scenarios_generator import ScenGen
        self.c, self.o, self.rows = ScenGen, ScenGen.fit, []
        spy = self

        def fit(s, y, x=None, *a, **k):
            spy.rows.append((y.copy(), None if x is None else x.copy()))
            return spy.o(s, y, x, *a, **k)
        ScenGen.fit = fit
        return self

    def __exit__(self, *a):
        self.c.fit = self.o


def fit(name, x, y, gseed, **kw):
    with Spy() as s:
        f = M.fit(name, x, y, seed=gseed, **kw)
    if len(s.rows) != 1:
        raise Inconclusive('scenario generator fitted %d times' % len(s.rows))
    return f, s.rows[0][0], s.rows[0][1]


def case(m, rng, tier):
    name = ['linear', 'linear', 'lgb', 'qrf', 'rff', 'arff', 'hybrid'][int(rng.integers(7))]
    x, y = M.dataset(rng, n=int(rng.integers(200, 700)), step=['1h', '20min', '1h'][rng.integers(3)])
    # uneven representation of the hours
    keep = rng.random(len(x)) < rng.uniform(0.2, 1.0, 24)[np.asarray(x.index.hour)]
    x, y = x[keep], y[keep]
    if rng.random() < 0.25:
        p = rng.permutation(len(x))
        x, y = x.iloc[p], y.iloc[p]
    datetime = True
    kw = M.settings(rng, name, y.shape[1])
    vr = [None, 0.4][rng.integers(2)]
    cond = bool(rng.random() < 0.5)
    k, v = M.split(len(x), vr)
    xv, yv = x.iloc[v], y.iloc[v]
    n = len(xv)
    mode = rng.integers(5)
    cap = int([rng.integers(24, n), rng.integers(1, 24), n, n + int(rng.integers(1, 50)), rng.integers(n // 2, n)][mode])
    seed = int(rng.integers(1000)) if rng.random() < 0.5 else [None, 0][rng.integers(2)]
    g = int(rng.integers(1e6))
    base = dict(val_ratio=vr, conditional_to_hour=cond, **kw)
    f0, r0, _ = fit(name, x.copy(), y.copy(), g, **base)
    f1, r1, x1 = fit(name, x.copy(), y.copy(), g, max_scengen_rows=cap, scengen_random_state=seed, **base)
    tag = '%s cap %d of %d rows seed %s' % (name, cap, n, seed)
    xt = x.iloc[:30].copy()
    p0, p1 = f0.predict(xt), f1.predict(xt)
    m.close(p1.values, p0.values, 'point-model', tag + ': the point forecasts changed', event='point_model')
    m.ev('rows_recorded', len(r1))
    m.check(1 <= len(r1) <= min(cap, n), 'cap-exceeded', '%s: %d rows used' % (tag, len(r1)))
    m.check(not r1.index.has_duplicates, 'duplicates', tag)
    m.check(x1 is None or x1.index.equals(r1.index), 'pairing', '%s: features and residuals are not on the same rows' % tag)
    pos = xv.index.get_indexer(r1.index)
    if not m.check((pos >= 0).all(), 'foreign-rows', '%s: rows outside the held-out data' % tag):
        return
    full = pd.DataFrame(yv.values - f1.predict(xv.copy()).values, index=xv.index)
    m.close(r1.values, full.values[pos], 'pairing', '%s: residuals are not target minus forecast of the same row' % tag, rtol=1e-7, atol=1e-7)
    if x1 is not None and list(x1.columns) == list(xv.columns):
        m.close(x1.values, xv.values[pos], 'pairing', '%s: features' % tag)
    if cap >= n:
        m.ev('loose_caps')
        m.frame_same(r1, r0, 'loose-cap', '%s: a cap at or above the number of rows changes the residuals' % tag)
    else:
        m.ev('capped_fits')
        m.check(r1.index.is_monotonic_increasing, 'time-order', tag)
        f2, r2, _ = fit(name, x.copy(), y.copy(), g, max_scengen_rows=cap, scengen_random_state=seed, **base)
        m.check(r2.index.equals(r1.index), 'reproducible', '%s: two fits drew different rows' % tag, event='reproducible')
        # the draw is independent of targets and of the global generator (seeded models are reseeded inside)
        f3, r3, _ = fit(name, x.copy(), y * 2 + 1, g + 1, max_scengen_rows=cap, scengen_random_state=seed, **base)
        m.check(r3.index.equals(r1.index), 'reproducible', '%s: the draw depends on something else than seed, cap and rows' % tag)
        if 10 < cap < n - 10:
            f4, r4, _ = fit(name, x.copy(), y.copy(), g, max_scengen_rows=cap, scengen_random_state=(seed or 0) + 12345, **base)
            m.check(not r4.index.equals(r1.index), 'seed-ignored', '%s: another seed drew the same %d rows' % (tag, cap))
        if cap >= 24:
            hv = np.asarray(xv.index.hour)
            h1 = np.asarray(r1.index.hour)
            for h in np.unique(hv):
                p = (hv == h).mean()
                e = cap * p
                m.check(abs((h1 == h).sum() - e) <= 6 * np.sqrt(cap * p * (1 - p)) + 4, 'unfair-hours',
                        '%s: hour %d has %d of %d drawn rows, expected about %.1f' % (tag, h, (h1 == h).sum(), len(h1), e), event='stratified_hours')
        m.nontrivial(name, cap, n, seed, vr, cond)
    if name in M.RESIDUAL:
        q = f1.predict_quantiles(xt, dataframe=False)
        ref = p1.values[:, :, None] + M.residual_quantiles(r1.values, np.asarray(r1.index.hour), f1.q_vect, cond, np.asarray(xt.index.hour))
        m.close(q, ref, 'err-distr', '%s: quantiles are not those of the drawn residuals' % tag, rtol=1e-7, atol=1e-7)
    m.say(model=name, cap=cap, rows=n, seed=seed, used=len(r1))


def aggregate(m, rng, tier):
    """many draws of the same cap: every row must be reachable and hours fair on average"""
    from pyforecaster.forecaster import LinearForecaster
    x, y = M.dataset(rng, n=400, T=1)
    keep = rng.random(len(x)) < np.where(np.arange(24) % 2 == 0, 1.0, 0.4)[np.asarray(x.index.hour)]
    x, y = x[keep], y[keep]
    n, cap, R = len(x), int(rng.integers(60, 150)), 60
    cnt = np.zeros(n)
    for s in range(R):
        _, r, _ = fit('linear', x, y, 0, max_scengen_rows=cap, scengen_random_state=s + int(rng.integers(1e6)))
        cnt[x.index.get_indexer(r.index)] += 1
        m.ev('rows_recorded', len(r))
    hv = np.asarray(x.index.hour)
    p = cap / n
    m.check(abs(cnt.sum() / R - cap) <= 0.35 * cap, 'cap-wasted', 'on average %.1f rows used with a cap of %d of %d' % (cnt.sum() / R, cap, n))
    # every row has about the same chance (6 sigma per hour group; multinomial spread between hours included)
    for h in np.unique(hv):
        e = R * cap * (hv == h).mean()
        m.check(abs(cnt[hv == h].sum() - e) <= 6 * np.sqrt(e) + 5, 'unfair-hours', 'hour %d drawn %d times in %d fits, expected %.0f' % (h, cnt[hv == h].sum(), R, e),
                event='stratified_hours')
    m.check(abs(np.corrcoef(np.arange(n), cnt)[0, 1]) < 6 / np.sqrt(n), 'unfair-rows', 'the chance of a row depends on its position')
    m.nontrivial('agg', n, cap)


def errors(m, rng, tier):
    for bad, e in ((0, ValueError), (-3, ValueError), (1.5, (TypeError, ValueError)), ('10', (TypeError, ValueError))):
        m.raises(lambda: M.make('linear', max_scengen_rows=bad), e, 'bad-cap-accepted', 'max_scengen_rows=%r' % (bad,))
    # documented default of the seed: the model's integer random_state, else 0
    x, y = M.dataset(rng, n=260, T=1)
    for s in (0, 3):      # a given seed wins over the one of the model
        _, a, _ = fit('linear', x, y, 0, max_scengen_rows=100, scengen_random_state=s)
        _, b, _ = fit('qrf', x, y, 0, max_scengen_rows=100, scengen_random_state=s, random_state=7, parallel=False, n_estimators=4)
        m.check(a.index.equals(b.index), 'given-seed', 'sampling seed %d is not used when the model has its own' % s)
    for name, kw, s in (('linear', {}, 0), ('qrf', dict(random_state=7, parallel=False, n_estimators=4), 7), ('qrf', dict(random_state=None, parallel=False, n_estimators=4), 0)):
        _, a, _ = fit(name, x, y, 0, max_scengen_rows=100, **kw)
        _, b, _ = fit(name, x, y, 0, max_scengen_rows=100, scengen_random_state=s, **kw)
        m.check(a.index.equals(b.index), 'default-seed', '%s %s: default seed is not %d' % (name, kw, s))
    m.nontrivial('errors')


WORKLOADS = [W('cap', case, 90, 1200), W('aggregate', aggregate, 8, 60), W('errors', errors, 1, 1)]
