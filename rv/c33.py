"""C33 neural forecasters: saved models load back, training is reproducible, units are consistent."""
import functools
import numpy as np
import pandas as pd
from scipy.stats import norm
from rv.common import W
from rv import nets as N
from rv import models as M

PROP = 'C33'
RULE = ('one case = neural forecaster class with random architecture, scaling and training options, dataset; the fitted model is compared with its saved and reloaded '
        'copies, with a second training, with a refitted object, with trainings in other units; non-trivial: the trained forecasts vary over the rows')
REQUIRED = {'loaded_forecast': 8, 'loaded_quantiles': 8, 'loaded_scenarios': 2, 'loaded_params': 8, 'reproducible': 4, 'refit': 4, 'scaled_units': 4, 'shifted_units': 3,
            'input_units': 2, 'probabilistic_quantiles': 2, 'held_out': 2, 'residual_quantiles': 5, 'rows': 15, 'pure': 15}
QUICK_S = 260


def same(a, b):
    if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
        return isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame) and a.equals(b)
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple, np.ndarray)) or hasattr(a, 'shape'):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool((a == b).all())
    return a is b or a == b


def quantiles(m, net, x):
    return np.asarray(N.quiet(net.predict_quantiles, x), float)


def case(what, m, rng, tier):
    names = [n for n in N.ALL if not (n == 'CausalInvertibleNN' and what in ('scaled', 'shifted', 'inputs'))]
    names = [n for n in names if not (n in ('LSTMNN', 'StructuredPICNN') and what in ('inputs', 'scaled', 'shifted'))]
    name = names[rng.integers(len(names))]
    if what == 'probabilistic':
        name = ['PICNN', 'RecStablePICNN', 'PIQCNNSigmoid'][rng.integers(3)]
    T = int(rng.integers(1, 4))
    x, y = N.data(rng, T=T, k=int(rng.integers(max(3, T + 1), 7)), n=int(rng.integers(120, 220)))
    kw = N.any_settings(rng, x, y, name)
    if what in ('scaled', 'shifted'):
        kw['normalize_target'] = True
    if what == 'inputs':
        kw['unnormalized_inputs'] = None
    if what == 'heldout':
        kw['val_ratio'] = 0.3
    if what == 'probabilistic':
        kw.update(probabilistic=True, probabilistic_loss_kind=['crps', 'maximum_likelihood'][rng.integers(2)])
    if name == 'CausalInvertibleNN':
        x = (x - x.mean()) / x.std()
        y = (y - y.mean()) / y.std()
    seed = int(rng.integers(1 << 30))
    net = N.fitted(name, kw, x, y, seed)
    te = x.iloc[np.sort(rng.choice(len(x), 40, replace=False))]
    p = N.quiet(net.predict, te)
    tag = '%s %s' % (name, {k: v for k, v in kw.items() if k not in ('causal_df', 'objective_fun', 'q_vect')})
    m.say(cls=name, settings=tag[:280], rows=len(x))
    m.check(list(p.columns) == list(y.columns) and p.index.equals(te.index), 'labels', '%s: %s' % (name, list(p.columns)))
    m.check(np.isfinite(p.values).all(), 'finite', tag)
    if p.values.std(axis=0).max() > 0:
        m.nontrivial(name, round(float(p.values.mean()), 6))
    q = quantiles(m, net, te)
    if name != 'StructuredPICNN':
        df = N.quiet(net.predict_quantiles, te)
        m.check(isinstance(df, pd.DataFrame) and df.shape == (len(te), T * len(kw['q_vect'])), 'quantile_table', '%s: %s' % (name, type(df)))
        if isinstance(df, pd.DataFrame):
            m.check([c[0] for c in df.columns] == list(np.repeat(list(y.columns), len(kw['q_vect']))) and
                    np.allclose([c[1] for c in df.columns], np.tile(kw['q_vect'], T)), 'quantile_table', '%s: %s' % (name, list(df.columns)[:4]))
            m.close(N.quiet(net.predict_quantiles, te, dataframe=False).reshape(len(te), -1), df.values, 'quantile_table', name)
            q = df.values
        defn(m, net, name, kw, x, y, te, p, q)
    # each row on its own, in any order, and nothing is modified
    before = te.copy()
    perm = rng.permutation(len(te))[:17]
    m.close(N.quiet(net.predict, te.iloc[perm]).values, p.values[perm], 'rows', tag, rtol=1e-4, atol=1e-4 * np.abs(p.values).max())
    one = te.iloc[perm[:1]].copy()
    one0 = one.copy()
    for _ in range(2):
        m.close(N.quiet(net.predict, one).values, p.values[perm[:1]], 'rows', tag, rtol=1e-4, atol=1e-4 * np.abs(p.values).max())
    quantiles(m, net, one)
    m.frame_same(one, one0, 'pure', tag + ' one row', rtol=0, atol=0)
    m.frame_same(te, before, 'pure', tag, rtol=0, atol=0)
    m.frame_same(N.quiet(net.predict, te), p, 'pure', tag, rtol=0, atol=0)
    if what in ('saved', 'probabilistic'):
        saved(m, rng, net, name, kw, te, p, q, x)
    small = 1e-6 * np.abs(p.values).max()
    if what == 'again':
        b = N.fitted(name, kw, x, y, seed)
        m.frame_same(N.quiet(b.predict, te), p, 'reproducible', tag, rtol=1e-6, atol=small)
        m.close(quantiles(m, b, te), q, 'reproducible', tag, rtol=1e-6, atol=small)
    if what == 'refit':
        c = N.fitted(name, kw, x.iloc[::2] * 2.0 + 1.0, y.iloc[::2] * -1.5 + 7, seed + 5)
        N.fit(c, x, y, seed)
        m.frame_same(N.quiet(c.predict, te), p, 'refit', tag, rtol=1e-6, atol=small)
        m.close(quantiles(m, c, te), q, 'refit', tag, rtol=1e-6, atol=small)
    if what == 'scaled' and kw.get('normalize_target', True) and name != 'CausalInvertibleNN':
        b = N.fitted(name, unbounded(kw), x, y, seed)
        c = N.fitted(name, unbounded(kw), x, y * 4.0, seed)    # a power of two: the scaled targets are the same numbers
        pb = N.quiet(b.predict, te)
        m.close(N.quiet(c.predict, te).values, pb.values * 4.0, 'scaled_units', tag, rtol=1e-6, atol=1e-6 * np.abs(pb.values).max())
        m.close(quantiles(m, c, te), quantiles(m, b, te) * 4.0, 'scaled_units', tag, rtol=1e-5, atol=1e-5 * np.abs(pb.values).max())
    if what == 'shifted' and kw.get('normalize_target', True) and name != 'CausalInvertibleNN':
        k2 = gentle(kw)
        off = float(rng.choice([-300, 40, 1000])) * float(y.values.std())
        b, c = N.fitted(name, k2, x, y, seed), N.fitted(name, k2, x, y + off, seed)
        pb, pc = N.quiet(b.predict, te).values, N.quiet(c.predict, te).values
        m.close((pc - off - pb) / y.values.std(), np.zeros_like(pb), 'shifted_units', tag, rtol=0, atol=2e-2)
        qb, qc = quantiles(m, b, te), quantiles(m, c, te)
        m.close((qc - off - qb) / y.values.std(), np.zeros_like(qb), 'shifted_units', tag + ' (quantiles)', rtol=0, atol=4e-2)
    if what == 'inputs' and not kw.get('unnormalized_inputs') and name not in ('CausalInvertibleNN', 'LSTMNN'):
        s = 2.0 ** rng.integers(-3, 4, x.shape[1])
        c = N.fitted(name, kw, x * s, y, seed)
        pc = N.quiet(c.predict, te * s)
        m.close(pc.values, p.values, 'input_units', tag, rtol=1e-5, atol=1e-5 * np.abs(p.values).max())
    if what == 'heldout' and kw.get('val_ratio'):
        k2 = dict(kw, stats_step=10 ** 6)          # no early stopping
        n_tr = len(x) - int(len(x) * kw['val_ratio'])
        x2, y2 = x.copy(), y.copy()
        x2.iloc[n_tr:] += rng.normal(0, 3, x2.iloc[n_tr:].shape)
        y2.iloc[n_tr:] += rng.normal(0, 30, y2.iloc[n_tr:].shape) + 100
        b, c = N.fitted(name, k2, x, y, seed), N.fitted(name, k2, x2, y2, seed)
        m.close(N.quiet(c.predict, te).values, N.quiet(b.predict, te).values, 'held_out', tag, rtol=1e-6, atol=1e-6)
    N.clear()


def unbounded(kw):
    return {k: v for k, v in kw.items() if k not in ('z_min', 'z_max')}


def gentle(kw):
    """few steps and no early stopping, so that rounding does not grow"""
    return dict(unbounded(kw), n_epochs=1, learning_rate=1e-3, stats_step=10 ** 6, batch_size=60)


def defn(m, net, name, kw, x, y, te, p, q):
    """what the quantiles are"""
    T, Q = y.shape[1], len(kw['q_vect'])
    q = q.reshape(len(te), T, Q)
    m.check((np.diff(q, axis=2) >= -1e-6 * np.abs(q).max()).all(), 'quantiles_ordered', name)
    if kw.get('probabilistic'):
        xin, _ = net.get_normalized_inputs(te)
        raw = np.asarray(net.predict_batch(net.pars, xin), float)
        mu, s2 = raw[:, :T], raw[:, T:]
        sc, me = (net.target_scaler.scale_, net.target_scaler.mean_) if kw['normalize_target'] else (1.0, 0.0)
        want = (mu * sc + me)[:, :, None] + (np.sqrt(s2) * sc)[:, :, None] * norm.ppf(np.asarray(kw['q_vect']))[None, None, :]
        m.close(q, want, 'probabilistic_quantiles', name, rtol=1e-4, atol=1e-4 * np.abs(want).max())
        m.check((s2 > 0).all(), 'variance_positive', name)
        return
    n_tr = len(x) - int(len(x) * kw['val_ratio']) if kw.get('val_ratio') else 0
    xv, yv = x.iloc[n_tr:], y.iloc[n_tr:]
    r = yv.values - N.quiet(net.predict, xv).values
    e = M.residual_quantiles(r, np.asarray(xv.index.hour), kw['q_vect'], kw['conditional_to_hour'], np.asarray(te.index.hour))
    m.close(q, p.values[:, :, None] + e, 'residual_quantiles', name, rtol=1e-5, atol=1e-5 * np.abs(p.values).max() + 1e-7)


def saved(m, rng, net, name, kw, te, p, q, x):
    sc = None
    if not (name == 'StructuredPICNN') and rng.random() < 0.7:
        r = int(rng.integers(1000))
        sc = np.asarray(N.quiet(net.predict_scenarios, te.iloc[:3], n_scen=7, random_state=r))
    with N.scratch() as d:
        cur = net
        for k in range(1 + int(rng.integers(2))):
            cur.save('%s/m%d.pk' % (d, k))
            cur = N.cls(name)(load_path='%s/m%d.pk' % (d, k), **N.loader(name, kw))
        m.frame_same(N.quiet(cur.predict, te), p, 'loaded_forecast', '%s after %d save/load' % (name, k + 1), rtol=0, atol=0)
        m.close(quantiles(m, cur, te), q, 'loaded_quantiles', name, rtol=0, atol=0)
        if sc is not None:
            m.close(np.asarray(N.quiet(cur.predict_scenarios, te.iloc[:3], n_scen=7, random_state=r)), sc, 'loaded_scenarios', name, rtol=1e-6, atol=1e-6 * np.abs(sc).max())
        a, b = net.get_params(), cur.get_params()
        bad = [k for k in a if k not in ('load_path', 'pars') and not same(a[k], b.get(k))]
        m.check(not bad, 'loaded_params', '%s: %s' % (name, [(k, a[k], b.get(k)) for k in bad[:3]]))
        # a file written by another model does not mix with the settings of the new object
        if rng.random() < 0.3 and name in ('NN', 'FFNN', 'PICNN'):
            o = N.cls(name)(n_out=kw['n_out'] + 1, n_hidden_x=33, n_layers=4, q_vect=[0.2, 0.8], learning_rate=0.5, load_path='%s/m0.pk' % d)
            m.frame_same(N.quiet(o.predict, te), p, 'loaded_forecast', '%s into an object built with other settings' % name, rtol=0, atol=0)
            m.close(quantiles(m, o, te), q, 'loaded_quantiles', name, rtol=0, atol=0)


WORKLOADS = [W(k, functools.partial(case, k), quick=q, thorough=15 * q, timeout=240) for k, q in
             dict(saved=9, probabilistic=2, again=3, refit=3, scaled=3, shifted=2, inputs=3, heldout=3).items()]
