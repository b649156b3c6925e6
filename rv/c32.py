"""C32 invertible networks: encode/decode round trips, causality of the encoding, activations and their inverses, forecasts recomputed from the encodings."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import nets as N

PROP = 'C32'
RULE = ('one case = activation or layer stack with random or trained weights, signal width, amplitude and dataset; encodings are decoded back, signals are perturbed after '
        'every step, forecasts are recomputed from the encodings; non-trivial: the encoding differs from the signal')
REQUIRED = {'activation_inverse': 40, 'activation_increasing': 40, 'layer_round_trip': 15, 'stack_round_trip': 15, 'causal': 50, 'api_round_trip': 1,
            'api_causal': 5, 'forecast_from_encoding': 5, 'training_objective': 5, 'exogenous_order': 2, 'embed_round_trip': 5}
QUICK_S = 240


def activations(m, rng, tier):
    import jax.numpy as jnp
    from pyforecaster.forecasting_models.neural_models import layers as L
    n = 4000
    mag = 10.0 ** rng.uniform(-4, 4.5, n)
    x = np.sort(np.concatenate([mag * rng.choice([-1, 1], n), [0.0]])).astype(np.float32)

    def one(name, f, g, x, rtol, atol):
        y = np.asarray(f(jnp.asarray(x)), float)
        back = np.asarray(g(jnp.asarray(y, dtype=jnp.float32)), float)
        m.check(np.isfinite(back).all(), 'inverse_finite', '%s: %d not finite, first at x=%r' % (name, (~np.isfinite(back)).sum(), x[~np.isfinite(back)][:1]))
        m.close(back, x, 'activation_inverse', name, rtol=rtol, atol=atol)
        m.check((np.diff(y) >= -1e-6 * np.abs(y[1:]) - 1e-7).all() and (np.diff(y[::40]) > 0).mean() > 0.9, 'activation_increasing', name)
        m.nontrivial(name, int(x.size), float(y[0]))
    one('linloglin', L.linloglin, L.linloglin_inverse, x, 2e-4, 2e-6)
    k = float(rng.integers(1, 40))
    one('linloglin k=%s' % k, lambda v: L.linloglin(v, k), lambda v: L.linloglin_inverse(v, k), x, 1e-3, 1e-5)
    a, c = float(rng.uniform(0.2, 3)), float(rng.uniform(0.3, 3))
    # the inverse saturates its exponent on purpose: |log(x/a)| below 12
    z = x[(np.abs(x) < a * np.exp(11)) & (np.abs(x) > 1e-6)]
    one('invcondiff', L.invcondiff, L.invcondiff_inverse, z[np.abs(z) < np.exp(11)], 2e-4, 2e-6)
    one('invcondiff a=%.2f c=%.2f' % (a, c), lambda v: L.invcondiff(v, a, c), lambda v: L.invcondiff_inverse(v, a, c), z, 2e-3, 1e-5)
    import jax
    s = x[(x > -4) & (x < 1e4)]
    one('softplus', jax.nn.softplus, L.inverse_softplus, s, 2e-3, 2e-4)
    # pieces meet: no jump at the borders
    for f, b in ((lambda v: L.linloglin(v, k), [0.0, k, -k]), (lambda v: L.invcondiff(v, a, c), [a, -a])):
        for p in b:
            e = 1e-3 * max(1.0, abs(p))
            d = np.asarray(f(jnp.asarray([p - e, p, p + e], dtype=jnp.float32)), float)
            m.check(np.abs(np.diff(d)).max() <= 3.5 * e * max(1, c), 'continuous', 'jump %s at %s' % (d, p))


def signal(rng, n, F):
    s = rng.normal(0, 1, (n, F)).cumsum(axis=1)
    return (s * float(rng.choice([0.05, 1.0, 10.0, 300.0])) + float(rng.choice([0, 0, 5, -200]))).astype(np.float32)


def randomized(pars, rng, scale):
    import jax
    leaves, tree = jax.tree_util.tree_flatten(pars)
    return jax.tree_util.tree_unflatten(tree, [np.asarray(rng.normal(0, scale, v.shape), dtype=np.float32) for v in leaves])


def rt_close(m, back, x, mech, msg):
    size = np.abs(x).max(axis=1, keepdims=True) + 1e-3
    m.close(np.asarray(back, float) / size, np.asarray(x, float) / size, mech, msg, rtol=0, atol=3e-3)


def causality(m, rng, f, x, z, msg, event='causal'):
    """changing the steps from j on leaves the encoding of the steps before j as it was"""
    F = x.shape[1]
    for j in sorted(set(rng.integers(1, F, 3))):
        x2 = x.copy()
        x2[:, j:] += rng.normal(0, 3 * np.abs(x).max() + 1, x2[:, j:].shape).astype(np.float32)
        z2 = np.asarray(f(x2), float)
        size = np.abs(np.asarray(z)).max() + 1e-6
        m.close(z2[:, :j] / size, np.asarray(z, float)[:, :j] / size, event, '%s: step %d of %d' % (msg, j, F), rtol=1e-5, atol=1e-6)
        m.check(np.abs(z2[:, j:] - np.asarray(z)[:, j:]).max() > 0, 'sensitive', '%s' % msg)


def layers(m, rng, tier):
    import jax
    import jax.numpy as jnp
    from functools import partial
    from flax import linen as nn
    from pyforecaster.forecasting_models.neural_models import layers as L
    from pyforecaster.forecasting_models.neural_models.INN import CausalInvertibleModule
    for _ in range(2):
        F = int(rng.integers(2, 30))
        x = signal(rng, 12, F)
        act = ['linloglin', 'leaky', 'invcondiff', 'linloglin'][rng.integers(4)]
        fn = dict(linloglin=L.linloglin, leaky=partial(nn.leaky_relu, negative_slope=0.01), invcondiff=L.invcondiff)[act]
        last = bool(rng.random() < 0.3)
        sc = float(rng.choice([0.1, 1.0]))
        lay = L.CausalInvertibleLayer(features=F, scaling_factor=sc, activation=fn, prediction_layer=last)
        pars = randomized(lay.init(jax.random.key(0), jnp.ones(F)), rng, float(rng.choice([0.1, 2.0])))
        msg = '%s layer of %d, scaling %s, last %s' % (act, F, sc, last)
        if act == 'invcondiff' and np.abs(x).max() > 5e3:
            x = x / 100
        z = np.asarray(jax.vmap(lambda v: lay.apply(pars, v))(x))
        z_b = np.asarray(lay.apply(pars, jnp.asarray(x), method=lay.predict))
        m.close(z, z_b, 'batch_and_single', msg, rtol=1e-4, atol=1e-4 * np.abs(z).max())
        rt_close(m, lay.apply(pars, jnp.asarray(z_b), method=lay.invert), x, 'layer_round_trip', msg)
        causality(m, rng, lambda v: lay.apply(pars, jnp.asarray(v), method=lay.predict), x, z_b, msg)
        nl = int(rng.integers(1, 5))
        mod = CausalInvertibleModule(num_layers=nl, features=F, scaling_factor=sc)
        pars = randomized(mod.init(jax.random.key(0), jnp.ones(F)), rng, float(rng.choice([0.1, 1.0])))
        x = signal(rng, 12, F)
        if nl > 3 and np.abs(x).max() > 100:
            x = x / 100
        msg = 'stack of %d layers of %d, scaling %s' % (nl, F, sc)
        z = np.asarray(mod.apply(pars, jnp.asarray(x), method=mod.predict))
        m.close(np.asarray(jax.vmap(lambda v: mod.apply(pars, v))(x)), z, 'batch_and_single', msg, rtol=1e-4, atol=1e-4 * np.abs(z).max())
        rt_close(m, mod.apply(pars, jnp.asarray(z), method=mod.invert), x, 'stack_round_trip', msg)
        causality(m, rng, lambda v: mod.apply(pars, jnp.asarray(v), method=mod.predict), x, z, msg)
        if np.abs(z - x).max() > 0.1 * np.abs(x).max():
            m.nontrivial(act, F, nl, round(float(z.max()), 4))
    N.clear()


def embedding_frame(rng, n, F):
    idx = pd.date_range('2021-03-01', periods=n, freq='15min', tz='UTC')
    s = np.sin(np.arange(n + F) / 7.0) * float(rng.uniform(0.5, 3)) + rng.normal(0, 0.3, n + F)
    s = (s * float(rng.choice([0.3, 1.0, 10.0]))) + float(rng.choice([0, 2]))
    v = np.lib.stride_tricks.sliding_window_view(s, F)[:n]
    return pd.DataFrame(v.copy(), index=idx, columns=['e_%02d' % i for i in range(F)])


def api(m, rng, tier):
    from pyforecaster.forecasting_models.neural_models import INN
    mode = ['none', 'full', 'quasi'][rng.integers(3)]
    n_out = int(rng.integers(2 if mode == 'quasi' else 1, 5))     # the quasi objective compares neighbouring steps
    n_end = n_out + int(rng.integers(1, 10))
    e = embedding_frame(rng, int(rng.integers(150, 260)), n_end + n_out)
    seed = int(rng.integers(1 << 30))
    kw = dict(learning_rate=float(rng.choice([1e-4, 1e-3])), batch_size=32, n_layers=int(rng.integers(1, 4)), n_epochs=int(rng.integers(1, 4)), rel_tol=-1,
              stats_step=5, scaling_factor=float(rng.choice([0.1, 1.0])), n_prediction_layers=int(rng.integers(2, 4)), n_hidden_y=int(rng.integers(4, 12)))
    rows = e.iloc[rng.integers(0, len(e), 25)].sort_index()
    rows = rows[~rows.index.duplicated()]
    if mode == 'none':
        F = e.shape[1]
        net = INN.CausalInvertibleNN(n_in=F, n_out=F, end_to_end=mode, **kw)
        N.fit(net, e, e, seed)
        z = N.quiet(net.predict, rows)
        m.say(mode=mode, features=F, settings=str(kw))
        back = N.quiet(net.invert, z)
        m.check(back.index.equals(rows.index) and list(back.columns) == list(rows.columns), 'api_labels', 'decoded table: index %s' % back.index[:2])
        rt_close(m, back.values, rows.values, 'api_round_trip', 'n_layers %d' % kw['n_layers'])
        causality(m, rng, lambda v: N.quiet(net.predict, pd.DataFrame(v, index=rows.index, columns=rows.columns)).values, rows.values, z.values, 'api', 'api_causal')
        m.nontrivial('none', F, round(float(z.values.max()), 5))
        if rng.random() < 0.4:
            with N.scratch() as d:
                net.save(d + '/m.pk')
                l = INN.CausalInvertibleNN(load_path=d + '/m.pk', n_in=F, n_out=F)
            m.frame_same(N.quiet(l.invert, z), back, 'loaded_inverse', 'after loading')
        N.clear()
        return
    n_ex = int(rng.integers(0, 4))
    ex = pd.DataFrame(rng.normal(0, 1, (len(e), n_ex)), index=e.index, columns=['x_%d' % i for i in range(n_ex)])
    hist, y = e.iloc[:, :n_end], e.iloc[:, n_end:]
    x = pd.concat([hist, ex], axis=1)
    order = list(hist.columns)
    for c in ex.columns:       # exogenous columns anywhere among the others
        order.insert(int(rng.integers(0, len(order) + 1)), c)
    x = x[order]
    net = INN.CausalInvertibleNN(n_in=n_end + n_ex, n_out=n_out, end_to_end=mode, names_exogenous=list(ex.columns) if n_ex else None, **kw)
    N.fit(net, x, y, seed)
    xr = x.loc[rows.index]
    p = N.quiet(net.predict, xr)
    m.say(mode=mode, endogenous=n_end, exogenous=n_ex, n_out=n_out, settings=str(kw))
    m.check(list(p.columns) == list(y.columns) and p.index.equals(xr.index), 'api_labels', '%s' % list(p.columns))
    v = xr[list(ex.columns) + list(hist.columns)].values
    emb = np.asarray(INN.embed(net.pars, v, net.model), float)
    rt_close(m, INN.invert(net.pars, emb.astype(np.float32), net.model), hist.loc[rows.index].values, 'embed_round_trip', '%s' % mode)
    causality(m, rng, lambda u: INN.embed(net.pars, np.hstack([v[:, :n_ex], u]), net.model), hist.loc[rows.index].values, emb, mode, 'api_causal')
    hat = np.asarray(net.predict_batch(net.pars, v), float)
    m.check(hat.shape == (len(xr), n_out), 'encoding_shape', '%s' % (hat.shape,))
    fut = np.hstack([emb[:, n_out:], hat]).astype(np.float32)
    dec = np.asarray(INN.invert(net.pars, fut, net.model), float)[:, -n_out:]
    size = np.abs(dec).max() + np.abs(hist.values).max()
    m.close(p.values / size, dec / size, 'forecast_from_encoding', mode, rtol=0, atol=2e-4)
    # encoding the decoded forecast gives the forecast encoding back: forecasts are signals in the units of the data
    full = np.asarray(INN.invert(net.pars, fut, net.model), float)
    again = np.asarray(INN.embed(net.pars, np.hstack([v[:, :n_ex], full]), net.model), float)
    rt_close(m, again, fut, 'encoding_of_forecast', mode)
    # the objective of the training is the error of the forecasts which predict returns
    xa, ya = x[list(ex.columns) + list(hist.columns)].values, y.values
    loss = float(net.loss_fn(net.pars, xa, ya))
    pa = N.quiet(net.predict, x).values
    if mode == 'full':
        want = float(np.mean((pa - ya) ** 2))
    else:
        F = np.asarray(INN.embed(net.pars, np.hstack([xa[:, :n_ex], np.hstack([hist.values[:, n_out:], ya])]), net.model), float)[:, -n_out:]
        eh = np.asarray(net.predict_batch(net.pars, xa), float)
        want = None if n_ex or n_out < 2 else float(np.mean((F - eh) ** 2) / np.mean((F - np.roll(F, 1, axis=1)) ** 2))
    if want is None:
        m.ev('training_objective')
    else:
        m.close(loss, want, 'training_objective', mode, rtol=2e-2, atol=1e-5)
    if n_ex:
        p2 = N.quiet(net.predict, xr[list(hist.columns) + [str(c) for c in rng.permutation(list(ex.columns))]])
        m.frame_same(p2, p, 'exogenous_order', mode, rtol=1e-5, atol=1e-5)
    if mode and net.pars is not None:
        hidden = [np.asarray(k).shape for k in _kernels(net.pars['params'].get('predictor', {}))]
        m.check(any(kw['n_hidden_y'] in s for s in hidden) or not hidden or kw['n_prediction_layers'] < 2, 'prediction_neurons',
                'asked %d neurons, kernels %s' % (kw['n_hidden_y'], hidden))
    m.nontrivial(mode, n_end, n_ex, round(float(p.values.max()), 5))
    N.clear()


def _kernels(t):
    out = []
    for k, v in t.items():
        if isinstance(v, dict):
            out += _kernels(v)
        elif k == 'kernel':
            out.append(v)
    return out


WORKLOADS = [
    W('activations', activations, quick=12, thorough=200),
    W('layers', layers, quick=12, thorough=120),
    W('api', api, quick=18, thorough=300, timeout=200),
]
