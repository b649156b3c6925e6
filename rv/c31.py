"""C31 partially input-convex networks: convexity, quasi-convexity, bounds and monotonicity observed on the forecasts of many weights; input optimization."""
import numpy as np
import pandas as pd
from rv.common import W
from rv import nets as N

PROP = 'C31'
RULE = ('one case = network class, architecture, training options, dataset; the forecasts are observed for the initial weights, for the weights met during the '
        'training, for the trained, refitted and reloaded weights, at batches of wide and narrow point triples; non-trivial: the weights moved and the forecasts are not affine')
REQUIRED = {'convex': 700, 'quasi_convex': 120, 'monotone': 300, 'in_bounds': 3, 'during_training': 12, 'nonlinear': 10, 'optimize': 15, 'optimize_value': 6,
            'latent_convex': 100, 'decoder_monotone': 50}
QUICK_S = 240
TOL = 2e-4


def frame(x, rows, opt, pts):
    f = x.iloc[rows].copy()
    f[opt] = pts
    return f


def points(rng, x, opt, n):
    """pairs of points in the units of the optimization variables: narrow, wide, along one axis, extreme"""
    mu, sd = x[opt].mean().values, x[opt].std().values + 1e-9
    w = rng.choice([0.3, 1.0, 5.0, 20.0], (n, 1))
    a = mu + sd * w * rng.normal(0, 1, (n, len(opt)))
    b = mu + sd * w * rng.normal(0, 1, (n, len(opt)))
    one = rng.random(n) < 0.3
    keep = np.zeros((n, len(opt)), bool)
    keep[np.arange(n), rng.integers(0, len(opt), n)] = True
    b[one] = np.where(keep[one], b[one], a[one])
    return a, b


def observe(m, rng, net, x, kw, name, when, n=60):
    opt = list(kw['optimization_vars'])
    rows = rng.integers(0, len(x), n)
    a, b = points(rng, x, opt, n)
    lam = np.where(rng.random(n) < 0.5, 0.5, rng.random(n))[:, None]
    big = pd.concat([frame(x, rows, opt, p) for p in (a, b, lam * a + (1 - lam) * b)])
    p = N.quiet(net.predict, big).values
    fa, fb, fm = p[:n], p[n:2 * n], p[2 * n:]
    # single precision arithmetic on forecasts shifted by the scaler of the targets
    size = np.maximum(np.abs(p).max(axis=0), 1e-6)
    spread = np.maximum(np.abs(fa), np.maximum(np.abs(fb), np.abs(fm)))
    tol = TOL * np.maximum(spread, 1e-3 * size) + 1e-6 * size + 1e-7
    m.check(np.isfinite(p).all(), 'forecasts_finite', '%s %s' % (name, when))
    if not np.isfinite(p).all():
        return
    bounded = kw.get('z_min') is not None
    if name in ('PICNN', 'RecStablePICNN') and not bounded:
        over = fm - (lam * fa + (1 - lam) * fb) - tol
        m.ev('convex', n)
        m.check(over.max() <= 0, 'convex', '%s %s: forecast above the chord by %.3g (scale %.3g)' % (name, when, over.max(), size.max()), event='convex')
        curv = (lam * fa + (1 - lam) * fb) - fm
        if (curv > 10 * tol).any():
            m.ev('nonlinear')
            m.nontrivial(name, when, float(curv.max()))
    if bounded:
        over = fm - np.maximum(fa, fb) - tol
        if name in ('PICNN', 'RecStablePICNN'):
            m.ev('quasi_convex', n)
            m.check(over.max() <= 0, 'quasi_convex', '%s %s: bounded forecast above both ends by %.3g' % (name, when, over.max()), event='quasi_convex')
        lo, hi = np.asarray(kw['z_min'], float), np.asarray(kw['z_max'], float)
        if kw['normalize_target']:
            s = net.target_scaler
            lo, hi = lo * s.scale_ + s.mean_, hi * s.scale_ + s.mean_
        m.check((p >= lo - 1e-4 * (hi - lo) - 1e-5 * size).all() and (p <= hi + 1e-4 * (hi - lo) + 1e-5 * size).all(), 'in_bounds',
                '%s %s: forecasts in [%s, %s], bounds [%s, %s]' % (name, when, p.min(0), p.max(0), lo, hi))
    if name in ('PIQCNNSigmoid', 'StructuredPICNN') and not kw['augment_ctrl_inputs']:
        lo_, hi_ = np.minimum(a, b), np.maximum(a, b)
        q = N.quiet(net.predict, pd.concat([frame(x, rows, opt, lo_), frame(x, rows, opt, hi_)])).values
        down = q[:n] - q[n:] - tol
        m.ev('monotone', n)
        m.check(down.max() <= 0, 'monotone', '%s %s: forecast decreases by %.3g' % (name, when, down.max()), event='monotone')
        if (q[n:] - q[:n] > 10 * tol).any():
            m.ev('nonlinear')
            m.nontrivial(name, when, float(q[n:].max() - q[:n].min()))


def latent(m, rng, net, x, kw, when):
    import jax
    from functools import partial
    from pyforecaster.forecasting_models.neural_models.ICNN import latent_pred, decode
    n, E = 60, kw['n_embeddings']
    (xx, _), _ = net.get_normalized_inputs(x.iloc[rng.integers(0, len(x), n)])
    w = rng.choice([0.3, 1.0, 5.0, 20.0], (n, 1))
    a, b = w * rng.normal(0, 1, (n, E)), w * rng.normal(0, 1, (n, E))
    lam = np.where(rng.random(n) < 0.5, 0.5, rng.random(n))[:, None]
    f = jax.vmap(lambda u, e: latent_pred(net.pars, net.model, u, e))
    g = jax.vmap(lambda u, e: decode(net.pars, net.model, u, e))
    fa, fb, fm = (np.asarray(f(xx, e), float) for e in (a, b, lam * a + (1 - lam) * b))
    tol = TOL * np.maximum(np.abs(fa), np.abs(fb)) + 1e-5
    over = fm - (lam * fa + (1 - lam) * fb) - tol
    m.ev('latent_convex', n)
    m.check(over.max() <= 0, 'latent_convex', '%s: forecast above the chord in the embedding by %.3g' % (when, over.max()), event='latent_convex')
    if ((lam * fa + (1 - lam) * fb) - fm > 10 * tol).any():
        m.ev('nonlinear')
        m.nontrivial('latent', when, float(fa.max()))
    if kw['augment_ctrl_inputs']:
        return      # the decoder sees the embedding and its opposite
    ga, gb = (np.asarray(g(xx, e), float) for e in (np.minimum(a, b), np.maximum(a, b)))
    down = ga - gb - TOL * np.maximum(np.abs(ga), np.abs(gb)) - 1e-5
    m.ev('decoder_monotone', n)
    m.check(down.max() <= 0, 'decoder_monotone', '%s: decoded control decreases by %.3g' % (when, down.max()), event='decoder_monotone')


def spy_training(net, keep):
    """record the weights of the evaluations done during the training (the evaluation itself is untouched)"""
    import copy
    inner = net.loss_fn

    def loss(pars, *a, **k):
        if len(keep) < 40:
            keep.append(copy.deepcopy(pars) if isinstance(pars, dict) else pars)
        return inner(pars, *a, **k)
    net.loss_fn = loss
    return inner


def case(m, rng, tier, name=None):
    name = name or ['PICNN', 'PICNN', 'RecStablePICNN', 'PIQCNNSigmoid', 'StructuredPICNN'][rng.integers(5)]
    x, y = N.data(rng)
    kw = N.convex_settings(rng, x, y, name)
    seed = int(rng.integers(1 << 30))
    net = N.cls(name)(**kw)
    obs = (lambda nt, when: latent(m, rng, nt, x, kw, when)) if name == 'LatentStructuredPICNN' else \
        (lambda nt, when: observe(m, rng, nt, x, kw, name, when))
    keep = []
    inner = spy_training(net, keep)
    N.fit(net, x, y, seed)
    net.loss_fn = inner
    m.say(cls=name, settings=str({k: v for k, v in kw.items() if k not in ('causal_df', 'objective_fun')})[:280], rows=len(x), weights_seen=len(keep))
    obs(net, 'after the training')
    trained = net.pars
    for i in sorted(set(rng.integers(0, len(keep), 3))) if keep else []:
        net.pars = keep[i]
        m.ev('during_training')
        obs(net, 'during the training')
    net.pars = net.init_arch(net.model, *[np.squeeze(v.shape[1:]) for v in net.get_normalized_inputs(x)[0]])
    obs(net, 'initial weights')
    net.pars = trained
    if rng.random() < 0.4:
        N.fit(net, x * 1.5 + 0.3, y * 3 - 1, seed + 1, n_epochs=int(rng.integers(1, 3)))
        obs(net, 'after a refit')
    if rng.random() < 0.4:
        with N.scratch() as d:
            net.save(d + '/m.pk')
            k2 = {'objective_fun': N.jobjective} if name == 'StructuredPICNN' else {}
            net = N.cls(name)(load_path=d + '/m.pk', **k2)
        obs(net, 'reloaded')
    if name != 'LatentStructuredPICNN':
        if not kw.get('probabilistic'):
            optimize(m, rng, net, x, kw, name)
    N.clear()


def optimize(m, rng, net, x, kw, name):
    import jax.numpy as jnp
    opt = list(kw['optimization_vars'])
    T = kw['n_out']
    ref = rng.normal(0, 1, T)
    wgt = float(rng.choice([0, 0.01, 1.0]))

    def objective(p, c, goal=0.0):
        return jnp.mean((p - ref - goal) ** 2) + wgt * jnp.sum(c ** 2)

    def value(row, **k):
        p = np.asarray(N.quiet(net.predict, row), float)
        if net.normalize_target:
            p = (p - net.target_scaler.mean_) / net.target_scaler.scale_
        c = np.asarray(net.get_normalized_inputs(row)[0][1], float)
        return float(objective(p, c, **k))
    start = x.iloc[[int(rng.integers(len(x)))]]
    for rep in range(2):
        k = {} if rep == 0 else {'goal': float(rng.normal())}
        before = start.copy()
        r = N.quiet(net.optimize, start, objective, n_iter=int(rng.choice([10, 40, 120])), recompile_obj=bool(rep == 0 or rng.random() < 0.5),
                    vanilla_gd=bool(rng.random() < 0.2), rel_tol=[None, 1e-4, -1e9][rng.integers(3)], **k)
        y_opt, inputs, target, val = r
        m.frame_same(start, before, 'caller_row', '%s' % name)
        m.ev('optimize')
        other = [c for c in x.columns if c not in opt]
        m.check(list(inputs.columns) == list(x.columns) and inputs.index.equals(start.index), 'optimized_labels', '%s' % list(inputs.columns))
        m.close(inputs[other].values, start[other].values, 'other_inputs_kept', '%s' % name, rtol=1e-5, atol=1e-5)
        m.close(np.ravel(y_opt), inputs[opt].values.ravel(), 'optimized_variables', '%s' % name, rtol=1e-6, atol=1e-9)
        m.frame_same(N.quiet(net.predict, inputs), target, 'optimized_forecast', '%s' % name, rtol=1e-5, atol=1e-5)
        v0, v1 = value(start, **k), value(inputs, **k)
        if not (np.isfinite(v0) and np.isfinite(v1)):
            continue
        m.check(v1 <= v0 + 1e-3 * abs(v0) + 1e-5, 'not_worse', '%s: objective %.6g from %.6g, lr %s' % (name, v1, v0, kw['inverter_learning_rate']), event='optimize')
        m.close(float(val), v1, 'optimize_value', '%s: reported objective' % name, rtol=5e-3, atol=1e-4)
        if v1 < v0 * 0.9:
            m.nontrivial('optimized', name, round(v1, 6))


def lat(m, rng, tier):
    case(m, rng, tier, 'LatentStructuredPICNN')


WORKLOADS = [
    W('convex', case, quick=28, thorough=480, timeout=200),
    W('latent', lat, quick=4, thorough=60, timeout=200),
]
