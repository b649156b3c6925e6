"""C34 probabilistic training losses: closed forms against numerically integrated scores, propriety, gradients, network losses."""
import functools
import numpy as np
from scipy import integrate, stats
from rv.common import W
from rv import nets as N

PROP = 'C34'
RULE = ('one case = distribution (normal, log-normal, mirrored log-normal), loss kind, batch of forecast means, spreads and observations over several orders of magnitude, '
        'including the far tails; or a random network whose training loss is recomputed from its predictions; non-trivial: distinct score values')
REQUIRED = {'crps_normal': 60, 'crps_lognormal': 60, 'crps_mirrored': 40, 'likelihood': 60, 'batch_mean': 20, 'proper': 40, 'gradient': 60, 'network_loss': 6, 'scale': 40}
QUICK_S = 120


def loss(mu, y, v, kind, distribution):
    from pyforecaster.forecasting_models.neural_models.base_nn import probabilistic_loss
    import jax.numpy as jnp
    return float(probabilistic_loss(jnp.asarray(mu, dtype='float32'), jnp.asarray(y, dtype='float32'), jnp.asarray(v, dtype='float32'), kind=kind,
                                    distribution=distribution))


def dist(mu, v, distribution):
    """(frozen distribution, mirrored around) of a forecast"""
    if distribution == 'normal':
        return stats.norm(mu, np.sqrt(v))
    s2 = np.log1p(abs(v) / mu ** 2)
    return stats.lognorm(np.sqrt(s2), scale=mu / np.sqrt(1 + abs(v) / mu ** 2))


def integrated(d, y, mirror=False):
    """integral of (F(z) - 1{z >= y})^2 for the distribution, or for its mirror image around the median"""
    if mirror:
        y = 2 * d.median() - y          # mirroring forecast and observation leaves the score unchanged
    lo, hi = d.ppf(1e-12), d.isf(1e-12)
    pts = np.unique(np.clip(d.ppf([1e-6, 1e-3, 0.05, 0.25, 0.5, 0.75, 0.95, 0.999, 1 - 1e-6]), lo, hi))
    total = 0.0
    edges = np.unique(np.concatenate([[lo, hi], pts, [np.clip(y, lo, hi)]]))
    for a, b in zip(edges[:-1], edges[1:]):
        if b <= y:
            total += integrate.quad(lambda z: d.cdf(z) ** 2, a, b, limit=200)[0]
        else:
            total += integrate.quad(lambda z: d.sf(z) ** 2, a, b, limit=200)[0]
    return total + max(y - hi, 0) + max(lo - y, 0)


def draw(rng, distribution):
    """forecast mean, variance, observation"""
    scale = 10.0 ** rng.uniform(-2, 3)
    if distribution == 'normal':
        mu = rng.normal(0, 3) * scale
        sd = scale * 10.0 ** rng.uniform(-1.5, 1.5)
        y = [mu + sd * rng.normal(), mu + sd * rng.uniform(-8, 8), mu + rng.normal() * scale, mu][rng.integers(4)]
        return mu, sd ** 2, y
    mu = scale
    sd = mu * 10.0 ** rng.uniform(-1.5, 0.5)
    d = dist(mu, sd ** 2, 'log-normal')
    med = float(d.median())
    y = [float(d.rvs(random_state=rng)), float(d.ppf(rng.uniform(1e-6, 1 - 1e-6))), med, mu * float(rng.uniform(1.5, 8)), mu * float(rng.uniform(0.01, 0.5))][rng.integers(5)]
    if distribution == 'mirrored':
        return mu, -sd ** 2, 2 * med - y
    return mu, sd ** 2, y


def crps_case(distribution, m, rng, tier):
    name = 'normal' if distribution == 'normal' else 'log-normal'
    vals, rows = [], []
    for _ in range(6):
        mu, v, y = (float(np.float32(k)) for k in draw(rng, distribution))
        if distribution == 'normal':
            d, mirror = dist(mu, v, name), False
        else:
            d, mirror = dist(mu, v, name), distribution == 'mirrored'
        want = integrated(d, y, mirror)
        got = loss(mu, y, v, 'crps', name)
        tol = 2e-5 * (abs(mu) + np.sqrt(abs(v)) + abs(y)) + 1e-4 * abs(want)
        m.say(mean=mu, variance=v, y=y, expected=want, got=got)
        m.close(got, want, 'crps_' + distribution.replace('-', ''), '%s mean %s variance %s observation %s' % (distribution, mu, v, y), rtol=0, atol=tol)
        vals.append(want)
        rows.append((mu, v, y))
        m.nontrivial(distribution, round(want, 5))
    a = np.array(rows).reshape(2, 3, 3)
    scale = np.abs(a).max()
    m.close(loss(a[..., 0], a[..., 2], a[..., 1], 'crps', name), np.mean(vals), 'batch_mean', distribution, rtol=1e-3, atol=1e-4 * np.sqrt(scale) + 1e-4 * np.abs(a[..., [0, 2]]).max())
    # the score is in the units of the observations
    mu, v, y = rows[0]
    c = 2.0 ** rng.integers(-3, 4)
    got, ref = loss(mu * c, y * c, v * c ** 2, 'crps', name), loss(mu, y, v, 'crps', name)
    m.close(got, ref * c, 'scale', distribution, rtol=1e-3, atol=2e-5 * c * (abs(mu) + np.sqrt(abs(v)) + abs(y)))


def likelihood_case(m, rng, tier):
    rows, vals = [], []
    for _ in range(6):
        lognormal = bool(rng.integers(2))
        if lognormal:
            med, y, v = 10.0 ** rng.uniform(-2, 3), None, 10.0 ** rng.uniform(-2, 1)
            y = med * np.exp(np.sqrt(v) * rng.normal() * 2)
            med, y, v = (float(np.float32(k)) for k in (med, y, v))
            # up to what does not depend on the forecast, twice the negative log-likelihood
            f = lambda a, b: -2 * stats.lognorm(np.sqrt(b), scale=a).logpdf(y)
            ref, other = (med, v), (med * np.exp(rng.normal()), v * np.exp(rng.normal()))
            got = loss(*(other[0], y, other[1]), 'maximum_likelihood', 'log-normal') - loss(med, y, v, 'maximum_likelihood', 'log-normal')
        else:
            mu, v, y = (float(np.float32(k)) for k in draw(rng, 'normal'))
            f = lambda a, b: -2 * stats.norm(a, np.sqrt(b)).logpdf(y)
            ref, other = (mu, v), (mu + np.sqrt(v) * rng.normal(), v * np.exp(rng.normal()))
            other = tuple(float(np.float32(k)) for k in other)
            got = loss(other[0], y, other[1], 'maximum_likelihood', 'normal') - loss(mu, y, v, 'maximum_likelihood', 'normal')
        want = f(*other) - f(*ref)
        size = abs(f(*other)) + abs(f(*ref)) + (abs(ref[0]) + abs(y)) ** 2 / min(ref[1], other[1]) * 1e-2 * (not lognormal)
        m.close(got, want, 'likelihood', 'log-normal %s forecast %s against %s, observation %s' % (lognormal, other, ref, y), rtol=1e-3, atol=1e-3 * (1 + size))
        m.nontrivial('ml', round(float(want), 4))


def proper_case(m, rng, tier):
    """in expectation no forecast beats the true distribution"""
    for _ in range(4):
        kind = ['crps', 'maximum_likelihood'][rng.integers(2)]
        name = ['normal', 'log-normal'][rng.integers(2)]
        n = 4000
        p = (np.arange(n) + 0.5) / n
        if name == 'normal':
            mu, v = float(rng.normal(0, 3)), float(10.0 ** rng.uniform(-1, 1))
            y = stats.norm(mu, np.sqrt(v)).ppf(p)
            alt = (mu + np.sqrt(v) * rng.normal(), v)[0], v * np.exp(rng.normal() * 1.0)
        elif kind == 'crps':
            mu, v = 10.0 ** rng.uniform(-1, 1), None
            v = mu ** 2 * 10.0 ** rng.uniform(-1.5, 0.0)
            y = dist(mu, v, name).ppf(p)
            alt = mu * np.exp(0.5 * rng.normal()), v * np.exp(rng.normal())
        else:
            mu, v = 10.0 ** rng.uniform(-1, 1), 10.0 ** rng.uniform(-1.5, 0)
            y = stats.lognorm(np.sqrt(v), scale=mu).ppf(p)
            alt = mu * np.exp(0.5 * rng.normal()), v * np.exp(rng.normal())
        one = np.ones(n)
        true = loss(mu * one, y, v * one, kind, name)
        for a, b in (alt, (mu, alt[1]), (alt[0], v)):
            w = loss(a * one, y, b * one, kind, name)
            m.check(w >= true - 2e-3 * (abs(true) + (np.sqrt(v) if kind == 'crps' else 1)), 'proper',
                    '%s %s: the forecast (%.4g, %.4g) scores %.6g, the true distribution (%.4g, %.4g) %.6g' % (kind, name, a, b, w, mu, v, true))
        m.nontrivial('proper', kind, name, round(true, 4))


def gradient_case(m, rng, tier):
    import jax
    import jax.numpy as jnp
    from pyforecaster.forecasting_models.neural_models.base_nn import probabilistic_loss
    for _ in range(6):
        distribution = ['normal', 'log-normal', 'mirrored'][rng.integers(3)]
        kind = ['crps', 'maximum_likelihood'][rng.integers(2)]
        name = 'normal' if distribution == 'normal' else 'log-normal'
        mu, v, y = (float(np.float32(k)) for k in draw(rng, distribution))
        if rng.random() < 0.35:
            v = float(np.sign(v)) * mu ** 2 * 10.0 ** rng.uniform(-9, -4) if name == 'log-normal' else 10.0 ** rng.uniform(-6, -2)
            y = mu * float(rng.uniform(0.8, 1.2))
        if kind == 'maximum_likelihood' and name == 'log-normal':
            y, v = abs(y) + 1e-3, abs(v) + 1e-6
        f = lambda a, b: probabilistic_loss(a, jnp.float32(y), b, kind=kind, distribution=name)
        val, g = jax.value_and_grad(f, argnums=(0, 1))(jnp.float32(mu), jnp.float32(v))
        m.check(bool(np.isfinite(val)) and all(bool(np.isfinite(k)) for k in g), 'gradient',
                '%s %s mean %s variance %s observation %s: %s, gradient %s' % (kind, distribution, mu, v, y, val, [float(k) for k in g]))
        m.nontrivial('grad', round(float(val), 5))
    # zero spread limit of the normal score is the absolute error
    mu, y = float(rng.normal()), float(rng.normal())
    m.close(loss(mu, y, 1e-10, 'crps', 'normal'), abs(np.float32(mu) - np.float32(y)), 'crps_normal', 'nearly certain forecast', rtol=1e-3, atol=1e-4)


def network_case(m, rng, tier):
    """the loss a network is trained on, recomputed from its own predictions"""
    import jax
    import jax.numpy as jnp
    name = ['NN', 'FFNN', 'PICNN', 'PICNN', 'RecStablePICNN', 'PIQCNN', 'PIQCNNSigmoid', 'StructuredPICNN', 'causal'][rng.integers(9)]
    cname = 'PICNN' if name == 'causal' else name
    T = int(rng.integers(1, 4))
    x, y = N.data(rng, T=T, k=int(rng.integers(3, 6)), n=120)
    kw = N.any_settings(rng, x, y, cname)
    if name == 'causal':
        import pandas as pd
        opt = kw['optimization_vars']
        kw['causal_df'] = pd.DataFrame(rng.integers(0, 2, (len(opt), T)), index=opt, columns=y.columns)
        for c in ('z_min', 'z_max'):
            kw.pop(c, None)
    if cname == 'StructuredPICNN':
        kw.update(probabilistic=bool(rng.integers(2)), probabilistic_loss_kind=['crps', 'maximum_likelihood'][rng.integers(2)], normalize_target=False, val_ratio=0.3)
        if not kw['probabilistic']:
            kw['q_vect'] = None
    try:
        net = N.fitted(cname, kw, x, y, int(rng.integers(1 << 30)))
    except TypeError:
        if cname == 'StructuredPICNN' and not kw['probabilistic']:
            return
        raise
    te = x.iloc[:50]
    xin, tgt = net.get_normalized_inputs(te, y.iloc[:50])
    raw = np.asarray(net.predict_batch(net.pars, xin), float)
    got = float(net.loss_fn(net.pars, xin, jnp.asarray(tgt)))
    prob, kind = bool(kw.get('probabilistic')), kw.get('probabilistic_loss_kind')

    def score(mu, v, t):
        if kind == 'crps':
            s = np.sqrt(v)
            u = (t - mu) / s
            return np.mean(s * (u * (2 * stats.norm.cdf(u) - 1) + 2 * stats.norm.pdf(u) - 1 / np.sqrt(np.pi)))
        return np.mean((mu - t) ** 2 / v + np.log(v))
    if cname == 'StructuredPICNN':
        pred = raw[:, :T]
        o_hat, o = np.mean(pred ** 2, axis=1), np.mean(tgt ** 2, axis=1)
        want = np.mean((pred - tgt) ** 2) - np.corrcoef(np.argsort(o, kind='stable'), np.argsort(o_hat, kind='stable'))[0, 1]
        want += score(o_hat, raw[:, -1], o) if prob else np.mean((o_hat - o) ** 2)
        if not np.isfinite(want):
            return
    else:
        mu = raw[:, :T]
        want = score(mu, raw[:, T:], tgt) if prob else np.mean((mu - tgt) ** 2)
        if kw.get('causal_df') is not None:
            # mean over rows of the mean absolute sensitivity, non-causal pairs... masked by the matrix
            cm = kw['causal_df'].loc[list(net.optimization_vars), list(y.columns)].values.T
            J = np.asarray(jax.vmap(jax.jacfwd(lambda a, b: net.model.apply(net.pars, b, a)), in_axes=(0, 0))(jnp.asarray(xin[1]), jnp.asarray(xin[0])))
            M_ = np.asarray(net_causal(net, cm, J))
            want += np.mean(np.abs(J * M_[None]))
    m.say(cls=name, want=float(want), got=got)
    m.close(got, want, 'network_loss', '%s %s' % (name, {k: kw.get(k) for k in ('probabilistic', 'probabilistic_loss_kind', 'normalize_target')}), rtol=5e-3, atol=1e-4)
    m.nontrivial(name, round(got, 5))
    N.clear()


def reference(mu, y, v, kind):
    if kind == 'crps':
        s = np.sqrt(v)
        u = (y - mu) / s
        return np.mean(s * (u * (2 * stats.norm.cdf(u) - 1) + 2 * stats.norm.pdf(u) - 1 / np.sqrt(np.pi)))
    return np.mean((mu - y) ** 2 / v + np.log(v))


def function_case(m, rng, tier):
    """the training losses over given predictions: any number of rows (one included), both scores, the penalties"""
    import jax.numpy as jnp
    from pyforecaster.forecasting_models.neural_models import ICNN, base_nn
    n, T, U = int(rng.integers(1, 30)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
    if rng.random() < 0.3:
        n = 1
    mu, y, v = rng.normal(0, 3, (n, T)), rng.normal(0, 3, (n, T)), rng.uniform(0.1, 4, (n, T))
    kind = ['crps', 'maximum_likelihood'][rng.integers(2)]
    out = jnp.array(np.hstack([mu, v]))
    got = float(base_nn.probabilistic_loss_fn(None, None, jnp.array(y), model=lambda p, i: out, kind=kind))
    m.close(got, reference(mu, y, v, kind), 'loss_function', lambda: '%s of %d rows and %d steps' % (kind, n, T), rtol=5e-4, atol=1e-4)
    got = float(base_nn.loss_fn(None, None, jnp.array(y), model=lambda p, i: jnp.array(mu)))
    m.close(got, np.mean((mu - y) ** 2), 'loss_function', lambda: 'squared error of %d rows and %d steps' % (n, T), rtol=5e-4, atol=1e-4)
    # the latent network: its forecast, its reconstruction, the forecast from the reconstruction and a latent
    # distribution close to the standard one
    e, u, rec, mu2 = rng.normal(rng.normal(0, 2), rng.uniform(0.3, 2), (n, 3)), rng.normal(size=(n, U)), rng.normal(size=(n, U)), rng.normal(0, 3, (n, T))
    calls = []

    def stub(p, i):
        calls.append(np.asarray(i[1]))
        return (jnp.array(mu), jnp.array(e), jnp.array(rec)) if len(calls) == 1 else (jnp.array(mu2), jnp.array(e), jnp.array(rec))
    got = float(ICNN.embedded_loss_fn(None, [None, jnp.array(u)], jnp.array(y), model=stub))
    base = np.mean((mu - y) ** 2) + np.mean((rec - u) ** 2) + 100 * np.mean((mu - mu2) ** 2)
    forms = [base + np.mean(s2 + e.mean(0) ** 2 - np.log(s2 + 1e-8) - 1) for s2 in (np.mean(e ** 2, 0), np.var(e, 0))]
    m.ev('latent_loss')
    m.check(min(abs(got - f) / (1 + abs(f)) for f in forms) < 1e-3, 'latent_loss', lambda: '%g, either of %s expected' % (got, forms))
    m.check(len(calls) == 2 and np.allclose(calls[1], rec, atol=1e-5), 'latent_loss', 'the second forecast is the one from the reconstruction')
    m.nontrivial(n, T, kind, round(got, 3))


def net_causal(net, cm, J):
    """penalized pairs: those the matrix excludes"""
    M_ = 1 - cm
    return np.tile(M_, (J.shape[1] // cm.shape[0], 1))      # the predicted variances depend on the same inputs


WORKLOADS = [W('normal', functools.partial(crps_case, 'normal'), quick=15, thorough=400),
             W('lognormal', functools.partial(crps_case, 'log-normal'), quick=15, thorough=400),
             W('mirrored', functools.partial(crps_case, 'mirrored'), quick=12, thorough=400),
             W('likelihood', likelihood_case, quick=15, thorough=400),
             W('proper', proper_case, quick=12, thorough=300),
             W('gradient', gradient_case, quick=20, thorough=500),
             W('function', function_case, quick=30, thorough=400),
             W('network', network_case, quick=16, thorough=160)]
