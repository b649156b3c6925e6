"""C43 refusal monitor: requests with exactly one inadmissible setting are refused, their admissible twins are served, and the object
that refused still works as one that was never asked."""
import contextlib
import functools
import io
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D
from rv import models as M
from rv.c01 import build
from rv.c42 import digest, same

PROP = 'C43'
RULE = ('one case = one component with random admissible settings and data; a random inadmissible setting is put in place of one admissible one '
        '(boundary values included); the request must raise, its admissible twin must be served, and after the refusals the object must '
        'return the results of an object that never refused anything; non-trivial: distinct (rule, offending value)')
REQUIRED = {'refused': 900, 'served': 700, 'works_after': 70}
QUICK_S = 220


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*a, **k)


class Ask:
    def __init__(self, m):
        self.m = m

    def bad(self, rule, what, fn):
        self.m.nontrivial(rule, str(what))
        try:
            out = quiet(fn)
        except Exception:
            self.m.ev('refused')
            return
        self.m.ev('refused')
        self.m.check(False, 'accepted: ' + rule, 'request with %s was served: %s' % (what, str(out)[:160]))

    def good(self, rule, what, fn):
        self.m.ev('served')
        try:
            return quiet(fn)
        except Exception as e:
            self.m.check(False, 'rejected: ' + rule, 'admissible request with %s was refused: %r' % (what, e))

    def after(self, rule, got, ref):
        self.m.check(same(digest(got), digest(ref)), 'damaged: ' + rule, 'the object which refused a request gives other results than a fresh one', event='works_after')


class Nameless:
    def __call__(self, v):
        return float(np.mean(v))


def formatter(m, rng, tier):
    from pyforecaster.formatter import Formatter
    a = Ask(m)
    n = int(rng.integers(60, 100))
    idx = D.index(rng, n)
    dt = idx[1] - idx[0]
    x = D.signals(rng, idx)
    specs = D.rand_transforms(rng, list(x.columns), int(rng.integers(1, 3)), 0, 6, dt=dt)
    tgt = [dict(names=['y'], functions=None, agg_freq=None, lags=[-1, -2], relative_lags=False, agg_bins=None)]
    mk = lambda: build(specs, tgt, None)
    f, g = mk(), mk()
    freq = int(rng.integers(2, 5))
    # normalizers look at one target, at one strictly past position
    l = int(rng.integers(1, 6))
    for what, t, lags in [('two targets', ['y', 'a'], None), ('two lags', ['y'], [l, l + 1]), ('lag 0', ['y'], [0]), ('lag %d' % -l, ['y'], [-l]),
                          ('lag 0 as a number', 'y', 0), ('lags past and future', ['y'], [l, -l]), ('no target', [], None)]:
        a.bad('normalizer', what, lambda: f.add_target_normalizer(t, 'mean', agg_freq=freq, lags=lags, name='n1'))
    a.m.check(len(f.target_normalizers) == 0, 'damaged: normalizer', 'a refused normalizer was kept', event='works_after')
    for what, t, lags in [('lag %d' % l, ['y'], [l]), ('a plain name and lag', 'y', l), ('no lag', ['y'], None)]:
        a.good('normalizer', what, lambda: mk().add_target_normalizer(t, 'mean', agg_freq=freq, lags=lags, name='n1'))
    # bins
    e = [int(v) for v in np.sort(rng.choice(12, int(rng.integers(3, 6)), replace=False))]
    k = int(rng.integers(1, len(e) - 1))
    mixed = e[:k + 1] + [e[k] - 1 - int(rng.integers(0, 2))] + e[k + 1:]
    a.bad('bins', mixed, lambda: f.add_transform(['a'], functions=['mean'], agg_bins=mixed))
    for b in (e, e[::-1], np.array(e)):
        a.good('bins', b, lambda: mk().add_transform(['a'], functions=['mean'], agg_bins=b))
    # functions
    for fun in ('mean', np.mean, ('mean', 'max')):
        a.bad('functions', fun, lambda: f.add_transform(['a'], functions=fun, agg_freq=freq))
    a.bad('nameless function', 'callable object', lambda: mk().add_transform(['a'], functions=[Nameless()], agg_freq=freq).transform(x))

    def with_fun(fun):
        h = Formatter().add_transform(['a'], functions=[fun], agg_freq=freq).add_target_transform(['y'], lags=[-1])
        return h.transform(x.copy(), time_features=False)
    for fun in ('mean', np.mean, D.spread, functools.partial(np.quantile, q=0.3)):
        a.good('functions', fun, lambda: with_fun(fun))
    a.bad('nameless function', 'callable object', lambda: with_fun(Nameless()))
    # columns
    miss = [['zz'], ['y', 'zz'], ['zz', 'a'], ['Y']][rng.integers(4)]

    def with_names(c, target):
        h = Formatter()
        h.add_transform(['a'] if target else c, lags=[0, 1])
        h.add_target_transform(c if target else ['y'], lags=[-1])
        return h.transform(x.copy())
    a.bad('columns', miss, lambda: with_names(miss, False))
    a.bad('target columns', miss, lambda: with_names(miss, True))
    a.good('columns', ['y', 'a'], lambda: with_names(['y', 'a'], False))
    a.good('target columns', ['y', 'a'], lambda: with_names(['y', 'a'], True))
    used = sorted({c for s in specs for c in s['names']})
    gone = str(rng.choice(used))
    a.bad('table without a column', gone, lambda: f.transform(x.drop(columns=gone).copy()))
    # folds
    f2 = mk()
    f2.transform(x.copy())
    for k in (1, 0, -2):
        a.bad('folds', k, lambda: list(f2.time_kfcv(x.index, k)))
    a.good('folds', 3, lambda: list(f2.time_kfcv(x.index, 3)))
    # windows without data need the sampling time
    a.bad('sampling time', None, lambda: mk().get_time_lims())
    with_dt = lambda: [D.add(h, s) for h in [Formatter(dt=dt)] for s in specs][0]
    a.good('sampling time', dt, lambda: with_dt().get_time_lims())
    # stacked form
    wide = D.signals(rng, idx, ('s1', 's2', 'a'))

    def stack(name):
        h = Formatter().add_transform(['target', 'a'], lags=[0, 1]).add_target_transform([name], lags=[-1])
        return h.transform(wide.copy(), global_form=True)
    a.bad('stacked target', 's1', lambda: stack('s1'))
    a.bad('stacked target', 'a', lambda: stack('a'))
    a.good('stacked target', 'target', lambda: stack('target'))
    tf = bool(rng.random() < 0.5)
    a.after('formatter', f.transform(x.copy(), time_features=tf), g.transform(x.copy(), time_features=tf))


def model(m, rng, tier):
    a = Ask(m)
    name = M.NAMES[int(rng.integers(len(M.NAMES)))]
    T = int(rng.integers(2, 4))
    x, y = M.dataset(rng, T=T, n=int(rng.integers(120, 180)))
    kw = dict(M.settings(rng, name, T), val_ratio=0.4)
    s = int(rng.integers(1e6))
    for v in (0, -int(rng.integers(1, 50)), 2.5, '7', [5], float('nan')):
        a.bad('row cap', repr(v), lambda: M.make(name, max_scengen_rows=v, **kw))
    for v in (None, 1, np.int64(30), np.int32(7), 10 ** 9):
        a.good('row cap', repr(v), lambda: M.make(name, max_scengen_rows=v, **kw))

    def fit(f):
        np.random.seed(s)
        f.fit(x.copy(), y.copy())
        return f
    f, g = M.make(name, **kw), M.make(name, **kw)
    xt = x.iloc[::11]
    a.bad('not fitted', 'predict', lambda: f.predict(xt.copy()))
    a.bad('not fitted', 'predict_quantiles', lambda: f.predict_quantiles(xt.copy()))
    a.bad('not fitted', 'predict_scenarios', lambda: f.predict_scenarios(xt.copy(), n_scen=5))
    a.good('fit', name, lambda: fit(f))
    fit(g)
    for w in ('predict', 'predict_quantiles'):
        a.good('fitted', w, lambda: getattr(f, w)(xt.copy()))
    bad = xt.copy()
    # the table of another problem
    if name != 'rff' and name != 'arff':
        a.bad('missing feature', x.columns[-1], lambda: f.predict(bad.drop(columns=x.columns[-1])))
    nodes = [1] + [2] * (T - 1)
    h = M.make(name, **dict(kw, online_tree_reduction=False)) if rng.random() < 0.5 else None
    if h is not None and name in ('linear', 'lgb', 'qrf'):
        a.good('offline trees', name, lambda: fit(h))
        a.bad('nodes of offline trees', nodes, lambda: h.predict_trees(xt.iloc[:2].copy(), n_scen=20, nodes_at_step=nodes))
    a.good('nodes of online trees', nodes, lambda: f.predict_trees(xt.iloc[:2].copy(), n_scen=20, nodes_at_step=nodes))
    if name == 'linear':
        for kind in ('lasso', 'Linear', '', None):
            a.bad('kind', kind, lambda: fit(M.make('linear', kind=kind)))
        for kind in ('linear', 'ridge'):
            a.good('kind', kind, lambda: fit(M.make('linear', kind=kind)))
    # a cap on rows of misaligned tables
    sh = y.copy()
    sh.index = sh.index + pd.Timedelta('1h')
    if name == 'linear':
        a.bad('row cap of misaligned tables', 'shifted index', lambda: M.make(name, max_scengen_rows=20, **kw).fit(x.copy(), sh))
        a.good('row cap of aligned tables', 20, lambda: M.make(name, max_scengen_rows=20, **kw).fit(x.copy(), y.copy()))
    a.after('model', [f.predict(xt.copy()), f.predict_quantiles(xt.copy())], [g.predict(xt.copy()), g.predict_quantiles(xt.copy())])


def scengen(m, rng, tier):
    from pyforecaster.scenarios_generator import ScenGen
    from pyforecaster.tree_builders import QuantileTree
    from pyforecaster.copula import HourlyGaussianCopula
    a = Ask(m)
    T, n = int(rng.integers(2, 4)), int(rng.integers(150, 220))
    idx = D.index(rng, n, step='1h')
    y = pd.DataFrame(rng.normal(0, 1, (n, T)), index=idx, columns=['t%d' % i for i in range(T)])
    q = np.sort(rng.choice(np.arange(1, 100), int(rng.integers(3, 8)), replace=False)) / 100
    k = int(rng.integers(2, 6))
    xt = pd.DataFrame({'a': rng.normal(0, 1, k)}, index=idx[:k])
    Q = np.sort(rng.normal(0, 1, (k, T, len(q))), axis=2)
    S = int(rng.integers(8, 14))
    make = lambda **kw: ScenGen(q_vect=q, **kw)
    sg, ref = make(), make()
    a.bad('copula index', 'plain numbers', lambda: sg.fit(y.copy(), y.reset_index(drop=True)))
    a.good('copula index', 'timestamps', lambda: sg.fit(y.copy(), y.copy()))
    ref.fit(y.copy(), y.copy())
    seed = int(rng.integers(1000))

    def draw(g, **kw):
        np.random.seed(seed)
        return g.predict_scenarios(random_state=seed, n_scen=S, **kw)
    a.bad('quantile table without timestamps', 'no x', lambda: draw(sg, quantiles=Q))
    a.good('quantile table with timestamps', 'x', lambda: draw(sg, quantiles=Q, x=xt))
    d = int(rng.choice([-1, 1]))
    Qd = Q[..., :-1] if d < 0 else np.concatenate([Q, Q[..., -1:] + 1], axis=2)
    a.bad('number of levels', Qd.shape[2] - len(q), lambda: draw(sg, quantiles=Qd, x=xt))
    Qr = Q[:-1] if rng.random() < 0.5 else np.concatenate([Q, Q[:1]])
    a.bad('number of rows', len(Qr) - k, lambda: draw(sg, quantiles=Qr, x=xt))
    sa = make(additional_node=True)
    sa.fit(y.copy(), y.copy())
    for o in (rng.normal(0, 1, k + 1), rng.normal(0, 1, k - 1) if k > 2 else rng.normal(0, 1, k + 2)):
        a.bad('first observations', '%+d' % (len(o) - k), lambda: draw(sa, quantiles=Q, x=xt, init_obs=o))
    a.good('first observations', 'one per row', lambda: draw(sa, quantiles=Q, x=xt, init_obs=rng.normal(0, 1, k)))
    # trees
    nodes = np.r_[1, np.cumprod(rng.integers(1, 3, T - 1))]
    a.bad('trees without quantiles', 'none', lambda: sg.predict_trees(n_scen=S, x=xt, nodes_at_step=nodes))
    a.bad('trees without timestamps', 'no x', lambda: sg.predict_trees(quantiles=Q, n_scen=S, nodes_at_step=nodes))
    a.good('trees', nodes, lambda: sg.predict_trees(quantiles=Q, n_scen=S, x=xt, nodes_at_step=nodes))
    off = make(online_tree_reduction=False, nodes_at_step=nodes)
    off.prefit_trees = False
    off.fit(y.copy(), y.copy())
    p = pd.DataFrame(rng.normal(0, 1, (k, T)), index=idx[:k], columns=y.columns)
    a.bad('offline trees not fitted', 'no trees', lambda: off.predict_trees(predictions=p, n_scen=S))
    off2 = make(online_tree_reduction=False, nodes_at_step=nodes)
    if off2.prefit_trees:
        a.good('offline trees', 'fitted', lambda: off2.fit(y.copy(), y.copy(), n_scen=max(S, int(nodes[-1]))))
        a.good('offline trees', 'with forecasts', lambda: off2.predict_trees(predictions=p, n_scen=S))
        a.bad('offline trees', 'no forecasts', lambda: off2.predict_trees(quantiles=Q, x=xt, n_scen=S))
        a.bad('offline trees', 'nodes', lambda: off2.predict_trees(predictions=p, n_scen=S, nodes_at_step=nodes))
    # covariance estimators
    for c in ('Vanilla', 'ledoit', None):
        a.bad('covariance', c, lambda: HourlyGaussianCopula(cov_est_method=c).fit(y.copy()))
    for c in ('vanilla', 'shrunk'):
        a.good('covariance', c, lambda: HourlyGaussianCopula(cov_est_method=c).fit(y.copy()))
    # children are shared evenly, one root
    sc = np.cumsum(rng.normal(0, 1, (4, 30)), axis=0)
    c1, c2 = int(rng.integers(2, 5)), int(rng.integers(2, 4))
    uneven = [1, c1, c1 * c2 + int(rng.integers(1, c1)), c1 * c2 * c1 * 2]
    even = [1, c1, c1 * c2, c1 * c2]
    grow = lambda nodes: QuantileTree(nodes_at_step=np.array(nodes)).gen_tree(sc.copy(), k_max=5)
    a.bad('uneven children', uneven, lambda: grow(uneven))
    a.good('even children', even, lambda: grow(even))
    a.after('scenario generator', draw(sg, quantiles=Q, x=xt), draw(ref, quantiles=Q, x=xt))


def adaptive(m, rng, tier):
    from pyforecaster.forecasting_models.holtwinters import HoltWinters, HoltWintersMulti
    from pyforecaster.forecasting_models.fast_adaptive_models import Fourier_es, FK, FK_multi
    a = Ask(m)
    base = dict(target_name='y', n_sa=int(rng.integers(2, 5)), optimize_hyperpars=False, verbose=False)
    own = dict(alpha=float(rng.uniform(0.05, 0.95)), omega=float(rng.uniform(0.05, 0.95)), n_harmonics=int(rng.integers(1, 4)), m=int(rng.integers(6, 30)))
    C = [Fourier_es, FK][rng.integers(2)]
    for k, vals in dict(alpha=[0, 1, -0.2, 1.3], omega=[0, 1, -1e-3, 1 + 1e-9], n_harmonics=[0, -1], m=[0, -4]).items():
        for v in vals:
            a.bad('%s of %s' % (k, C.__name__), v, lambda: C(**base, **dict(own, **{k: v})))
    for k, vals in dict(alpha=[1e-6, 1 - 1e-6], omega=[1e-6, 1 - 1e-6], n_harmonics=[1], m=[base['n_sa'] + 2]).items():
        for v in vals:
            a.good('%s of %s' % (k, C.__name__), v, lambda: C(**base, **dict(own, **{k: v})))
    mm = int(rng.integers(8, 30))
    for p in (mm, mm + 1, mm + 50):
        a.bad('period of FK_multi', '%+d' % (p - mm), lambda: FK_multi(n_predictors=2, m=mm, periodicity=p, **base))
    for p in (mm - 1, mm // 2):
        a.good('period of FK_multi', '%+d' % (p - mm), lambda: FK_multi(n_predictors=2, m=mm, periodicity=p, **base))
    for c, kw in ((C, own), (FK_multi, dict(n_predictors=2, m=30)), (HoltWinters, dict(periods=[4, 8])), (HoltWintersMulti, dict(periods=[4, 8]))):
        for bad in (dict(max_scengen_rows=10), dict(scengen_random_state=3), dict(max_scengen_rows=None), dict(max_scengen_rows=4, scengen_random_state=1)):
            a.bad('row cap of ' + c.__name__, sorted(bad), lambda: c(**base, **kw, **bad))
        a.good('row cap of ' + c.__name__, 'none', lambda: c(**base, **kw))


def rest(m, rng, tier):
    from pyforecaster import metrics as Me
    from pyforecaster.trainer import hyperpar_optimizer, cross_validate
    from pyforecaster.forecaster import LinearForecaster, LGBForecaster
    from pyforecaster.stat_utils import bootstrap
    from pyforecaster.big_data_utils import fdf_parallel
    from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation as HR
    from pyforecaster.forecasting_models.random_fourier_features import RandomFFRegressor
    from rv import hier
    import optuna
    optuna.logging.set_verbosity(optuna.logging.ERROR)
    a = Ask(m)
    n, T = int(rng.integers(60, 90)), int(rng.integers(1, 4))
    x, y = M.dataset(rng, n=n, T=T)
    h = y + rng.normal(0, 1, y.shape)
    ag = pd.DataFrame({'g': rng.integers(0, 3, n)}, index=y.index)
    mk = pd.DataFrame(rng.random(y.shape) < 0.8, index=y.index, columns=y.columns)
    moved = lambda t: t.set_axis(t.index + pd.Timedelta('1h'), axis=0)
    perm = lambda t: t.iloc[rng.permutation(len(t))]
    for how, fn in (('shifted', moved), ('permuted', perm), ('shorter', lambda t: t.iloc[1:])):
        a.bad('score tables', how + ' forecasts', lambda: Me.summary_scores(fn(h), y, [Me.rmse], ag))
        a.bad('score tables', how + ' targets', lambda: Me.summary_scores(h, fn(y), [Me.rmse], ag))
        a.bad('score tables', how + ' mask', lambda: Me.summary_scores(h, y, [Me.rmse], ag, mask=fn(mk)))
    a.good('score tables', 'same rows', lambda: Me.summary_scores(h, y, [Me.rmse], ag, mask=mk))
    a.good('score tables', 'same rows', lambda: Me.summary_scores(h, y, [Me.rmse], ag))
    # tuning
    tune = lambda model, space, **k: hyperpar_optimizer(x.copy(), y.copy(), model, n_trials=1, metric=Me.rmse, cv=2, param_space_fun=space, **k)
    for t in ('partial', 'Full', None):
        a.bad('cross-validation type', t, lambda: tune(LinearForecaster(), lambda tr: {'val_ratio': tr.suggest_float('val_ratio', 0.2, 0.3)}, cv_type=t))
    for t in ('full', 'random_fold'):
        a.good('cross-validation type', t, lambda: tune(LinearForecaster(), lambda tr: {'val_ratio': tr.suggest_float('val_ratio', 0.2, 0.3)}, cv_type=t))
    odd = str(rng.choice(['vall_ratio', 'alphas', 'n_leaves']))
    a.bad('tuned parameter', odd, lambda: tune(LinearForecaster(), lambda tr: {odd: tr.suggest_float(odd, 0.2, 0.3)}))
    a.bad('tuned parameter', odd + ' with a known one', lambda: tune(LinearForecaster(), lambda tr: {'val_ratio': 0.2, odd: tr.suggest_float(odd, 0.2, 0.3)}))
    # helpers
    v = rng.normal(0, 1, 40)
    for b in (v, list(v), pd.DataFrame(v)):
        a.bad('bootstrap', type(b).__name__, lambda: bootstrap(b, np.mean, n_sampling=20))
    a.good('bootstrap', 'Series', lambda: bootstrap(pd.Series(v), np.mean, n_sampling=200))
    for r in ('RFF', 'qr', None):
        a.bad('random features', r, lambda: RandomFFRegressor(r, dim_kernel=4).fit(x.copy(), y.copy()))
    for r in ('rff', 'orf'):
        a.good('random features', r, lambda: RandomFFRegressor(r, dim_kernel=4).fit(x.copy(), y.copy()).predict(x.copy()))
    for ax in (2, -1, None):
        a.bad('chunk axis', ax, lambda: fdf_parallel(lambda d: d * 2, x.copy(), axis=ax))
    for t in (x.values, 'x', {'a': x}):
        a.bad('chunked table', type(t).__name__, lambda: fdf_parallel(lambda d: d * 2, t))
    # hierarchies
    H, bottoms, root, naming = hier.hierarchy(rng, naming='str', max_depth=2)
    nn = int(rng.integers(60, 80))
    xs, ys, _, _ = hier.stacked(rng, H, bottoms, nn, 1, pd.date_range('2022-03-01', periods=nn, freq='1h'))
    kw = dict(q_vect=np.array([0.1, 0.5, 0.9]), n_scenarios=4)
    for meth in ('mint', 'ols', '', None):
        a.bad('reconciliation method', meth, lambda: HR({k: list(c) for k, c in H.items()}, method=meth, **kw).fit(xs.copy(), ys.copy()))
    meth = str(rng.choice(['minT', 'bayes', 'dummy']))
    r, g = [HR({k: list(c) for k, c in H.items()}, method=meth, **kw) for _ in range(2)]
    a.bad('stacked table', 'without names', lambda: r.fit(xs.drop(columns='name'), ys.copy()))
    agg = str(rng.choice(sorted(H)))
    keep = (xs['name'] != agg).values
    a.bad('stacked table', 'without an aggregate', lambda: r.fit(xs[keep].copy(), ys[keep].copy()))
    while len(H) < 2:
        H, bottoms, root, naming = hier.hierarchy(rng, naming='str', max_depth=2)
        xs, ys, _, _ = hier.stacked(rng, H, bottoms, nn, 1, pd.date_range('2022-03-01', periods=nn, freq='1h'))
        r, g = [HR({k: list(c) for k, c in H.items()}, method=meth, **kw) for _ in range(2)]
    for agg in H:
        keep = (xs['name'] != agg).values
        a.bad('stacked table', 'without aggregate %s' % agg, lambda: r.fit(xs[keep].copy(), ys[keep].copy()))
        a.bad('stacked table', 'without aggregate %s, checked' % agg, lambda: r.check_x(xs[keep].copy()))
    a.good('stacked table', 'complete', lambda: r.check_x(xs.copy()) or True)
    a.good('reconciliation method', meth, lambda: r.fit(xs.copy(), ys.copy()) or True)
    for agg in H:
        keep = (xs['name'] != agg).values
        a.bad('stacked table', 'without aggregate %s, predicted' % agg, lambda: r.predict(xs[keep].copy()))
    quiet(g.fit, xs.copy(), ys.copy())
    for lv in ('top', 'Bottom', None):
        a.bad('level', lv, lambda: r.get_predictions(xs.copy(), level=lv))
        a.bad('quantile level', lv, lambda: r.get_quantiles(xs.copy(), level=lv))
    for lv in ('bottom', 'aggregations', 'all'):
        a.good('level', lv, lambda: r.get_predictions(xs.copy(), level=lv))
    a.after('reconciliation', quiet(r.predict, xs.copy()), quiet(g.predict, xs.copy()))


def networks(m, rng, tier):
    from rv import nets
    from pyforecaster.forecasting_models.neural_models.LSTM_bidir import LSTM_Forecaster
    from pyforecaster.forecasting_models.neural_models.neural_utils import positive_lecun
    import jax
    a = Ask(m)
    for t in ('gaussian', 'Normal', None):
        a.bad('initialization', t, lambda: positive_lecun(jax.random.PRNGKey(1), (4, 3), init_type=t))
    for t in ('normal', 'uniform'):
        a.good('initialization', t, lambda: positive_lecun(jax.random.PRNGKey(1), (4, 3), init_type=t))
    CI = nets.cls('CausalInvertibleNN')
    o = int(rng.integers(2, 6))
    for i in (o - 1, 1):
        a.bad('history of the invertible network', '%d for %d' % (i, o), lambda: CI(n_in=i, n_out=o))
    a.bad('history of the invertible network', 'exogenous counted', lambda: CI(n_in=o + 1, n_out=o, names_exogenous=['a', 'b']))
    a.good('history of the invertible network', 'equal', lambda: CI(n_in=o, n_out=o))
    a.good('history of the invertible network', 'exogenous', lambda: CI(n_in=o + 2, n_out=o, names_exogenous=['a', 'b']))
    H, P = int(rng.integers(2, 6)), int(rng.integers(1, 4))
    df = pd.DataFrame(rng.normal(0, 1, (60, 2)), columns=['y', 'a'], index=pd.date_range('2022-01-01', periods=60, freq='1h'))
    f = LSTM_Forecaster('y', lstm_history=H, pred_horizon=P)
    for k in (H + P - 1, H - 1, 1):
        a.bad('short training table', k - H - P, lambda: f.fit(df.iloc[:k].copy(), epochs=1, verbose=0))
    a.good('training table', 60, lambda: f.fit(df.copy(), epochs=1, verbose=0) and True)
    for k in (H - 1, 1):
        a.bad('short prediction table', k - H, lambda: f.predict(df.iloc[:k].copy()))
    a.good('prediction table', H, lambda: f.predict(df.iloc[:H].copy()))
    nets.clear()


WORKLOADS = [W('formatter', formatter, 24, 300), W('model', model, 28, 300), W('scengen', scengen, 24, 240), W('adaptive', adaptive, 20, 200), W('rest', rest, 10, 120),
             W('networks', networks, 3, 20)]
