"""C13 refits, parameter changes, clones, copies and serialization."""
import copy
import pickle
import numpy as np
import pandas as pd
from rv.common import W
from rv import models as M
from rv.trees import warm

PROP = 'C13'
RULE = ('one case = forecaster x settings x two datasets (different columns, targets and hours); a model with a history (fitted before, '
        'parameters changed, rebuilt from its reported parameters, copied, pickled) is compared with a new model fitted on the same data '
        'from the same generator state; non-trivial: the first fit alone predicts something else')
REQUIRED = {'refit': 60, 'set_params': 60, 'rebuilt': 60, 'copied': 60, 'cloned': 40, 'params_effective': 30, 'scenario_settings': 20, 'scenario_trees': 60}
QUICK_S = 240


def same(m, a, b, xt, mech, tag, tol=1e-10):
    m.frame_same(a.predict(xt.copy()), b.predict(xt.copy()), mech, tag + ' point', rtol=tol, atol=tol, event=mech)
    m.frame_same(a.predict_quantiles(xt.copy()), b.predict_quantiles(xt.copy()), mech, tag + ' quantiles', rtol=tol, atol=tol, event=mech)


def dofit(f, x, y, seed):
    np.random.seed(seed)
    f.fit(x.copy(), y.copy())
    return f


def common(rng):
    return dict(val_ratio=[None, 0.3][rng.integers(2)], conditional_to_hour=bool(rng.random() < 0.6), q_vect=M.q_vect(rng),
                max_scengen_rows=[None, 60][rng.integers(2)], scengen_random_state=int(rng.integers(50)))


def refit(m, rng, tier):
    name = M.NAMES[int(rng.integers(len(M.NAMES)))]
    T2 = int(rng.integers(1, 5))
    T1 = int(rng.integers(1, 6)) if name in ('linear', 'lgb', 'rff', 'arff') else int(rng.integers(T2, 6))
    x1, y1 = M.dataset(rng, T=T1, all_hours=[None, False][rng.integers(2)])
    x2, y2 = M.dataset(rng, T=T2, all_hours=[None, False][rng.integers(2)])
    y2.columns = ['z%d' % i for i in range(T2)]
    kw = dict(M.settings(rng, name, T2), **common(rng))
    if name == 'energy':
        x1, y1 = M.dataset(rng, T=T2)
    s = int(rng.integers(1e6))
    tag = '%s %s (%d then %d targets)' % (name, kw, y1.shape[1], T2)
    f = M.make(name, **copy.deepcopy(kw))
    dofit(f, x1, y1, s + 1)
    first = f.predict(x1.iloc[:5].copy()).values
    if rng.random() < 0.5:
        f.predict_quantiles(x1.iloc[:5].copy())
    dofit(f, x2, y2, s)
    g = dofit(M.make(name, **copy.deepcopy(kw)), x2, y2, s)
    xt = x2.iloc[::7]
    same(m, f, g, xt, 'refit', tag)
    sc = f.predict_scenarios(xt.iloc[:2].copy(), n_scen=15, random_state=3)
    sg = g.predict_scenarios(xt.iloc[:2].copy(), n_scen=15, random_state=3)
    m.close(sc, sg, 'refit', tag + ' scenarios', rtol=1e-5, atol=1e-6, event='refit')
    m.nontrivial('refit', name, sorted(map(str, kw.items())), y1.shape[1], T2)
    m.say(model=name, settings=kw)


TUNE = {'linear': dict(kind=['linear', 'ridge'], val_ratio=[None, 0.2, 0.5]),
        'lgb': dict(n_estimators=[3, 15], num_leaves=[2, 10], learning_rate=[0.05, 0.5], max_depth=[1, 6], min_child_samples=[2, 40], colsample_bytree=[0.5, 1.0], val_ratio=[None, 0.3]),
        'hybrid': dict(n_estimators=[3, 15], num_leaves=[2, 10], learning_rate=[0.05, 0.5], max_depth=[1, 6], min_child_samples=[2, 40], n_single=[0, 1, 2], red_frac_multistep=[0.5, 1.0]),
        'energy': dict(n_estimators=[3, 15], num_leaves=[2, 10], learning_rate=[0.05, 0.5], max_depth=[1, 6], min_child_samples=[2, 40]),
        'qrf': dict(n_estimators=[3, 12], max_depth=[1, 6], min_samples_leaf=[1, 20], max_leaf_nodes=[3, None], max_features=[0.5, 1.0], n_single=[0, 1, 2], random_state=[3, 4], min_samples_split=[2, 30]),
        'rff': dict(dim_kernel=[4, 16], std_kernel=[0.05, 1.0], val_ratio=[None, 0.3]),
        'arff': dict(dim_kernel=[4, 16], std_kernel=[0.05, 1.0], n_models=[1, 3])}


def tuned(m, rng, tier):
    name = M.NAMES[int(rng.integers(len(M.NAMES)))]
    T = int(rng.integers(2, 4))
    x, y = M.dataset(rng, T=T)
    kw = dict(M.settings(rng, name, T), **common(rng))
    ks = [str(k) for k in rng.choice(list(TUNE[name]), int(rng.integers(1, len(TUNE[name]) + 1)), replace=False)]
    new = {k: TUNE[name][k][int(rng.integers(len(TUNE[name][k])))] for k in ks}
    scen = {}
    if rng.random() < 0.6:
        # settings of the scenario generator
        scen = {'q_vect': np.sort(np.round(rng.uniform(0.02, 0.98, int(rng.integers(3, 9))), 3)), 'nodes_at_step': [[1, 2, 4], [1, 3, 6]][rng.integers(2)][:T],
                'online_tree_reduction': False, 'tree_type': ['ScenredTree', 'QuantileTree'][rng.integers(2)], 'cov_est_method': ['vanilla', 'shrunk'][rng.integers(2)],
                'n_scen_fit': int(rng.integers(20, 40)), 'conditional_to_hour': bool(rng.random() < 0.5), 'max_scengen_rows': int(rng.integers(100, 200))}
        scen = {str(k): scen[k] for k in rng.choice(sorted(scen), int(rng.integers(1, len(scen) + 1)), replace=False)}
        if 'cov_est_method' in scen:
            kw['cov_est_method'] = 'vanilla'
        if 'online_tree_reduction' in scen:
            kw['max_scengen_rows'] = None       # trees of each hour need rows of each hour
            scen.pop('max_scengen_rows', None)
        new.update(scen)
    s = int(rng.integers(1e6))
    f = M.make(name, **copy.deepcopy(kw))
    prefit = bool(rng.random() < 0.5)
    if prefit:
        dofit(f, x, y, s + 5)
        old = f.predict(x.iloc[:40].copy()).values
    f.set_params(**new)
    dofit(f, x, y, s)
    g = dofit(M.make(name, **copy.deepcopy(dict(kw, **new))), x, y, s)
    tag = '%s %s set to %s%s' % (name, kw, new, ' after a fit' if prefit else '')
    same(m, f, g, x.iloc[::5], 'set_params', tag)
    par = f.get_params()
    for k, v in new.items():
        m.check((k in par or k in scen) and np.array_equal(par.get(k, {'conditional_to_hour': True}.get(k)), v), 'reported-parameters', '%s: %s reported as %s' % (tag, k, par.get(k)))
    if scen:
        xt = x.iloc[[5, 30, 61]]
        m.close(f.predict_quantiles(xt.copy()).values, g.predict_quantiles(xt.copy()).values, 'set_params', tag + ' quantiles', rtol=1e-6, atol=1e-7, event='scenario_settings')
        m.close(f.predict_scenarios(xt.copy(), random_state=3), g.predict_scenarios(xt.copy(), random_state=3), 'set_params', tag + ' scenarios', rtol=1e-5, atol=1e-6)
        np.random.seed(s)
        tf = f.predict_trees(xt.copy(), n_scen=30, random_state=3)
        np.random.seed(s)
        tg = g.predict_trees(xt.copy(), n_scen=30, random_state=3)
        for u, v in zip(tf, tg):
            m.check(set(u.edges) == set(v.edges) and np.allclose([float(np.ravel(a['v'])[0]) for _, a in sorted(u.nodes(data=True))], [float(np.ravel(a['v'])[0]) for _, a in sorted(v.nodes(data=True))], rtol=1e-4, atol=1e-5),
                    'set_params', tag + ' trees', event='scenario_trees')
    base = dofit(M.make(name, **copy.deepcopy(kw)), x, y, s)
    if not np.allclose(base.predict(x.iloc[:60].copy()).values, g.predict(x.iloc[:60].copy()).values):
        m.ev('params_effective')
        m.nontrivial('tuned', name, sorted(map(str, new.items())), prefit)


def rebuilt(m, rng, tier):
    from sklearn.base import clone
    name = M.NAMES[int(rng.integers(len(M.NAMES)))]
    T = int(rng.integers(1, 4))
    x, y = M.dataset(rng, T=T)
    kw = dict(M.settings(rng, name, T), **common(rng))
    if rng.random() < 0.4:
        kw['n_scen_fit'] = int(rng.integers(5, 30))
    if rng.random() < 0.4:
        kw['nodes_at_step'] = [1] + [2] * (T - 1)
    if name in ('linear', 'lgb') and rng.random() < 0.3:
        kw['tree_type'] = 'ScenredTree'
    if rng.random() < 0.3 and name in ('linear', 'lgb'):
        kw['cov_est_method'] = 'shrunk'
    s = int(rng.integers(1e6))
    f = M.make(name, **copy.deepcopy(kw))
    fitted_before = bool(rng.random() < 0.5)
    if fitted_before:
        dofit(f, x, y, s + 3)
    g = type(f)(**f.get_params())
    tag = '%s %s' % (name, kw)
    pf, pg = f.get_params(), g.get_params()
    m.check(set(pf) == set(pg), 'reported-parameters', '%s: %s' % (tag, set(pf) ^ set(pg)))
    dofit(f, x, y, s)
    dofit(g, x, y, s)
    xt = x.iloc[::6]
    same(m, g, f, xt, 'rebuilt', tag + ' rebuilt from its parameters')
    m.check(g.n_scen_fit == f.n_scen_fit, 'rebuilt-settings', '%s: n_scen_fit' % tag)
    sf, sg = f.predict_scenarios(xt.iloc[:2].copy(), random_state=1), g.predict_scenarios(xt.iloc[:2].copy(), random_state=1)
    m.close(sg, sf, 'rebuilt', tag + ' scenarios', rtol=1e-5, atol=1e-6, event='rebuilt')
    c = clone(f)
    dofit(c, x, y, s)
    same(m, c, f, xt, 'cloned', tag + ' sklearn clone')
    p0, q0 = f.predict(xt.copy()), f.predict_quantiles(xt.copy())
    for how, h in (('deepcopy', copy.deepcopy(f)), ('pickle', pickle.loads(pickle.dumps(f)))):
        same(m, h, f, xt, 'copied', '%s %s' % (tag, how), tol=1e-12)
        if how == 'deepcopy':
            dofit(h, x.iloc[: len(x) // 2], y.iloc[: len(x) // 2] * 3 + 1, s + 9)
            m.frame_same(f.predict(xt.copy()), p0, 'copy-shares-state', '%s: fitting the copy changed the original' % tag)
            m.frame_same(f.predict_quantiles(xt.copy()), q0, 'copy-shares-state', '%s: fitting the copy changed the original' % tag)
    m.nontrivial('rebuilt', name, sorted(map(str, kw.items())), fitted_before)


WORKLOADS = [W('refit', refit, 60, 700), W('tuned', tuned, 60, 700), W('rebuilt', rebuilt, 45, 500)]
