"""C25 tuning: every fit and evaluation of every trial is recorded by a spy model and compared with the folds and the trial."""
import functools
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D
from rv import models as M

PROP = 'C25'
RULE = ('one case = spy model (records rows, values, parameters and instance of every fit, prediction), fold form (boolean masks, positions, '
        'generator, number of folds, formatter), cross-validation type, parameter space (also conditional), metric, storage; the log is compared with '
        'the folds and trial values with a recomputation; non-trivial: at least two trials and folds')
REQUIRED = {'fits': 300, 'evaluations': 300, 'trial_values': 150, 'parameters': 300, 'fresh_models': 300, 'stored': 40, 'base_model': 60, 'real_models': 8,
            'conditional_space': 10, 'random_fold': 20}
QUICK_S = 220

LOG = []


def spy_class():
    from sklearn.base import BaseEstimator

    class Spy(BaseEstimator):
        """y_hat = a * mean(train target) + b * first feature + c"""

        def __init__(self, a=1.0, b=0.0, c='p', d=3):
            self.a, self.b, self.c, self.d = a, b, c, d

        def fit(self, x, y):
            LOG.append(('fit', id(self), dict(a=self.a, b=self.b, c=self.c, d=self.d), x.copy(), y.copy(), hasattr(self, 'mu')))
            self.mu = y.values.mean(axis=0)
            self.cols = y.columns
            self.me = self
            return self

        def predict(self, x):
            LOG.append(('predict', id(self), dict(a=self.a, b=self.b, c=self.c, d=self.d), x.copy()))
            y = self.a * self.mu[None] + self.b * x.values[:, :1] + (1.0 if self.c == 'q' else 0.0) + 0.01 * self.d
            return pd.DataFrame(np.repeat(y, 1, axis=1), index=x.index, columns=self.cols)
    return Spy


def simulate(par, xtr, ytr, xte):
    return par['a'] * ytr.mean(axis=0)[None] + par['b'] * xte[:, :1] + (1.0 if par['c'] == 'q' else 0.0) + 0.01 * par['d']


def score(name, h, t):
    if name == 'rmse':
        return np.sqrt(((h - t) ** 2).mean(axis=1)).mean()
    if name == 'mape':
        return (np.abs(h - t) / (np.abs(t) + 1e-5)).mean()
    s = np.abs(t).mean(axis=1)
    return (np.abs(h - t) / (s + 0.01 * np.median(s) + 1e-12)[:, None]).mean()


def make_data(rng):
    n = int(rng.integers(60, 160))
    T = int(rng.integers(1, 5))
    idx = D.index(rng, n, step='1h', tz=None)
    x = pd.DataFrame(rng.normal(0, 1, (n, 3)), index=idx, columns=list('abc'))
    y = pd.DataFrame(rng.normal(2, 1, (n, T)) + x.values[:, :1], index=idx, columns=['t%d' % i for i in range(T)])
    if rng.random() < 0.25:      # repeated feature rows
        x.iloc[n // 2:] = x.iloc[:n - n // 2].values
    if rng.random() < 0.25:      # rows out of time order
        p = np.r_[0, 1 + rng.permutation(n - 2), n - 1]
        x, y = x.iloc[p], y.iloc[p]
    return x, y


def make_folds(rng, n, T=1):
    """(what is passed, list of boolean (train, test) masks)"""
    k = int(rng.integers(2, 6))
    masks = []
    if rng.random() < 0.5:
        e = np.linspace(0, n, k + 1).astype(int)
        for i in range(k):
            te = np.zeros(n, bool)
            te[e[i]:e[i + 1]] = True
            tr = ~te
            tr[max(0, e[i] - 3):e[i]] = False
            masks.append((tr, te))
    else:
        for i in range(k):
            te = rng.random(n) < 0.4
            tr = ~te & (rng.random(n) < 0.8)
            masks.append((tr, te))
    for a, b in masks:          # enough rows that test rows and steps cannot be confused
        b[:8] |= b.sum() <= 8
        a[-4:] = True
        b[-4:] = False
        a[:8] &= ~b[:8]
    form = ['bool', 'positions', 'generator', 'positions list'][rng.integers(4)]
    if form == 'bool':
        return form, [(a.copy(), b.copy()) for a, b in masks], masks
    pos = [(np.flatnonzero(a), np.flatnonzero(b)) for a, b in masks]
    if form == 'generator':
        return form, (f for f in pos), masks
    if form == 'positions list':
        return form, [(list(map(int, a)), list(map(int, b))) for a, b in pos], masks
    return form, pos, masks


def same(a, b):
    return a.index.equals(b.index) and list(a.columns) == list(b.columns) and np.array_equal(a.values, b.values)


def tuning(m, rng, tier):
    import optuna
    import logging
    from pyforecaster import trainer, metrics as me
    optuna.logging.set_verbosity(optuna.logging.CRITICAL)
    Spy = spy_class()
    x, y = make_data(rng)
    n, T = len(x), y.shape[1]
    base = dict(a=float(rng.normal()), b=float(rng.normal()), c='p', d=int(rng.integers(10)))
    model = Spy(**base)
    metric = [None, me.rmse, me.mape, me.nmae, functools.partial(me.rmse)][rng.integers(5)]
    mname = 'nmae' if metric is None else (metric.__name__ if hasattr(metric, '__name__') else 'rmse')
    cv_type = ['full', 'random_fold'][rng.integers(2)]
    nt = int(rng.integers(1, 6))
    cond = bool(rng.random() < 0.5)
    asked = []

    def space(trial):
        p = {'a': trial.suggest_float('a', -2, 2)}
        if not cond or trial.number % 2 == 0:
            p['b'] = trial.suggest_float('b', -1, 1)
            p['c'] = trial.suggest_categorical('c', ['p', 'q'])
        asked.append(dict(p))
        return p

    kk = {}
    how = rng.integers(4)
    if how == 0:
        from sklearn.model_selection import KFold
        k = int(rng.integers(2, 5))
        form, cv = 'number', k
        masks = []
        for a, b in KFold(k).split(np.zeros(n)):
            A, B = np.zeros(n, bool), np.zeros(n, bool)
            A[a], B[b] = True, True
            masks.append((A, B))
    elif how == 1:
        import pyforecaster.formatter as pyf
        df = D.signals(rng, x.index.sort_values(), ['y', 'a'])
        f = pyf.Formatter(logger=logging.getLogger('x')).add_transform(['a'], lags=[1, 2])
        f.add_target_transform(['y'], lags=[-1])
        f.transform(df)
        k = int(rng.integers(3, 6))
        form, cv, kk = 'formatter', k, {'formatter': f}
        masks = [(np.asarray(a), np.asarray(b)) for a, b in f.time_kfcv(x.index, k)]
    else:
        form, cv, masks = make_folds(rng, n)
    if any(a.sum() < 2 or b.sum() < 2 for a, b in masks):
        return
    store = bool(rng.random() < 0.5)
    tag = '%s folds %s metric %s storage %s trials %d' % (cv_type, form, mname, store, nt)
    cv0 = [(np.array(a), np.array(b)) for a, b in cv] if isinstance(cv, list) else None
    x0, y0 = x.copy(), y.copy()
    del LOG[:]
    study, replies = trainer.hyperpar_optimizer(x, y, model, n_trials=nt, metric=metric, cv=cv, param_space_fun=space, cv_type=cv_type,
                                                sampler=optuna.samplers.RandomSampler(seed=int(rng.integers(1e6))),
                                                storage_fun=trainer.base_storage_fun if store else None, **kk)
    log = list(LOG)
    m.check(x.equals(x0) and y.equals(y0), 'data-modified', tag)
    m.check(model.get_params() == base and not hasattr(model, 'mu'), 'base-model', '%s: base model is now %s, fitted %s' % (tag, model.get_params(), hasattr(model, 'mu')),
            event='base_model')
    if cv0 is not None:
        m.check(len(cv) == len(cv0) and all(np.array_equal(a, np.array(c)) and np.array_equal(b, np.array(d)) for (a, b), (c, d) in zip(cv0, cv)), 'folds-modified', tag)
    m.check(len(study.trials) == nt and len(asked) == nt, 'trials', '%s: %d run' % (tag, len(study.trials)))
    fits = [e for e in log if e[0] == 'fit']
    per = len(masks) if cv_type == 'full' else 1
    if not m.check(len(fits) == nt * per, 'fits-per-trial', '%s: %d fits for %d trials of %d folds' % (tag, len(fits), nt, len(masks)), event='fits'):
        return
    pos = [i for i, e in enumerate(log) if e[0] == 'fit'] + [len(log)]
    if store:
        m.check(len(replies) == nt, 'stored', '%s: %d stored results' % (tag, len(replies)))
    for t, trial in enumerate(study.trials):
        par = dict(base, **asked[t])
        m.check(all(np.isclose(trial.params[k], v) if not isinstance(v, str) else trial.params[k] == v for k, v in asked[t].items()), 'trial-params', tag)
        scores, hats = [], []
        for j in range(per):
            e = fits[t * per + j]
            m.ev('fits')
            m.check(not e[5], 'fresh-model', '%s: the model of trial %d fold %d was already fitted' % (tag, t, j), event='fresh_models')
            m.check(e[2] == par, 'parameters', '%s trial %d: fitted with %s expected %s' % (tag, t, e[2], par))
            hit = [f for f in ([j] if cv_type == 'full' else range(len(masks))) if same(e[3], x[masks[f][0]]) and same(e[4], y[masks[f][0]])]
            if not m.check(hit, 'training-rows', '%s trial %d fold %d: fitted on %d rows, fold has %s' % (tag, t, j, len(e[3]), [int(a.sum()) for a, _ in masks]), event='fits'):
                return
            evs = [v for v in log[pos[t * per + j] + 1:pos[t * per + j + 1]] if v[0] == 'predict' and v[1] == e[1]]
            ok = [f for f in hit if len(evs) and all(same(v[3], x[masks[f][1]]) for v in evs[:1])]
            m.check(ok, 'test-rows', '%s trial %d fold %d: evaluated on other rows than those of the fold' % (tag, t, j), event='evaluations')
            f = (ok or hit)[0]
            h = np.broadcast_to(simulate(par, x[masks[f][0]].values, y[masks[f][0]].values, x[masks[f][1]].values), (int(masks[f][1].sum()), T))
            hats.append((f, h))
            scores.append(score(mname, h, y[masks[f][1]].values))
        if all(abs(int(masks[f][1].sum()) - T) > 0 for f, _ in hats):
            m.close(trial.value, np.mean(scores), 'trial-value', '%s trial %d' % (tag, t), rtol=1e-8, event='trial_values')
            if cv_type == 'full':
                m.close(trial.user_attrs['cv_test_scores'], scores, 'fold-scores', '%s trial %d' % (tag, t), rtol=1e-8)
        if store:
            r = replies[t]
            if cv_type == 'full':
                m.check(set(r) == {'fold_%d' % i for i in range(per)}, 'stored', '%s: %s' % (tag, list(r)))
            for i, (f, h) in enumerate(hats):
                got = r['fold_%d' % i] if cv_type == 'full' else r
                m.check(got.index.equals(x.index[masks[f][1]]), 'stored-rows', '%s trial %d fold %d' % (tag, t, f), event='stored')
                m.close(got.values, h, 'stored-forecasts', '%s trial %d fold %d' % (tag, t, f), rtol=1e-8, event='stored')
    tab = trainer.retrieve_cv_results(study)
    v = np.array([t.value for t in study.trials])
    m.close(tab['value'].values, v, 'results-table', tag)
    m.check([int(r) for r in tab['rank']] == [1 + int((np.unique(v) < a).sum()) for a in v], 'ranks', '%s: %s for %s' % (tag, list(tab['rank']), v))
    if cv_type == 'full':
        m.close(tab['cv_test_score_std'].values, [np.std(t.user_attrs['cv_test_scores']) for t in study.trials], 'results-table', tag)
    m.ev('random_fold' if cv_type != 'full' else 'full')
    if cond:
        m.ev('conditional_space')
    if nt > 1:
        m.nontrivial(cv_type, form, mname, store, nt, cond, n, T)
    m.say(cv_type=cv_type, folds=form, metric=mname, trials=nt, conditional=cond, storage=store)


def plain(m, rng, tier):
    """cross_validate called directly, with dictionaries of scores"""
    from pyforecaster import trainer, metrics as me
    Spy = spy_class()
    x, y = make_data(rng)
    n, T = len(x), y.shape[1]
    form, cv, masks = make_folds(rng, n)
    cv_type = ['full', 'random_fold'][rng.integers(2)]
    base = dict(a=float(rng.normal()), b=float(rng.normal()), c='q', d=1)
    model = Spy(**base)
    names = [str(k) for k in rng.permutation(['nmae', 'rmse', 'mape'])[:int(rng.integers(1, 4))]]
    scoring = {k: me.make_scorer(getattr(me, k)) for k in names}
    del LOG[:]
    key = None
    if rng.random() < 0.4 and cv_type == 'full':
        key = 'test_' + names[-1]
    res, s = trainer.cross_validate(x, y, model, cv, scoring=scoring, cv_type=cv_type, score_key=key, storage_fun=trainer.base_storage_fun if rng.random() < 0.5 else None)
    tag = 'cross_validate %s %s %s' % (cv_type, form, names)
    main = key[5:] if key else names[0]
    sims = []
    for A, B in masks:
        h = np.broadcast_to(simulate(base, x[A].values, y[A].values, x[B].values), (int(B.sum()), T))
        sims.append({k: score(k, h, y[B].values) for k in names})
    if any(int(B.sum()) == T for _, B in masks):
        return
    fit = [e for e in LOG if e[0] == 'fit']
    if cv_type == 'full':
        m.close(s, np.mean([v[main] for v in sims]), 'cv-score', tag, rtol=1e-8, event='trial_values')
        for k in names:
            m.close(res['test_' + k], [v[k] for v in sims], 'cv-scores', '%s %s' % (tag, k), rtol=1e-8, event='trial_values')
        m.check(len(fit) == len(masks), 'fits-per-trial', tag, event='fits')
    else:
        f = [i for i in range(len(masks)) if same(fit[0][3], x[masks[i][0]])]
        m.check(len(fit) == 1 and f, 'training-rows', tag, event='fits')
        m.check(any(abs(s - sims[i][main]) < 1e-8 for i in f), 'cv-score', '%s: %s not in %s' % (tag, s, [sims[i][main] for i in f]), event='trial_values')
    m.check(model.get_params() == base and not hasattr(model, 'mu'), 'base-model', '%s: the model of the caller was modified' % tag, event='base_model')
    m.nontrivial('cv', cv_type, form, names, n, T)


def real(m, rng, tier):
    """real forecasters: the trial value equals that of new models with the parameters of the trial"""
    import optuna
    from pyforecaster import trainer, metrics as me
    optuna.logging.set_verbosity(optuna.logging.CRITICAL)
    name = ['linear', 'lgb', 'hybrid', 'qrf'][rng.integers(4)]
    x, y = M.dataset(rng, n=160, T=int(rng.integers(1, 4)))
    kw = M.settings(rng, name, y.shape[1])
    model = M.make(name, **kw)
    p0 = {k: str(v) for k, v in model.get_params().items()}
    form, cv, masks = make_folds(rng, len(x))
    cv = [(np.flatnonzero(a), np.flatnonzero(b)) for a, b in masks]
    metric = [me.rmse, me.crps][rng.integers(2)]

    def space(trial):
        return {'kind': trial.suggest_categorical('kind', ['linear', 'ridge'])} if name == 'linear' else {'n_estimators': trial.suggest_int('n_estimators', 3, 12)}

    study, _ = trainer.hyperpar_optimizer(x, y, model, n_trials=2, metric=metric, cv=cv, param_space_fun=space,
                                          sampler=optuna.samplers.RandomSampler(seed=int(rng.integers(1e6))))
    for t in study.trials:
        vals = []
        for A, B in masks:
            f = M.make(name, **dict(kw, **t.params)).fit(x[A].copy(), y[A].copy())
            vals.append(float(me.make_scorer(metric)(f, x[B].copy(), y[B].copy())))
        if name != 'hybrid':     # its random feature subset is drawn from the global generator
            m.close(t.value, np.mean(vals), 'real-trial-value', '%s %s %s' % (name, kw, t.params), rtol=1e-6, event='real_models')
    m.check({k: str(v) for k, v in model.get_params().items()} == p0, 'base-model', name, event='base_model')
    m.nontrivial('real', name, sorted(kw.items()), len(x), y.shape[1])


WORKLOADS = [W('tuning', tuning, 110, 1200), W('plain', plain, 50, 500), W('real', real, 8, 60)]
