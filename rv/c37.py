"""C37 compiled kernels: run with bounds checking while every call is replayed by the interpreter on copies of its arguments."""
import contextlib
import copy
import importlib
import io
import os
import pkgutil
import sys
os.environ['NUMBA_BOUNDSCHECK'] = '1'
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D
from rv import models as M

PROP = 'C37'
RULE = ('one case = real use of a compiled kernel (tree reduction and superposition, smoothing recursion, Kalman steps, binned regressions) on a random, often minimal, '
        'shape; the kernels are compiled with bounds checks, each call is repeated by the interpreted function on copies and results and written arguments compared; '
        'non-trivial: distinct argument shapes')
REQUIRED = {'compiled_calls': 250, 'compared_calls': 150, 'tree_kernel': 20, 'smoothing_kernel': 20, 'kalman_kernel': 15, 'binned_kernel': 15}
QUICK_S = 200
KEYS = {'_get_network': 'tree_kernel', '_superimpose_signal_to_tree': 'tree_kernel', 'run': 'smoothing_kernel'}


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


class Hook:
    """stands in for a compiled function; the code under test calls it as before"""
    monitor, depth, sampled = None, 0, {}

    def __init__(self, disp, where, event):
        self.disp, self.where, self.event = disp, where, event

    def __getattr__(self, k):
        return getattr(self.__dict__['disp'], k)

    def __call__(self, *a, **k):
        m = Hook.monitor
        if m is None or Hook.depth:
            return self.disp(*a, **k)
        n = Hook.sampled[self.where] = Hook.sampled.get(self.where, 0) + 1
        compare = n <= 8 or n % 37 == 0
        if compare:
            b, c = copy.deepcopy((a, k)), copy.deepcopy((a, k))
        out = self.disp(*a, **k)
        m.ev('compiled_calls')
        m.ev(self.event)
        m.nontrivial(self.where, *[getattr(x, 'shape', None) for x in a])
        if compare:
            Hook.depth += 1
            try:
                with np.errstate(all='ignore'):
                    ref = self.disp.py_func(*b[0], **b[1])
            finally:
                Hook.depth -= 1
            m.ev('compared_calls')
            tag = '%s%s' % (self.where, [getattr(x, 'shape', x if np.isscalar(x) else type(x).__name__) for x in a])
            same(m, out, ref, tag + ' result')
            same(m, list(a), list(b[0]), tag + ' argument')
        return out


def same(m, x, y, tag):
    if isinstance(x, (list, tuple)) or type(x).__name__ in ('List', 'ReflectedList'):
        x, y = list(x), list(y)
        if m.check(len(x) == len(y), 'differs-interpreted', '%s: lengths %d and %d' % (tag, len(x), len(y))):
            for i, (p, q) in enumerate(zip(x, y)):
                same(m, p, q, '%s[%d]' % (tag, i))
        return
    if callable(x) or x is None or isinstance(x, str):
        return
    x, y = np.asarray(x), np.asarray(y)
    if x.dtype.kind not in 'fiubc' or y.dtype.kind not in 'fiubc':
        return
    s = np.nanmax(np.abs(y[np.isfinite(y)])) if np.isfinite(y).any() else 0
    m.close(x, y, 'differs-interpreted', tag, rtol=1e-6, atol=1e-9 * (1 + s))


@contextlib.contextmanager
def watched(m):
    """hook every compiled function of the package wherever it is referenced"""
    from numba.core.registry import CPUDispatcher
    import numba
    numba.config.BOUNDSCHECK = 1
    import pyforecaster
    import pyforecaster.scenred, pyforecaster.utilities
    import pyforecaster.forecasting_models.holtwinters, pyforecaster.forecasting_models.fast_adaptive_models, pyforecaster.forecasting_models.random_fourier_features
    undo, made = [], {}
    for name, mod in list(sys.modules.items()):
        if not name.startswith('pyforecaster') or mod is None:
            continue
        ev = {'scenred': 'tree_kernel', 'holtwinters': 'smoothing_kernel', 'random_fourier_features': 'binned_kernel', 'utilities': 'kalman_kernel'}.get(name.split('.')[-1])
        for k, v in list(vars(mod).items()):
            if isinstance(v, CPUDispatcher):
                if id(v) not in made:
                    home = v.py_func.__module__.split('.')[-1]
                    e = {'scenred': 'tree_kernel', 'holtwinters': 'smoothing_kernel', 'random_fourier_features': 'binned_kernel', 'utilities': 'kalman_kernel'}.get(home, 'other_kernel')
                    made[id(v)] = Hook(v, '%s.%s' % (home, v.py_func.__name__), e)
                undo.append((mod, k, v))
    # compiled functions refer to each other by module globals at compile time: compile first, then hook
    warm()
    for mod, k, v in undo:
        setattr(mod, k, made[id(v)])
    Hook.monitor, Hook.sampled = m, {}
    try:
        yield
    finally:
        Hook.monitor = None
        for mod, k, v in undo:
            setattr(mod, k, v)


_WARM = []


def warm():
    """resolve the references between compiled functions for every signature used below"""
    if _WARM:
        return
    _WARM.append(1)
    rng = np.random.default_rng(0)
    for f in (tree_use, smoothing_use, kalman_use, binned_use):
        for _ in range(2):
            f(rng)


def tree_use(rng):
    from pyforecaster.scenred import scenred, superimpose_signal_to_tree
    T, n = int(rng.integers(2, 9)), int(rng.integers(2, 14))
    nv = int(rng.integers(1, 3)) if rng.random() < 0.3 else 1
    s = rng.normal(0, 1, (T, n, nv)).cumsum(0) if nv > 1 else rng.normal(0, 1, (T, n)).cumsum(0)
    if rng.random() < 0.3:
        s = np.round(s)                                     # equal values
    if rng.random() < 0.3:
        s = s + 100
    nodes = np.maximum.accumulate(rng.integers(1, n + 1, T))
    nodes[0] = 1
    kw = {}
    if rng.random() < 0.3:
        out = scenred(s, metric='euclidean', nodes=nodes)
    elif rng.random() < 0.3 and nv == 1:
        out = scenred(s, tol=float(rng.uniform(0.1, 2)))
    else:
        out = scenred(s, nodes=nodes)
    g = out[4]
    if nv == 1:
        superimpose_signal_to_tree(pd.Series(rng.normal(0, 1, T)), g)
    if rng.random() < 0.3:
        superimpose_signal_to_tree(pd.Series(np.zeros(T + int(rng.integers(0, 3)))), g) if nv == 1 else None
    return g


def smoothing_use(rng):
    from pyforecaster.forecasting_models.holtwinters import HoltWinters, HoltWintersMulti
    p = [int(i) for i in rng.integers(1, 8, 2)]
    n_sa = int(rng.integers(1, 12))
    n = int(rng.integers(n_sa + max(p) + 6, n_sa + max(p) + 60))
    df = pd.DataFrame({'y': rng.normal(0, 1, n) + 3}, index=pd.date_range('2024-01-01', periods=n, freq='1h'))
    if rng.random() < 0.25:
        df.iloc[rng.integers(1, n - 1, 2), 0] = np.nan if rng.random() < 0.0 else df.iloc[0, 0]
    con = None if rng.random() < 0.5 else [-1.0, 1.0]
    kw = dict(periods=p, target_name='y', n_sa=n_sa, optimize_hyperpars=False, verbose=False, constraints=con, q_vect=[0.1, 0.5, 0.9])
    if rng.random() < 0.3:
        steps = [int(i) for i in np.unique(rng.integers(1, n_sa + 1, 2))]
        if steps[-1] != n_sa:
            steps.append(n_sa)
        f = HoltWintersMulti(models_periods=np.array(steps), optimize_submodels_hyperpars=False, alphas=np.full(len(steps), 0.2), gammas_1=np.full(len(steps), 0.1),
                             gammas_2=np.full(len(steps), 0.1), **kw)
    else:
        f = HoltWinters(alpha=0.3, beta=float(rng.choice([0, 0.1])), gamma_1=0.2, gamma_2=0.1, **kw)
    te = df.iloc[-1:] if rng.random() < 0.3 else df.iloc[-5:]
    quiet(f.fit, df)
    te = te.copy()
    te.index = te.index + pd.Timedelta(hours=len(te))
    quiet(f.predict, te)
    if rng.random() < 0.3:
        te.iloc[-1] = np.nan
        quiet(f.predict, te)


def kalman_use(rng):
    from pyforecaster import utilities as U
    d, o = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    B = rng.normal(0, 1, (d, d))
    x, P, F, Q = rng.normal(0, 1, d), B @ B.T + np.eye(d), rng.normal(0, 0.5, (d, d)), np.eye(d) * float(rng.uniform(0, 1))
    H, R = rng.normal(0, 1, (o, d)), np.eye(o) * float(rng.uniform(0.1, 2))
    for _ in range(3):
        x, P = U.kalman(x, P, F, Q, rng.normal(0, 1, o), H, R)
    if rng.random() < 0.5:
        from pyforecaster.forecasting_models.fast_adaptive_models import FK
        n, w = int(rng.integers(30, 60)), int(rng.integers(4, 12))
        df = pd.DataFrame({'y': rng.normal(0, 1, n)}, index=pd.date_range('2024-01-01', periods=n, freq='1h'))
        f = FK(m=w, n_sa=int(rng.integers(1, 6)), target_name='y', optimize_hyperpars=False, n_harmonics=int(rng.integers(1, max(2, w // 2 - 1))), q_vect=[0.1, 0.9],
               periodicity=w, verbose=False)
        quiet(f.fit, df)
        quiet(f.predict, df.iloc[-3:])


def binned_use(rng):
    from pyforecaster.forecasting_models.random_fourier_features import BrutalRegressor
    n, k, T = int(rng.integers(3, 80)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
    x, y = rng.normal(0, 1, (n, k)), pd.DataFrame(rng.normal(0, 1, (n, T)), columns=['t%d' % i for i in range(T)])
    if rng.random() < 0.3:
        x = np.round(x)
    x = pd.DataFrame(x, index=pd.date_range('2024-01-01', periods=n, freq='1h'))
    y.index = x.index
    f = BrutalRegressor(n_iter=int(rng.integers(1, 5)), n_bins=int(rng.integers(1, 14)), learning_rate=0.3, bootstrap_fraction=float(rng.choice([0.4, 1.0])))
    quiet(f.fit, x, y)
    far = x * float(rng.choice([1, 100]))                       # beyond the bins seen when fitting
    quiet(f.predict, far)


def tree(m, rng, tier):
    with watched(m):
        for _ in range(6):
            tree_use(rng)


def smoothing(m, rng, tier):
    with watched(m):
        for _ in range(4):
            smoothing_use(rng)


def kalman(m, rng, tier):
    with watched(m):
        for _ in range(5):
            kalman_use(rng)


def binned(m, rng, tier):
    with watched(m):
        for _ in range(4):
            binned_use(rng)


def generator(m, rng, tier):
    """the kernels inside the forecasters' own scenario trees"""
    from pyforecaster.forecaster import LinearForecaster
    x, y = M.dataset(rng, n=150, T=int(rng.integers(2, 6)), all_hours=True)
    T = y.shape[1]
    with watched(m):
        f = LinearForecaster(q_vect=[0.1, 0.5, 0.9], val_ratio=0.3, nodes_at_step=np.maximum.accumulate(np.r_[1, rng.integers(1, 6, T - 1)]), tree_type='ScenredTree')
        quiet(f.fit, x, y)
        quiet(f.predict_trees, x.iloc[:2], n_scen=int(rng.integers(6, 20)))


WORKLOADS = [W('tree', tree, quick=24, thorough=600), W('smoothing', smoothing, quick=20, thorough=500), W('kalman', kalman, quick=14, thorough=400),
             W('binned', binned, quick=14, thorough=400), W('generator', generator, quick=8, thorough=150)]
