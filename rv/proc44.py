"""Subject of C44: runs a list of library sequences in this process and writes what they returned.

usage: python -m rv.proc44 CASE_SEED OUT.pkl ORDER [OBJECTS.pkl to read]
"""
import io
import os
import pickle
import random
import sys
import time


def makers():
    import numpy as np
    import pandas as pd
    from rv import c42, data as D
    from rv import models as M

    def m_tuning(rng):
        import optuna
        from pyforecaster.trainer import hyperpar_optimizer
        from pyforecaster.forecaster import LinearForecaster
        from pyforecaster.metrics import rmse
        optuna.logging.set_verbosity(50)
        x, y = M.dataset(rng, T=2, n=140)
        s = int(rng.integers(1e5))
        cv = int(rng.integers(2, 4))

        def run(o):
            np.random.seed(s)
            st, _ = c42.quiet(hyperpar_optimizer, x.copy(), y.copy(), LinearForecaster(), n_trials=4, cv=cv,
                              param_space_fun=lambda t: {'kind': t.suggest_categorical('kind', ['linear', 'ridge']), 'val_ratio': t.suggest_float('val_ratio', 0.1, 0.4)},
                              sampler=optuna.samplers.RandomSampler(seed=s), metric=rmse, cv_type=['full', 'random_fold'][s % 2])
            o['best'] = dict(st.best_params)
            return [[dict(t.params), t.value] for t in st.trials]
        return 'tuning', [lambda o: None, run, lambda o: o['best']]

    def m_summary(rng):
        from pyforecaster import metrics as Me
        n, T = 90, 2
        idx = D.index(rng, n, step='1h')
        y = pd.DataFrame(rng.normal(3, 1, (n, T)), index=idx, columns=['t0', 't1'])
        h = y + rng.normal(0, 0.5, (n, T))
        ag = pd.DataFrame({'kind': rng.choice(['low', 'high', 'mid'], n), 'hour': idx.hour, 'level': rng.normal(0, 1, n)}, index=idx)
        return 'summary', [lambda o: None, lambda o: Me.summary_scores(h.copy(), y.copy(), [Me.rmse, Me.nmae, Me.mape], ag.copy(), n_quantiles=4),
                           lambda o: Me.summary_scores(h.copy(), y.copy(), [Me.mape], ag.copy(), n_quantiles=3)]

    return dict(formatter=c42.m_formatter, model=c42.m_model, adaptive=c42.m_adaptive, copula=c42.m_copula, reduction=c42.m_reduction,
                scores=c42.m_scores, categorical=c42.m_categorical, hybrid=c42.m_hybrid, reconciliation=c42.m_reconciliation,
                network=c42.m_net, globally=c42.m_global, tuning=m_tuning, summary=m_summary)


def plan(seed):
    import numpy as np
    rng = np.random.default_rng(seed)
    names = ['formatter', 'formatter', 'globally', 'globally', 'globally', 'model', 'model', 'model', 'adaptive', 'copula', 'reduction', 'scores', 'categorical',
             'hybrid', 'reconciliation', 'tuning', 'summary']
    if rng.random() < 0.34:
        names.append('network')
    return [(n, int(rng.integers(1 << 30))) for n in names]


def main():
    seed, out = int(sys.argv[1]), sys.argv[2]
    order = int(sys.argv[3])
    read = sys.argv[4] if len(sys.argv) > 4 else None
    from rv import common
    common._prepare()
    import numpy as np
    from rv.c42 import digest
    mk = makers()
    stored = pickle.load(open(read, 'rb')) if read else {}
    res, objs, again = [], {}, []
    so = sys.stdout
    sys.stdout = io.StringIO()
    try:
        todo = list(enumerate(plan(seed)))
        if order:                        # what the process did before must not matter
            todo = [todo[i] for i in np.random.default_rng(order).permutation(len(todo))]
        for k, (name, s) in todo:
            np.random.seed(s % (1 << 31))
            random.seed(s)
            label, calls = mk[name](np.random.default_rng(s))
            if read:
                if k in stored:
                    again.append((k, label, digest(calls[-1](pickle.loads(stored[k])))))
                continue
            o, got = {}, []
            for c in calls:
                try:
                    got.append(digest(c(o)))
                except Exception as e:       # the same request must be refused in every process
                    got.append(('raised', type(e).__name__))
                    break
            res.append((k, label, got))
            try:
                objs[k] = pickle.dumps(o)
            except Exception:                # not every object is meant to be stored
                continue
            try:
                again.append((k, label, digest(calls[-1](o))))
            except Exception as e:
                objs.pop(k)
    finally:
        sys.stdout = so
    with open(out, 'wb') as f:
        pickle.dump(dict(res=[r[1:] for r in sorted(res, key=lambda r: r[0])], again=again, hash=hash('pyforecaster'), tz=time.tzname, cwd=os.getcwd()), f)
    if not read:
        with open(out + '.objects', 'wb') as f:
            pickle.dump(objs, f)


if __name__ == '__main__':
    main()
    sys.stdout.flush()
    os._exit(0)
