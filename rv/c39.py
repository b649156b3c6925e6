"""C39 Sequence network: the arrays handed to the trained network and the forecasts read back, against windows cut by hand."""
import contextlib
import io
import numpy as np
import pandas as pd
from rv.common import W
from rv import data as D

PROP = 'C39'
RULE = ('one case = series with exogenous columns in random order, history length, horizon, validation share; the training call of the network is '
        'recorded and every window, exogenous row and target compared with the raw series; forecasts are recomputed from hand-cut windows, rows outside '
        'the window are replaced, the newest row changed, the data cut to the minimum; non-trivial: history and horizon over one')
REQUIRED = {'training_windows': 8, 'training_targets': 8, 'training_exogenous': 8, 'split': 8, 'forecast': 8, 'outside_window': 8, 'newest_row': 8, 'minimum_rows': 8}
QUICK_S = 250


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


class Recorder:
    """records what the network is trained on, at the library boundary."""

    def __enter__(self):
        from tensorflow import keras
        self.cls, self.calls = keras.Model, []
        orig, rec = keras.Model.fit, self.calls

        def fit(net, x=None, y=None, *a, **k):
            rec.append((net, [np.array(i) for i in x], np.array(y), k.get('validation_data')))
            return orig(net, x, y, *a, **k)

        self.had = 'fit' in keras.Model.__dict__
        self.orig = orig
        keras.Model.fit = fit
        return self

    def __exit__(self, *a):
        if self.had:
            self.cls.fit = self.orig
        else:
            del self.cls.fit


def affine(raw, scaled):
    """the one affine map taking raw to scaled, and its largest error."""
    r, s = np.ravel(raw).astype(float), np.ravel(scaled).astype(float)
    A = np.c_[r, np.ones(len(r))]
    c = np.linalg.lstsq(A, s, rcond=None)[0]
    return c, float(np.abs(A @ c - s).max())


def case(m, rng, tier):
    import tensorflow as tf
    from pyforecaster.forecasting_models.neural_models.LSTM_bidir import LSTM_Forecaster
    tf.keras.utils.set_random_seed(int(rng.integers(1 << 30)))
    n = int(rng.integers(70, 130))
    H, P, k = int(rng.integers(1, 9)), int(rng.integers(1, 6)), int(rng.integers(1, 4))
    idx = D.index(rng, n, step=['1h', '30min'][rng.integers(2)], tz=[None, 'UTC'][rng.integers(2)])
    df = pd.DataFrame({'y': np.cumsum(rng.normal(0, 1, n)) + rng.uniform(-20, 20)}, index=idx)
    for j in range(k):
        df['x%d' % j] = rng.normal(rng.uniform(-5, 5), rng.uniform(0.5, 4), n)
    df = df[[df.columns[i] for i in rng.permutation(k + 1)]]
    exo = [c for c in df.columns if c != 'y']
    n_tr = n - int(rng.integers(20, 30))
    tr, te = df.iloc[:n_tr].copy(), df.iloc[n_tr:].copy()
    vs = float(rng.choice([0.1, 0.2, 0.35]))
    tag = 'history %d horizon %d columns %s val %s rows %d' % (H, P, list(df.columns), vs, n_tr)
    f = LSTM_Forecaster('y', lstm_history=H, pred_horizon=P)
    tr0 = tr.copy()
    with Recorder() as R:
        out = quiet(f.fit, tr, epochs=int(rng.integers(1, 3)), batch_size=16, val_split=vs, verbose=0)
    m.check(tr.equals(tr0), 'data-modified', 'fit')
    m.check(out is f, 'fit-returns-self', tag)
    m.check(len(R.calls) == 1, 'one-training-call', '%s: %d' % (tag, len(R.calls)))
    net, (ws, es), ys, val = R.calls[-1]
    N = n_tr - H - P + 1
    y, x = tr['y'].values, tr[exo].values
    Wd = np.array([y[i:i + H] for i in range(N)])
    T = np.array([y[i + H:i + H + P] for i in range(N)])
    E = np.array([x[i + H - 1] for i in range(N)])
    (wv, ev), yv = [np.array(i) for i in val[0]], np.array(val[1])
    n1 = len(ws)
    m.check(len(ys) == n1 == len(es) and len(yv) == len(wv) == len(ev) and n1 + len(wv) == N, 'rows-used', '%s: %d + %d of %d' % (tag, n1, len(wv), N))
    m.check(abs(n1 - (1 - vs) * N) <= 1, 'split', '%s: %d training rows of %d' % (tag, n1, N), event='split')
    ws, es, ys = np.concatenate([ws, wv]).reshape(-1, H), np.concatenate([es, ev]), np.concatenate([ys, yv])
    if ws.shape != Wd.shape or es.shape != E.shape or ys.shape != T.shape:
        m.check(False, 'training-shapes', '%s: %s %s %s' % (tag, ws.shape, es.shape, ys.shape))
        return
    c, err = affine(np.r_[Wd.ravel(), T.ravel()], np.r_[ws.ravel(), ys.ravel()])
    m.check(affine(Wd, ws)[1] < 1e-6, 'training-windows', '%s: the network sees other windows than the last %d values' % (tag, H), event='training_windows')
    m.check(affine(T, ys)[1] < 1e-6 and err < 1e-6, 'training-targets', '%s: targets are not the %d values after the window' % (tag, P), event='training_targets')
    ce = []
    for j in range(k):
        a, e = affine(E[:, j], es[:, j])
        ce.append(a)
        m.check(e < 1e-6, 'training-exogenous', '%s: exogenous column %s is not the one of the last window row' % (tag, exo[j]), event='training_exogenous')
    if m.viol:
        return
    # forecasts
    te0 = te.copy()
    p = quiet(f.predict, te)
    m.check(te.equals(te0), 'data-modified', 'predict')
    rows = len(te) - H + 1
    m.check(p.index.equals(te.index[H - 1:]) and p.shape == (rows, P), 'rows', '%s: %s rows first %s' % (tag, p.shape, p.index[0]))
    m.check(list(p.columns) == ['y_%d' % (i + 1) for i in range(P)], 'labels', '%s: %s' % (tag, list(p.columns)))
    yt, xt = te['y'].values, te[exo].values
    w = np.array([yt[i:i + H] for i in range(rows)]) * c[0] + c[1]
    e = np.stack([xt[H - 1:, j] * ce[j][0] + ce[j][1] for j in range(k)], 1)
    raw = quiet(net.predict, [w[:, :, None], e], verbose=0)
    want = (np.asarray(raw, float) - c[1]) / c[0]
    sc = 1 + np.abs(want).max()
    tol = dict(rtol=1e-4, atol=2e-5 * sc)
    if not m.close(p.values, want, 'forecast', tag, event='forecast', **tol):
        return
    m.close(quiet(f.predict, te).values, p.values, 'repeat', tag, **tol)
    # only the window matters, and all of it
    t = int(rng.integers(H - 1, len(te)))
    te2 = te.copy()
    te2.iloc[:t - H + 1] = rng.normal(60, 10, te2.iloc[:t - H + 1].shape)
    te2.iloc[t + 1:] = rng.normal(60, 10, te2.iloc[t + 1:].shape)
    m.close(quiet(f.predict, te2).values[t - H + 1], p.values[t - H + 1], 'outside-window', '%s: row %d' % (tag, t), event='outside_window', **tol)
    for what, col in (('target', 'y'), ('exogenous', exo[int(rng.integers(k))])):
        te2 = te.copy()
        te2.iloc[t, te2.columns.get_loc(col)] += 30
        d = np.abs(quiet(f.predict, te2).values[t - H + 1] - p.values[t - H + 1]).max()
        m.check(d > 1e-4 * sc, 'newest-row', '%s: %s of row %d does not reach its forecast' % (tag, what, t), event='newest_row')
    q = quiet(f.predict, te.iloc[t - H + 1:t + 1])
    m.check(len(q) == 1 and q.index[0] == te.index[t], 'minimum-rows', '%s: %s' % (tag, q.index), event='minimum_rows')
    m.close(q.values[0], p.values[t - H + 1], 'minimum-rows', tag, **tol)
    if H > 1 and P > 1:
        m.nontrivial(H, P, k, n, vs)
    m.say(history=H, horizon=P, exogenous=k, rows=n_tr, validation=vs)


WORKLOADS = [W('windows', case, 16, 200)]
