"""Score data and definitions written directly from the mathematics."""
import numpy as np
import pandas as pd
from rv import data as D


def tables(rng, n=None, T=None, tz='rand'):
    n = n or int(rng.integers(30, 160) if rng.random() < 0.93 else rng.integers(160, 900))
    T = T or int(rng.integers(1, 7) if rng.random() < 0.85 else rng.integers(7, 25))
    if n == T:
        n += 1
    idx = D.index(rng, n, tz=tz)
    if rng.random() < 0.3:
        idx = idx[rng.permutation(n)]
    cols = list('zyxwvutsrqponmlkjihgfedcba'[:T]) if rng.random() < 0.5 else list(range(T))
    t = pd.DataFrame(rng.normal(rng.normal(0, 3), rng.uniform(0.1, 5), (n, T)), index=idx, columns=cols)
    if rng.random() < 0.3:
        t = t.round(0)
    if rng.random() < 0.15:
        t.iloc[:, int(rng.integers(T))] = 0.0
    x = t + rng.normal(0.2, 1, (n, T))
    if rng.random() < 0.3:
        x = x.round(0)
    return x, t


def qtable(rng, t, Q=None, alphas=None):
    Q = Q or int(rng.integers(2, 8) if rng.random() < 0.75 else rng.integers(8, 25))
    n, T = t.shape
    if Q == T:
        Q += 1
    al = np.sort(rng.choice(np.arange(1, 100), Q, replace=False)) / 100 if alphas is None else alphas
    q = np.sort(t.values[:, :, None] + rng.normal(0, 1.5, (n, T, Q)), axis=2)
    if rng.random() < 0.3:
        q[: n // 3, :, Q // 2] = t.values[: n // 3]          # ties
    df = pd.DataFrame(q.reshape(n, T * Q), index=t.index, columns=pd.MultiIndex.from_product([t.columns, al], names=['target', 'quantile']))
    return q, df, al


def rmse(x, t):
    return np.sqrt(np.nanmean((x - t) ** 2, axis=0))


def mape(x, t):
    return np.nanmean(np.abs(x - t) / (np.abs(t) + 1e-5), axis=0)


def nmae_rows(x, t, inter=True):
    s = np.nanmean(np.abs(t), axis=1)
    off = 0.01 * np.nanmedian(s) + 1e-12 if inter else 1e-12
    return np.abs(x - t) / (s + off)[:, None]


def nmae(x, t, inter=True):
    return np.nanmean(nmae_rows(x, t, inter), axis=0)


def pinball(q, t, a):
    """(n, T) for one level"""
    d = t - q
    return np.where(d >= 0, a * d, (a - 1) * d)


def cover(q, t):
    return np.where(np.isnan(t) | np.isnan(q), np.nan, q > t)
