"""Workload generators. Every generator takes a numpy Generator."""
from __future__ import annotations

import numpy as np
import pandas as pd

# ------------------------------------------------------------------ univariate
UNI = (
    "normal", "t2", "lognormal", "uniform", "rounded", "integer", "ties", "contaminated",
    "far_cluster", "sorted", "two_scales", "arith", "shifted", "tiny", "huge",
)


def uni(rng, family, n):
    z = rng.standard_normal(n)
    if family == "normal":
        x = z
    elif family == "t2":
        x = rng.standard_t(2, n)
    elif family == "lognormal":
        x = np.exp(z)
    elif family == "uniform":
        x = rng.uniform(-1, 1, n)
    elif family == "rounded":
        x = np.round(z, 1)
    elif family == "integer":
        x = rng.integers(-20, 20, n).astype(float)
    elif family == "ties":
        x = rng.choice(np.array([0.1, 0.3, 0.7, 1.1, 2.3, -0.9]), n)
    elif family == "contaminated":
        x = z.copy()
        k = max(0, int(0.3 * n) - 1)
        x[:k] = 50 + 10 * rng.standard_normal(k)
    elif family == "far_cluster":
        x = z.copy()
        k = max(0, int(0.4 * n) - 1)
        x[:k] = 1e6
    elif family == "sorted":
        x = np.sort(z)[:: int(rng.choice([-1, 1]))]
    elif family == "two_scales":
        x = np.where(rng.random(n) < 0.5, z * 1e-3, z)
    elif family == "arith":
        x = 0.1 * np.arange(n) + 0.3
    elif family == "shifted":
        x = z + 1e4
    elif family == "tiny":
        x = z * 1e-6
    elif family == "huge":
        x = z * 1e7 + 3e7
    else:
        raise KeyError(family)
    x = np.ascontiguousarray(x, dtype=float)
    if family != "sorted" and family != "arith":
        rng.shuffle(x)
    return x


# ------------------------------------------------------------------ multivariate
def corr_matrix(rng, p, strength=0.7):
    """Random correlation matrix, well conditioned."""
    A = rng.standard_normal((p, p))
    S = A @ A.T / p
    d = np.sqrt(np.diag(S))
    R = S / np.outer(d, d)
    return strength * R + (1 - strength) * np.eye(p)


def spd(rng, p, cond=50.0):
    Q, _ = np.linalg.qr(rng.standard_normal((p, p)))
    ev = np.exp(rng.uniform(0, np.log(cond), p))
    return (Q * ev) @ Q.T


def nonsingular(rng, p, cond=20.0):
    U, _ = np.linalg.qr(rng.standard_normal((p, p)))
    V, _ = np.linalg.qr(rng.standard_normal((p, p)))
    return (U * np.exp(rng.uniform(-0.5 * np.log(cond), 0.5 * np.log(cond), p))) @ V.T


MULTI = ("gauss", "t3", "lognormal", "rounded", "cluster", "scatter_out", "cells", "scaled", "shifted")


def multi(rng, family, n, p, eps=0.2):
    """n x p data; contaminated families put the outliers at random rows."""
    L = np.linalg.cholesky(corr_matrix(rng, p))
    Z = rng.standard_normal((n, p)) @ L.T
    if family == "gauss":
        X = Z
    elif family == "t3":
        X = Z / np.sqrt(rng.chisquare(3, (n, 1)) / 3)
    elif family == "lognormal":
        X = np.exp(0.6 * Z)
    elif family == "rounded":
        X = np.round(Z, 1)
    elif family == "cluster":
        X = Z.copy()
        k = int(eps * n)
        rows = rng.choice(n, k, replace=False)
        X[rows] = 15 * unit(rng, p) * np.sqrt(p) + 0.3 * rng.standard_normal((k, p))
    elif family == "scatter_out":
        X = Z.copy()
        k = int(eps * n)
        rows = rng.choice(n, k, replace=False)
        X[rows] = 20 * rng.standard_normal((k, p))
    elif family == "cells":
        X = Z.copy()
        k = int(0.05 * n * p)
        idx = rng.choice(n * p, k, replace=False)
        X.ravel()[idx] = rng.choice([-1, 1], k) * rng.uniform(6, 12, k)
    elif family == "scaled":
        X = Z * 10.0 ** rng.uniform(-3, 3, p)
    elif family == "shifted":
        X = Z + 10.0 ** rng.uniform(0, 4, p)
    else:
        raise KeyError(family)
    return np.ascontiguousarray(X, dtype=float)


def unit(rng, p):
    v = rng.standard_normal(p)
    return v / np.linalg.norm(v)


# ------------------------------------------------------------------ regression
REG = ("normal", "t3", "vertical", "leverage", "cluster", "intercept_far", "rounded")


def reg(rng, family, n, p, eps=0.25, sigma=0.5):
    """X (n x p), y (n,), beta (p,), intercept, rows of the outliers."""
    beta = rng.uniform(-3, 3, p)
    a = float(rng.uniform(-5, 5))
    X = rng.standard_normal((n, p))
    e = sigma * rng.standard_normal(n)
    out = np.array([], dtype=int)
    if family == "t3":
        e = sigma * rng.standard_t(3, n)
    if family == "intercept_far":
        a = 1e3
        X = X + 20
    y = a + X @ beta + e
    k = int(eps * n)
    if family in ("vertical", "leverage", "cluster"):
        out = rng.choice(n, k, replace=False)
        if family == "vertical":
            y[out] += rng.choice([-1, 1], k) * rng.uniform(20, 60, k)
        elif family == "leverage":
            X[out] = X[out] + 10 * np.ones(p)
            y[out] = a - X[out] @ beta + 40 + sigma * rng.standard_normal(k)
        else:
            X[out] = 8 + 0.1 * rng.standard_normal((k, p))
            y[out] = -60 + 0.1 * rng.standard_normal(k)
    if family == "rounded":
        X, y = np.round(X, 1), np.round(y, 1)
    return X, y, beta, a, out


# ------------------------------------------------------------------ containers
def frame(rng, X, style):
    """The same values in a DataFrame with a harmless or a hostile index."""
    n, p = X.shape
    cols = [f"v{j}" for j in range(p)]
    if style == "plain":
        return pd.DataFrame(X, columns=cols)
    if style == "shuffled_index":
        return pd.DataFrame(X, columns=cols, index=rng.permutation(n) + 7)
    if style == "dup_index":
        return pd.DataFrame(X, columns=cols, index=rng.integers(0, max(2, n // 3), n))
    if style == "str_index":
        return pd.DataFrame(X, columns=cols, index=[f"r{i % 97}_{i}" for i in range(n)])
    if style == "int_columns":
        return pd.DataFrame(X, columns=list(range(p))[::-1])
    raise KeyError(style)


FRAMES = ("plain", "shuffled_index", "dup_index", "str_index", "int_columns")


def lines(rng):
    """Regression data on several lines, on which the way to a solution matters."""
    p, m = int(rng.integers(1, 4)), int(rng.integers(15, 25))
    X = rng.standard_normal((3 * m, p))
    B = rng.uniform(-5, 5, (3, p))
    y = np.einsum("ij,ij->i", X, np.repeat(B, m, axis=0)) + np.repeat(rng.uniform(-3, 3, 3), m) + 0.5 * rng.standard_normal(3 * m)
    return X, y
