"""C10: predictions, conditional deviations, residuals and imputed cells of CellMCD belong to its estimates."""
import numpy as np

from rv import gen, ref

RULE = (
    "data set per case: clean, cellwise contaminated, rounded and rescaled data with 0-15% missing cells, rows with one, all but one "
    "or all cells missing, DataFrame or array; non-trivial: every cell's conditional mean and deviation was recomputed"
)
ASSUME = ["residual rescaling uses the one-step wrapping scale of each column (reference in rv/ref.py)"]
REQUIRE = {"cells": 2000, "flagged cells": 50, "missing cells": 50, "rows without any unflagged cell": 5, "rows with one unflagged cell": 5}
FAMS = ("gauss", "cells", "rounded", "scaled", "shifted", "cluster")


def cases(tier):
    return [{"kind": f, "i": r} for f in FAMS for r in range(20 if tier == "quick" else 150)]


def contaminate(rng, X, nan, flag=0.06):
    """X with missing cells and moderate cell outliers, at most 20% of the cells of a column."""
    n, p = X.shape
    X = X.copy()
    s, m = ref.mad(X), np.median(X, axis=0)
    for j in range(p):
        k = rng.permutation(n)
        a, b = int(nan * n), int(flag * n)
        X[k[:a], j] = np.nan
        X[k[a : a + b], j] = m[j] + s[j] * rng.choice([-1, 1], b) * rng.uniform(4, 15, b)
    return X


def run(case, mon):
    from robpy.covariance import CellMCD

    rng = mon.rng
    p = int(rng.integers(2, 7))
    if case["i"] % 11 == 10:
        p = 1
        mon.seen("one variable")
    n = int(rng.integers(12 * p, 22 * p)) + 10
    X = gen.multi(rng, case["kind"], n, p, eps=0.08)
    nan = float(rng.choice([0, 0.03, 0.1]))
    X = contaminate(rng, X, nan, float(rng.choice([0, 0.04, 0.08])) if case["kind"] != "cells" else 0.0)
    if case["i"] % 2:  # hostile rows
        X[0] = np.nan
        X[1, 1:] = np.nan
        X[2, 0] = np.nan
    if case["i"] % 5 == 4:  # whole numbers
        X = np.round(np.where(np.isnan(X), np.nanmedian(X, axis=0), X) / ref.mad(np.where(np.isnan(X), np.nanmedian(X, axis=0), X)) * 60)
        mon.seen("integers")
    mon.input(X)
    est = CellMCD(alpha=float(rng.choice([0.5, 0.65, 0.75])), quantile=float(rng.choice([0.97, 0.99, 0.995])))
    data = gen.frame(rng, X, gen.FRAMES[case["i"] % 5]) if case["i"] % 3 == 0 else X
    if case["i"] % 5 == 4:
        data = data.astype([np.int64, np.int32][case["i"] // 5 % 2])
    try:
        est.fit(data)
    except ValueError as e:
        if "marginal" in str(e):
            from rv.core import Skip

            raise Skip("too many marginal outliers")
        raise
    mu, S, W = np.asarray(est.location_), np.asarray(est.covariance_), np.asarray(est.W)
    mon.ok(W.shape == X.shape and set(np.unique(W)) <= {0.0, 1.0}, "W is not a 0/1 matrix of the shape of the data")
    mon.ok(not W[np.isnan(X)].any(), "a missing cell counts as unflagged")
    sd = np.sqrt(np.diag(S))
    Xs = np.where(np.isnan(X), 0.0, X)
    P, C = np.empty((n, p)), np.empty((n, p))
    for i in range(n):
        m, v = ref.cond_moments(mu, S, Xs[i], np.flatnonzero(W[i]), range(p))
        P[i], C[i] = m, np.sqrt(v)
    tol = 1e-7 * np.linalg.cond(S / np.outer(sd, sd))
    mon.close(est.predictions / sd, P / sd, "prediction is not the conditional mean given the other unflagged cells of the row", rtol=tol, atol=tol * (1 + np.max(np.abs(mu / sd))))
    mon.close(est.conditional_stds / sd, C / sd, "conditional standard deviation", rtol=1e-5, atol=1e-6)
    mon.same(np.asarray(est.X_imputed)[W == 1], X[W == 1], "unflagged cells must be kept in X_imputed")
    mon.same(np.asarray(est.X_imputed)[W == 0], np.asarray(est.predictions)[W == 0], "flagged cells of X_imputed must be the predictions")
    mon.ok(np.isfinite(est.X_imputed).all(), "X_imputed is not finite")
    mon.same(np.isnan(est.residuals), np.isnan(X), "residuals are missing exactly for missing cells")
    raw = (X - np.asarray(est.predictions)) / np.asarray(est.conditional_stds)
    for j in range(p):
        r = raw[:, j][~np.isnan(raw[:, j])]
        _, s, margin = ref.one_step_wrapping(r)
        if margin < 1e-7:
            continue
        mon.close(np.asarray(est.residuals)[~np.isnan(raw[:, j]), j], r / s, "standardised residuals", rtol=1e-6, atol=1e-8, column=j)
    mon.seen("cells", n * p)
    mon.seen("missing cells", np.isnan(X).sum())
    mon.seen("flagged cells", ((W == 0) & ~np.isnan(X)).sum())
    mon.seen("rows without any unflagged cell", (W.sum(axis=1) == 0).sum())
    mon.seen("rows with one unflagged cell", (W.sum(axis=1) == 1).sum())
    for w in np.unique(W, axis=0):
        mon.state(p, tuple(w))
    mon.note(n=n, p=p, flagged=int((W == 0).sum()), missing=int(np.isnan(X).sum()))
