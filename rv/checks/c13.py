"""C13: DDC finds deviating cells, leaves regular ones alone, and respects rescaling and reordering."""
import numpy as np
import pandas as pd

from rv import gen, ref

RULE = (
    "'planted': deviating cells (visible only through the correlations, or far) and outlying rows in data with a factor structure; 'clean': "
    "the rate of false flags on normal data; 'map': rescaled, negated, shifted, reordered data; 'exact': columns that are multiples of each other; 'policy': input checks. Non-trivial: flags "
    "were judged"
)
ASSUME = ["a planted cell deviates at least 8 conditional standard deviations", "flags within 1e-7 of a cutoff may turn over under transformations"]
REQUIRE = {"planted cells": 500, "planted rows": 50, "clean cells": 20000, "map": 30, "policy": 10, "hidden cells": 100, "exactly predicted cells": 2000}


def cases(tier):
    q = tier == "quick"
    return (
        [{"kind": "planted", "i": r} for r in range(40 if q else 300)]
        + [{"kind": "clean", "i": r} for r in range(24 if q else 150)]
        + [{"kind": "map", "i": r} for r in range(48 if q else 300)]
        + [{"kind": "exact", "i": r} for r in range(16 if q else 100)]
        + [{"kind": "policy", "i": r} for r in range(10 if q else 40)]
    )


def factor_data(rng, n, p, rho=0.9):
    s = rng.choice([-1, 1], p)
    return np.sqrt(rho) * rng.standard_normal((n, 1)) * s + np.sqrt(1 - rho) * rng.standard_normal((n, p))


def run(case, mon):
    from robpy.outliers import DDC
    from robpy.univariate import OneStepWrapping

    rng, i = mon.rng, case["i"]
    p = int(rng.integers(4, 10))
    n = int(rng.integers(100, 220))
    if case["kind"] == "planted":
        p += 3 * (i % 2)  # few variables cannot prove a row outlying: its statistic is at most 1
        Z = factor_data(rng, n, p)
        X = Z.copy()
        cells = rng.random((n, p)) < (0.06 if i % 3 == 0 else 0.02)
        rows = np.zeros(n, bool)
        if i % 2:
            rows[rng.choice(n, n // 12, replace=False)] = True
            cells[rows] = False
        sd = np.sqrt(0.1)
        if i % 3 == 0:
            X[cells] = 10 * rng.choice([-1, 1], cells.sum()) * (1 + rng.random(cells.sum()))
        else:  # values that are not marginally outlying (|x| < 2.4) but contradict the neighbours
            j = np.nonzero(cells)
            k = np.abs(Z[j]) > 1.1
            cells[j[0][~k], j[1][~k]] = False
            X[cells] = -np.sign(Z[cells]) * rng.uniform(1.9, 2.3, cells.sum())
            mon.seen("hidden cells", cells.sum())
        X[rows] = 8 * rng.choice([-1, 1], (rows.sum(), p))
        A, b = 10.0 ** rng.uniform(-2, 2, p), rng.uniform(-50, 50, p)
        X = X * A + b
        mon.input(X)
        kw = {} if i % 4 < 2 else {"scale_estimator": OneStepWrapping()}
        est = DDC(**kw).fit(pd.DataFrame(X))
        flags = np.asarray(est.cellwise_outliers_, bool)
        # rows with several deviating cells may mislead the prediction: judge rows with one deviating cell
        single = cells & (cells.sum(axis=1) == 1)[:, None]
        if single.any():
            mon.ok(flags[single].mean() > (0.99 if i % 3 == 0 else 0.9), "planted cells are not flagged", rate=flags[single].mean(), n=n, p=p, planted=int(single.sum()))
            err = np.abs((np.asarray(est.rescaled_predictions_) - b) / A - Z)[single] / sd
            mon.ok(np.median(err) < (2.5 if single.sum() > 20 else 6), "predictions of deviating cells do not follow the regular cells", median_error=np.median(err))
        mon.ok(flags[rows].mean() > 0.9 if rows.any() else True, "cells of outlying rows are not flagged", rate=flags[rows].mean() if rows.any() else None)
        mon.ok(np.asarray(est.row_outliers_)[rows].mean() > 0.9 if rows.any() else True, "outlying rows are not flagged", rows=int(rows.sum()))
        quiet = ~rows & (cells.sum(axis=1) == 0)
        mon.ok(flags[quiet].mean() < 0.06, "many regular cells are flagged", rate=flags[quiet].mean(), n=n, p=p)
        mon.ok(np.asarray(est.row_outliers_)[quiet].mean() < 0.12, "many regular rows are flagged", rate=np.asarray(est.row_outliers_)[quiet].mean())
        mon.seen("planted cells", single.sum())
        mon.seen("planted rows", rows.sum())
        mon.note(n=n, p=p, found=flags[single].mean() if single.any() else None, false=flags[quiet].mean())
        return
    if case["kind"] == "clean":
        n = int(rng.integers(300, 500))
        q = float(rng.choice([0.95, 0.99, 0.999]))
        X = factor_data(rng, n, p, float(rng.choice([0.0, 0.5, 0.9])))
        mon.input(X)
        est = DDC(chi2_quantile=q).fit(pd.DataFrame(X))
        rate = np.asarray(est.cellwise_outliers_).mean()
        # standard error of the rate is below 0.005; the one-step scale is inflated by 7.5 %
        mon.ok(0.3 * (1 - q) - 0.003 < rate < 1.7 * (1 - q) + 0.006, "rate of flagged regular cells", rate=rate, nominal=1 - q, n=n, p=p)
        m = ref.mad(np.asarray(est.standardized_residuals_).ravel())
        mon.ok(0.75 < m < 1.2, "standardised residuals have no unit scale", mad=m, n=n, p=p, q=q)
        mon.seen("clean cells", n * p)
        mon.note(n=n, p=p, q=q, rate=rate)
        return
    if case["kind"] == "map":
        n = int(rng.integers(40, 100))
        X = gen.multi(rng, ["gauss", "cells", "t3", "cluster"][i % 4], n, p, eps=0.1)
        X[rng.random((n, p)) < 0.03] = np.nan
        mon.input(X)
        e1 = DDC().fit(pd.DataFrame(X))
        A = 10.0 ** rng.uniform(-6, 6, p) * rng.choice([-1, 1], p)
        b = A * rng.uniform(-20, 20, p) if i % 3 else 0.0
        rows, cols = rng.permutation(n), rng.permutation(p)
        Y = (X * A + b)[rows][:, cols]
        e2 = DDC().fit(gen.frame(rng, Y, gen.FRAMES[i % 5]))
        r1 = np.asarray(e1.standardized_residuals_)[rows][:, cols] * np.sign(A)[cols]
        mon.close(e2.standardized_residuals_, r1, "residuals of transformed data", rtol=1e-5, atol=1e-5)
        near = np.abs(np.abs(r1) - e1.cutoff) < 1e-4
        mon.same(np.asarray(e2.cellwise_outliers_)[~near], np.asarray(e1.cellwise_outliers_)[rows][:, cols][~near], "flags of transformed data")
        mon.ok((np.asarray(e2.row_outliers_) == np.asarray(e1.row_outliers_)[rows]).mean() > 0.97, "row flags of transformed data")
        P1 = (np.asarray(e1.rescaled_predictions_) * A + b)[rows][:, cols]
        mon.close(e2.rescaled_predictions_ / np.array(e2.scale_), P1 / np.array(e2.scale_), "rescaled predictions of transformed data", rtol=1e-5, atol=1e-4)
        mon.seen("map")
        mon.state(p, i % 5)
        mon.note(n=n, p=p)
        return
    if case["kind"] == "exact":
        k = int(rng.integers(1, 4))
        Z = rng.standard_normal((n, k))
        A = 10.0 ** rng.uniform(0.5, 4, p) * rng.choice([-1, 1], p)  # imputed values are rounded
        b = A * rng.uniform(-3, 3, p) * (i % 2)
        X = Z[:, np.arange(p) % k] * A + b
        bad = np.zeros((n, p), bool)
        group = [j for j in range(p) if (np.arange(p) % k == j % k).sum() > 2]
        if group:
            bad[rng.choice(n, 6, replace=False), rng.choice(group, 6)] = True
        X[bad] += (8 * A * np.ones((n, p)))[bad] * rng.choice([-1, 1], bad.sum())
        X[rng.random((n, p)) < 0.02 * (i % 3 == 0)] = np.nan
        mon.input(X)
        est = DDC().fit(pd.DataFrame(X))
        flags = np.asarray(est.cellwise_outliers_, bool)
        live = bad & ~np.isnan(X)
        quiet = ~bad.any(axis=1) & (np.abs(Z) < 2.2).all(axis=1)  # the others may be marginal outliers
        lonely = np.array([(np.arange(p) % k == j % k).sum() < 2 for j in range(p)])
        mon.ok(flags[live].all(), "deviating cells of exactly predicted columns are not flagged", n=n, p=p, k=k)
        rate = flags[quiet][:, ~lonely].mean()
        mon.ok(rate < 0.08, "regular cells of exactly predicted columns are flagged", rate=rate, n=n, p=p, k=k)
        Y = np.asarray(est.impute(pd.DataFrame(X)))
        true = Z[:, np.arange(p) % k] * A + b
        fix = live & ~lonely & (np.abs(Z[:, np.arange(p) % k]) < 2.1) & ~np.isnan(X).any(axis=1)[:, None]
        mon.close((Y / A)[fix], (true / A)[fix], "imputed value of a deviating cell in an exactly predicted column", atol=0.2)
        mon.seen("exactly predicted cells", int(quiet.sum() * (~lonely).sum()))
        mon.note(n=n, p=p, k=k, false=rate)
        return
    # policy
    n = 40
    X = pd.DataFrame(factor_data(rng, n, p), columns=[f"c{j}" for j in range(p)])
    mon.input(X)
    for f in (lambda: DDC().predict(X), lambda: DDC().impute(X), lambda: DDC().cellmap(X)):
        mon.raises(ValueError, f, "use before fit")
    est = DDC().fit(X)
    mon.raises(ValueError, lambda: est.predict(X.iloc[:, :-1]), "other number of columns in predict")
    mon.raises(ValueError, lambda: est.impute(X.iloc[:, :-1]), "other number of columns in impute")
    text = X.copy()
    text[text.columns[0]] = "a"
    mon.raises(ValueError, lambda: DDC().fit(text), "text column in fit")
    mon.raises(ValueError, lambda: est.predict(text), "text column in predict")
    disc = X.copy()
    disc.iloc[:, -1] = rng.integers(0, 3, n).astype(float)
    mon.raises(ValueError, lambda: DDC().fit(disc), "column with three values")
    hole = X.copy()
    hole.iloc[5] = np.nan
    e = DDC().fit(hole)
    mon.ok(np.isfinite(e.impute(hole).to_numpy()).all(), "a row without any value is not imputed")
    mon.ok(not np.asarray(e.cellwise_outliers_)[5].any(), "missing cells flagged as deviating")
    other = np.delete(np.arange(n), 5)
    mon.ok(np.isfinite(np.asarray(e.standardized_residuals_)[other]).all(), "residuals of other rows are missing")
    mon.seen("policy")
