"""C11: CellMCD flags cells by its objective, keeps its constraints, and is cellwise robust and equivariant."""
import numpy as np

from rv import gen, ref
from rv.checks.c10 import contaminate
from rv.core import Skip

RULE = (
    "'trace': random settings (alpha, quantile, crit, number of C-steps, eigenvalue bound), the C-steps are recomputed from the initial "
    "estimates by a separate implementation; 'planted': far cells planted in clean data; 'map': shifted and rescaled columns, reordered "
    "rows; 'errors': inadmissible data and settings. Non-trivial: flags, location and covariance were judged"
)
ASSUME = ["the initial estimates are those of robpy's InitialDDCW on data standardised with the reference one-step wrapping scaler"]
REQUIRE = {"trace": 60, "C-steps": 150, "planted cells": 300, "map": 20, "errors": 10, "floor active": 3, "column at the h bound": 3, "rows with one cell": 15, "limit": 25, "one variable": 12}


def cases(tier):
    q = tier == "quick"
    out = [{"kind": "trace", "i": r} for r in range(110 if q else 900)]
    out += [{"kind": "initial", "i": r} for r in range(40 if q else 300)]
    out += [{"kind": "planted", "i": r} for r in range(24 if q else 200)]
    out += [{"kind": "map", "i": r} for r in range(24 if q else 200)]
    out += [{"kind": "errors", "i": r} for r in range(6 if q else 30)]
    return out


def standardise(X):
    loc, sc, margin = np.empty(X.shape[1]), np.empty(X.shape[1]), np.inf
    for j in range(X.shape[1]):
        loc[j], sc[j], m = ref.one_step_wrapping(X[~np.isnan(X[:, j]), j])
        margin = min(margin, m)
    return loc, sc, margin


def initial(Z, alpha, low, mon):
    """Supplementary material of the CellMCD paper: DDC, imputation, projection and wrapping, twice."""
    import pandas as pd
    from robpy.outliers import DDC
    from robpy.univariate import OneStepWrapping
    from scipy.stats import chi2

    n, p = Z.shape
    ddc = DDC(chi2_quantile=0.9, scale_estimator=OneStepWrapping()).fit(pd.DataFrame(Z))
    m, s = np.array(ddc.location_), np.array(ddc.scale_)
    bad = np.array(ddc.cellwise_outliers_)
    for j in np.flatnonzero(bad.mean(axis=0) > 1 - alpha):
        r = np.abs(np.array(ddc.standardized_residuals_)[:, j])
        bad[:, j] = False
        bad[np.argsort(r)[::-1][: int(0.25 * n)], j] = True
        mon.seen("columns with capped flags")
        if np.isnan(r).any():
            raise Skip("missing residuals are ranked")
    full = np.where(bad | np.isnan(Z), ddc.impute(pd.DataFrame(Z)).to_numpy(), Z)
    full = (full - m) / s

    def scatter(rows):
        Y = full[rows]
        ev, E = np.linalg.eigh(np.cov(Y.T).reshape(p, p))
        E = E[:, ev > low]
        T, margin = Y @ E, np.inf
        out = np.empty_like(T)
        for k in range(T.shape[1]):
            a, b, mg = ref.one_step_wrapping(T[:, k])
            b = max(b, low)
            u = (T[:, k] - a) / b
            margin = min(margin, mg, np.min(np.abs(np.abs(u) - 1.5)), np.min(np.abs(np.abs(u) - 4)))
            v = ref.wrap_psi(u)
            out[:, k] = v / v.std() * b + a
        if margin < 1e-8:
            raise Skip("value on a cutoff")
        C = E @ np.atleast_2d(np.cov(out.T)) @ E.T
        d = np.sqrt(np.diag(C))
        return ref.truncate_eig(C / np.outer(d, d), low) * np.outer(s, s)

    C = scatter(~np.array(ddc.row_outliers_, bool))
    U = np.clip((Z - m) / s, -2, 2)
    return m, C, U, scatter


def fit(est, X):
    try:
        return est.fit(X)
    except ValueError as e:
        if "marginal" in str(e):
            raise Skip("too many marginal outliers")
        raise


def run(case, mon):
    from robpy.covariance import CellMCD
    from robpy.covariance.initial_ddcw import InitialDDCW

    rng = mon.rng
    p = int(rng.integers(2, 6))
    if case["kind"] != "errors" and case["i"] % 9 == 8:
        p = 1
        mon.seen("one variable")
    n = int(rng.integers(10 * p, 18 * p)) + 10
    if case["kind"] == "trace":
        fam = ["gauss", "cells", "cluster", "near_singular", "shifted", "t3"][case["i"] % 6]
        if fam == "near_singular":
            X = gen.multi(rng, "gauss", n, p)
            X[:, -1] = X[:, 0] + 1e-3 * rng.standard_normal(n)
            low = float(rng.choice([1e-4, 1e-3, 0.05]))
        else:
            X = gen.multi(rng, fam, n, p, eps=0.1)
            low = float(rng.choice([1e-6, 1e-4, 0.01, 0.3] if p > 1 else [1e-6, 1e-4, 0.01]))  # one direction at least above the bound
        X = contaminate(rng, X, float(rng.choice([0, 0.05, 0.1])), float(rng.choice([0, 0.05, 0.1])) if fam != "cells" else 0)
        if case["i"] % 3 == 1:
            # rows in which one cell at most is left, anywhere between the centre and the cutoff of marginal outliers
            for r in rng.permutation(n)[: max(2, n // 16)]:
                j = int(rng.integers(p))
                X[r, np.arange(p) != j] = np.nan
                col = X[:, j][~np.isnan(X[:, j])]
                if len(col):
                    mad = 1.4826 * np.median(np.abs(col - np.median(col)))
                    X[r, j] = np.median(col) + rng.choice([-1, 1]) * rng.uniform(0, 3) * mad
            mon.seen("rows with one cell")
        mon.input(X)
        cfg = dict(
            alpha=float(rng.choice([0.5, 0.6, 0.75, 0.8])),
            quantile=float(rng.choice([0.9, 0.975, 0.99, 0.995])),
            crit=float(rng.choice([1e-6, 1e-4, 1e-2])),
            max_c_steps=int(rng.choice([1, 2, 3, 100])),
            min_eigenvalue=low,
        )
        est = fit(CellMCD(**cfg), X)
        m, s, margin = standardise(X)
        Z = (X - m) / s
        h = round(max(cfg["alpha"], (n // 2 + 1) / n) * n)
        W = np.asarray(est.W)
        keep = W.sum(axis=0)
        mon.ok(keep.min() >= h, "fewer than h unflagged cells in a column", h=h, kept=keep, n=n)
        mon.ok(not W[np.isnan(X)].any(), "missing cell unflagged")
        big = np.abs(Z) > 3 + 1e-9
        mon.ok(not W[np.nan_to_num(big).astype(bool)].any(), "cell beyond three scales unflagged")
        S = np.asarray(est.covariance_) / np.outer(s, s)
        ev = np.linalg.eigvalsh(S)
        mon.ok(ev[0] >= low * (1 - 1e-6), "smallest eigenvalue of the standardised covariance is below the bound", got=ev[0], bound=low)
        if ev[0] < low * (1 + 1e-6):
            mon.seen("floor active")
        if (keep == h).any():
            mon.seen("column at the h bound")
        near = np.nanmin(np.abs(np.abs(Z) - 3))
        if margin < 1e-7 or near < 1e-7:
            raise Skip("cell on a cutoff")
        init = InitialDDCW(alpha=max(cfg["alpha"], (n // 2 + 1) / n), min_eigenvalue=low).fit(Z.copy())
        Zc = np.where(np.abs(Z) > 3, np.nan, Z)
        want = ref.cellmcd(
            Zc, np.asarray(init.location_), np.asarray(init.covariance_), cfg["alpha"], cfg["quantile"], cfg["crit"], cfg["max_c_steps"], low
        )
        if want["margin"] < 1e-7:
            raise Skip("decision on a cutoff")
        mon.same(W, want["W"], "flags differ from those of the C-steps", n=n, p=p, **cfg)
        tol = 1e-6
        mon.close((np.asarray(est.location_) - m) / s, want["loc"], "location differs from that of the C-steps", rtol=tol, atol=tol, **cfg)
        mon.close(S, want["cov"], "covariance differs from that of the C-steps", rtol=tol, atol=tol, **cfg)
        mon.ok(all(b <= a * (1 + 1e-12) + 1e-9 for a, b in zip(want["objs"], want["objs"][1:])), "objective increased")
        mon.seen("trace")
        mon.seen("C-steps", len(want["objs"]) - 1)
        mon.state(p, len(want["objs"]), keep.astype(int).tolist())
        mon.note(n=n, p=p, c_steps=len(want["objs"]) - 1, objective=want["objs"][-1], flagged=int((W == 0).sum()), h=h)
        return
    if case["kind"] == "initial":
        from scipy.stats import chi2

        low = float(rng.choice([1e-6, 1e-4, 0.01]))
        alpha = float(rng.choice([0.6, 0.75, 0.9]))
        X = contaminate(rng, gen.multi(rng, ["gauss", "cells", "cluster", "t3"][case["i"] % 4], n, p, eps=0.1), 0.05 * (case["i"] % 3 == 1), 0.05 if case["i"] % 3 else 0.17)
        mon.input(X)
        m, s, _ = standardise(X)
        Z = (X - m) / s
        if case["i"] % 2:  # CellMCD hands over standardised data, others need not
            Z = Z * 10.0 ** rng.uniform(0, 3, p) + rng.uniform(-5, 5, p)
        est = InitialDDCW(alpha=alpha, min_eigenvalue=low).fit(Z.copy())
        loc, C, U, scatter = initial(Z, alpha, low, mon)
        # distances with missing cells left out are not defined here: a row with a missing cell stays
        d = np.einsum("ij,ij->i", U, np.linalg.solve(C, U.T).T)
        if np.isnan(d).any():
            out = np.zeros(n, bool)
        else:
            t = d / np.median(d) * chi2.ppf(0.5, p)
            out = t > chi2.ppf(0.99, p)
            if np.min(np.abs(t - chi2.ppf(0.99, p))) < 1e-6:
                raise Skip("distance on the cutoff")
        want = scatter(~out)
        mon.close(est.location_, loc, "initial location is not that of DDC")
        sc = np.sqrt(np.diag(want))
        mon.close(np.asarray(est.covariance_) / np.outer(sc, sc), want / np.outer(sc, sc), "initial covariance", rtol=1e-6, atol=1e-6, n=n, p=p)
        mon.seen("initial")
        mon.seen("row outliers removed", out.sum())
        mon.note(n=n, p=p, removed=int(out.sum()))
        return
    if case["kind"] == "planted":
        n = int(rng.integers(25 * p, 40 * p)) + 20
        Z = gen.multi(rng, "gauss", n, p)
        X = Z.copy()
        frac = float(rng.choice([0.05, 0.1, 0.15]))
        bad = np.zeros((n, p), bool)
        for j in range(p):
            bad[rng.permutation(n)[: int(frac * n)], j] = True
        style = case["i"] % 3
        size = float(rng.choice([6, 20, 1e4]))
        X[bad] = size * (1 + 0.1 * rng.random(bad.sum())) * (1 if style == 0 else rng.choice([-1, 1], bad.sum()))
        if style == 2:
            X[rng.random((n, p)) < 0.03] = np.nan
        A, b = 10.0 ** rng.uniform(-2, 2, p), rng.uniform(-10, 10, p)
        X = X * A + b
        mon.input(X)
        est = fit(CellMCD(), X)
        live = bad & ~np.isnan(X)
        W = np.asarray(est.W)
        mon.ok(not W[live].any(), "a planted far cell is not flagged", n=n, p=p, size=size, missed=int(W[live].sum()), planted=int(live.sum()))
        false = (W[~bad & ~np.isnan(X)] == 0).mean()
        mon.ok(false < 0.08, "many regular cells are flagged", rate=false)
        d = (np.asarray(est.location_) - b) / A - Z.mean(axis=0)
        mon.ok(np.abs(d).max() < 1.6 / np.sqrt(n) * 3, "location moved by planted cells", moved=d, n=n)
        S, T = np.asarray(est.covariance_) / np.outer(A, A), np.cov(Z.T).reshape(p, p)
        ev = np.linalg.eigvals(np.linalg.solve(T, S)).real
        mon.ok(0.35 < ev.min() and ev.max() < 2.5, "covariance changed by planted cells", ratio=ev, n=n, p=p)
        r = np.abs(np.asarray(est.residuals))[live]
        mon.ok(r.min() > 2.5, "planted cell without outlying residual", smallest=r.min())
        imp = np.abs((np.asarray(est.X_imputed) - b) / A)
        mon.ok(imp.max() < 6, "imputed data still contain an outlying cell", worst=imp.max())
        mon.seen("planted cells", live.sum())
        mon.note(n=n, p=p, false_flag_rate=false, ratio=ev)
        return
    if case["kind"] == "map":
        X = contaminate(rng, gen.multi(rng, ["gauss", "cells", "t3"][case["i"] % 3], n, p), 0.04, 0.04)
        mon.input(X)
        A, b = 10.0 ** rng.uniform(-3, 3, p) * rng.choice([-1, 1], p), rng.uniform(-100, 100, p)
        A, b = (np.abs(A), b) if case["i"] % 2 else (A, 0 * b)
        rows = rng.permutation(n) if case["i"] % 4 < 2 else np.arange(n)
        e1 = fit(CellMCD(), X)
        e2 = fit(CellMCD(), (X * A + b)[rows])
        s = np.sqrt(np.diag(e1.covariance_))
        # flags may turn over on a cutoff: judge only if no residual is close to one
        mon.ok((np.asarray(e2.W) != np.asarray(e1.W)[rows]).mean() < 0.02, "flags of transformed data")
        mon.close((np.asarray(e2.location_) - b) / A / s, np.asarray(e1.location_) / s, "location of transformed data", rtol=0.02, atol=0.05)
        S2 = np.asarray(e2.covariance_) / np.outer(A, A) / np.outer(s, s)
        mon.close(S2, np.asarray(e1.covariance_) / np.outer(s, s), "covariance of transformed data", rtol=0.05, atol=0.05)
        if (np.asarray(e2.W) == np.asarray(e1.W)[rows]).all():
            mon.close((np.asarray(e2.location_) - b) / A / s, np.asarray(e1.location_) / s, "location of transformed data", rtol=1e-4, atol=1e-4)
            mon.close(S2, np.asarray(e1.covariance_) / np.outer(s, s), "covariance of transformed data", rtol=1e-4, atol=1e-4)
            mon.seen("identical flags")
        mon.seen("map")
        return
    # errors
    X = gen.multi(rng, "gauss", n, p)
    mon.input(X)
    for bad_alpha in (0.3, 1.2, -0.1):
        mon.raises(ValueError, lambda: CellMCD(alpha=bad_alpha).fit(X), "alpha outside [0.5, 1]")
    mon.raises(ValueError, lambda: CellMCD(min_eigenvalue=1e-7), "eigenvalue bound below 1e-6")
    Y = X.copy()
    Y[: int(0.7 * n), 0] = 1.25
    mon.raises(ValueError, lambda: CellMCD().fit(Y), "column with zero MAD")
    Y = X.copy()
    Y[: int(0.3 * n) + 1, 0] = np.nan
    mon.raises(ValueError, lambda: CellMCD(alpha=0.75).fit(Y), "more than a quarter of a column is missing")
    Y = X.copy()
    Y[: int(0.3 * n) + 1, -1] += 50
    mon.raises(ValueError, lambda: CellMCD(alpha=0.75).fit(Y), "more than a quarter of a column is outlying")
    mon.raises(ValueError, lambda: CellMCD().fit(rng.standard_normal((5 * p - 1, p))), "n < 5p")
    mon.seen("errors", 6)
    # the limits themselves are admitted
    e = CellMCD().fit(np.column_stack([rng.permutation(np.linspace(-1, 1, 5 * p)) for _ in range(p)]))
    mon.ok(np.isfinite(e.covariance_).all() and np.isfinite(e.location_).all(), "n = 5p is enough")
    for alpha, n, most in ((0.75, 64, 16), (0.5, 64, 31), (0.5, 32, 15), (0.875, 64, 8), (0.5, 128, 63)):
        Y = np.column_stack([rng.permutation(np.linspace(-1, 1, n)) for _ in range(3)])
        j = int(rng.integers(3))
        Y[:, j] = rng.permutation(np.r_[np.full(most + 1, np.nan), np.linspace(-1, 1, n - most - 1)])
        mon.raises(ValueError, lambda: CellMCD(alpha=alpha).fit(Y), f"one missing cell too many, alpha={alpha}, n={n}")
        Y[np.flatnonzero(np.isnan(Y[:, j]))[0], j] = 0.1
        e = CellMCD(alpha=alpha).fit(Y)
        mon.ok(np.isfinite(e.covariance_).all(), "as many missing cells as admitted", alpha=alpha, n=n)
        mon.seen("limit")
    mon.note(n=n, p=p)
