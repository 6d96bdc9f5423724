"""C09: the contract that all covariance estimators share."""
import numpy as np

from rv import gen, ref

RULE = (
    "data set x estimator per case: 7 families, p 2..5, six estimators with several configurations; the fit is repeated on "
    "DataFrames (odd indices), permuted rows and columns; non-trivial: symmetry, definiteness, precision, distances and the "
    "permuted fits were judged"
)
ASSUME = ["row order may decide between equal optima: rows are only permuted for deterministic estimators on continuous data"]
REQUIRE = {"precision": 30, "frame": 30, "columns permuted": 30, "NaN rejected": 10, "minute column": 12}
FAMS = ("gauss", "t3", "lognormal", "cells", "scaled", "shifted", "scatter_out")
EST = ("FastMCD", "DetMCD", "OGK", "OGKr", "WrappingCovariance", "KendallTau", "CellMCD", "FastMCDraw")


def cases(tier):
    reps = 1 if tier == "quick" else 8
    return [{"kind": e, "fam": f, "i": r} for e in EST for f in FAMS for r in range(reps)] + [
        {"kind": e, "fam": "policy", "i": 0} for e in EST
    ]


def make(kind, seed, p, X):
    import robpy.covariance as c

    t = 1e-10 * np.linalg.det(ref.cov_of(X))
    return {
        "FastMCD": lambda: c.FastMCD(random_seed=seed, n_initial_subsets=60, tolerance=t),
        "FastMCDraw": lambda: c.FastMCD(random_seed=seed, n_initial_subsets=60, reweighting=False, alpha=0.8, tolerance=t, store_precision=False),
        "DetMCD": lambda: c.DetMCD(tolerance=t),
        "OGK": lambda: c.OGK(),
        "OGKr": lambda: c.OGK(reweighting=True, n_iterations=1),
        "WrappingCovariance": lambda: c.WrappingCovariance(),
        "KendallTau": lambda: c.KendallTau(),
        "CellMCD": lambda: c.CellMCD(),
    }[kind]


def run(case, mon):
    from sklearn.exceptions import NotFittedError

    rng, kind = mon.rng, case["kind"]
    p = int(rng.integers(1, 6))
    if p == 1 and (kind == "CellMCD" or case["fam"] == "policy"):
        p = 2  # CellMCD predicts cells from other columns
    n = int(rng.integers(max(20, 12 * p), max(40, 25 * p)))
    fam = "gauss" if case["fam"] == "policy" else case["fam"]
    if kind == "CellMCD" and fam in ("scatter_out", "t3", "lognormal"):
        fam = {"scatter_out": "gauss", "t3": "cells", "lognormal": "shifted"}[fam]
    X = gen.multi(rng, fam, n, p, eps=0.15)
    if case["i"] % 4 == 0 and kind not in ("FastMCD", "FastMCDraw", "DetMCD") and case["fam"] not in ("policy", "scaled"):
        X[:, int(rng.integers(p))] *= 10.0 ** rng.uniform(-7, -4)  # a column in other units
        mon.seen("minute column")
    mon.input(X)
    new = make(kind, int(rng.integers(1 << 30)), p, X)
    if case["fam"] == "policy":
        mon.raises(NotFittedError, lambda: new().covariance, "covariance before fit")
        mon.raises(NotFittedError, lambda: new().distance_distance_plot(), "plot before fit")
        Y = X.copy()
        Y[3, 1] = np.nan
        if kind != "CellMCD":
            mon.raises(ValueError, lambda: new().fit(Y), "data with NaN must be rejected")
            Y[3, 1] = np.inf
            mon.raises(ValueError, lambda: new().fit(Y), "data with infinite values must be rejected")
            mon.raises(ValueError, lambda: new().fit(X[:, 0]), "one-dimensional data must be rejected")
            mon.seen("NaN rejected", 3)
        else:
            mon.ok(np.all(np.isfinite(new().fit(Y).covariance_)), "CellMCD accepts missing values")
        if kind not in ("WrappingCovariance", "KendallTau"):
            e = new().fit(X)
            mon.raises(AttributeError, lambda: e.correlation, "correlation of an estimator without one")
        return
    est = new()
    mon.ok(est.fit(X) is est, "fit returns the estimator")
    L, C = np.array(est.location_), np.array(est.covariance_)
    s = np.sqrt(np.diag(C))
    R = C / np.outer(s, s)
    mon.ok(L.shape == (p,) and C.shape == (p, p), "shapes", L=L.shape, C=C.shape)
    mon.ok(np.all(np.isfinite(L)) and np.all(np.isfinite(C)) and np.all(np.diag(C) > 0), "finite estimates, positive variances")
    mon.close(R, R.T, "covariance is not symmetric", rtol=0, atol=1e-10)
    if kind != "KendallTau":
        mon.ok(np.linalg.eigvalsh((R + R.T) / 2).min() > 0, "covariance is not positive definite")
    mon.same(est.covariance, C, "covariance property")
    if kind in ("WrappingCovariance", "KendallTau"):
        mon.close(est.correlation, R, "correlation is not that of the covariance", rtol=0, atol=1e-9)
    # precision
    P = est.get_precision()
    noise = 1e-7 + 1e-13 * np.linalg.cond(C)
    mon.close((P * np.outer(s, s)) @ R, np.eye(p), "precision is not the inverse", rtol=0, atol=noise)
    mon.seen("precision")
    # distances: the inherited squared distances of this very estimate
    D = ref.mahal2(X, L, C)
    got = est.mahalanobis(X)
    mon.close(got, D, "mahalanobis distances", rtol=1e-6 + noise, atol=1e-9 * D.max())
    # same values, other container
    for style in gen.FRAMES:
        e = new().fit(gen.frame(rng, X, style))
        mon.close(e.location_ / s, L / s, f"location from a {style} DataFrame", rtol=1e-9, atol=1e-9)
        mon.close(e.covariance_ / np.outer(s, s), R, f"covariance from a {style} DataFrame", rtol=0, atol=1e-9)
        mon.seen("frame")
    if kind.startswith("FastMCD"):  # rounding errors can decide which subset wins
        for _ in range(3):
            e = new().fit(X + 1e-14 * np.abs(X).max(axis=0) * rng.standard_normal(X.shape))
            if np.max(np.abs(e.covariance_ / np.outer(s, s) - R)) > 1e-7 or np.max(np.abs(e.location_ - L) / s) > 1e-7:
                mon.seen("decided by rounding errors")
                return
    # memory layout
    big = np.full((2 * n, 3 * p), np.nan)
    big[::2, 1::3] = X
    for lay, Y in (("Fortran", np.asfortranarray(X)), ("strided", big[::2, 1::3])):
        e = new().fit(Y)
        mon.close(e.covariance_ / np.outer(s, s), R, f"covariance of {lay} data", rtol=0, atol=1e-7)
    # permuted columns
    c = rng.permutation(p)
    e = new().fit(X[:, c])
    if kind.startswith("FastMCD") and np.max(np.abs(e.covariance_ / np.outer(s[c], s[c]) - R[np.ix_(c, c)])) > 1e-6:
        # only columns in their own order may agree with each other: compare with other orders and perturbations of all
        for _ in range(6):
            c2 = rng.permutation(p)
            e2 = new().fit(X[:, c2] + 1e-14 * np.abs(X[:, c2]).max(axis=0) * rng.standard_normal(X.shape))
            if np.max(np.abs(e2.covariance_ / np.outer(s[c2], s[c2]) - R[np.ix_(c2, c2)])) <= 1e-6:
                mon.seen("decided by rounding errors")
                return
    if not kind.startswith("CellMCD"):  # its columns are updated one after the other
        mon.close(e.location_ / s[c], (L / s)[c], "location of permuted columns", rtol=1e-6, atol=1e-6)
        mon.close(e.covariance_ / np.outer(s[c], s[c]), R[np.ix_(c, c)], "covariance of permuted columns", rtol=0, atol=1e-6)
        mon.seen("columns permuted")
    if not kind.startswith("FastMCD"):
        r = rng.permutation(n)
        e = new().fit(X[r])
        mon.close(e.location_ / s, L / s, "location of permuted rows", rtol=1e-6, atol=1e-6)
        mon.close(e.covariance_ / np.outer(s, s), R, "covariance of permuted rows", rtol=0, atol=1e-6)
        mon.seen("rows permuted")
    mon.state(kind, case["fam"], p)
    mon.note(n=n, p=p, location=L)
