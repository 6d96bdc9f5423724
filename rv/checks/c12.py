"""C12: DDC equals its definition; fit, predict and impute agree with each other."""
import numpy as np
import pandas as pd

from rv import gen, ref
from rv.core import Skip

RULE = (
    "data set x settings per case: 8 families, p 2..8 with correlated, uncorrelated and nearly collinear variables, missing and infinite "
    "cells, quantile, minimal correlation and scale estimator varied, odd indices and column names; fit, predict on old and new rows and "
    "both imputations are judged; non-trivial: all attributes were compared with the reference"
)
ASSUME = ["pairs of variables overlap in more than one row"]
REQUIRE = {"fit": 60, "cells": 5000, "flagged cells": 100, "flagged rows": 10, "missing cells": 100, "new rows": 60, "imputed": 100}
FAMS = ("gauss", "t3", "cells", "cluster", "scaled", "shifted", "rounded", "scatter_out")


def cases(tier):
    return [{"kind": f, "i": r} for f in FAMS for r in range(16 if tier == "quick" else 120)]


def data(rng, fam, n, p, i):
    X = gen.multi(rng, fam, n, p, eps=0.1)
    if i % 4 == 1:  # factor structure: every variable has neighbours
        f = rng.standard_normal((n, 1))
        X = X + 2.5 * np.std(X, axis=0) * f * rng.choice([-1, 1], p)
    if i % 4 == 2:  # an isolated variable
        X[:, 0] = rng.standard_normal(n) * np.std(X[:, 0])
    if fam != "rounded":
        k = rng.random((n, p)) < 0.03
        X[k] = np.median(X, axis=0)[np.nonzero(k)[1]] + (rng.choice([-1, 1], k.sum()) * rng.uniform(4, 30, k.sum())) * ref.mad(X)[np.nonzero(k)[1]]
    miss = float(rng.choice([0, 0.02, 0.1]))
    X[rng.random((n, p)) < miss] = np.nan
    if i % 3 == 0:
        X[rng.integers(n), rng.integers(p)] = np.inf
        X[rng.integers(n), rng.integers(p)] = -np.inf
    return X


def run(case, mon):
    from robpy.outliers import DDC
    from robpy.univariate import OneStepWrapping, Qn

    rng, i = mon.rng, case["i"]
    p = int(rng.integers(2, 9))
    n = int(rng.integers(30, 90))
    X = data(rng, case["kind"], n, p, i)
    mon.input(X)
    cfg = dict(chi2_quantile=float(rng.choice([0.9, 0.975, 0.99, 0.999])), min_correlation=float(rng.choice([0.2, 0.5, 0.8])))
    kw, rkw = {}, {}
    style = i % 3
    if style == 1:
        kw, rkw = dict(scale_estimator=OneStepWrapping()), dict(locscale=lambda v: ref.one_step_wrapping(v)[:2])
    elif style == 2:
        kw, rkw = dict(scale_estimator=Qn()), dict(locscale=lambda v: (np.median(v), ref.qn_raw(v) * ref.qn_factor(len(v))))
    df = gen.frame(rng, X, gen.FRAMES[i % 5])
    want = ref.DDCRef(X, cfg["chi2_quantile"], cfg["min_correlation"], **rkw)
    if want.margin < 1e-9 or not np.isfinite(want.shrink).all() or not np.isfinite(want.corr).all():
        raise Skip("value on a cutoff")
    tol = 1e-6 if case["kind"] != "scaled" else 1e-5
    est = DDC(**cfg, **kw)
    mon.ok(est.fit(df) is est, "fit must return the estimator")
    mon.close(est.location_, want.loc, "locations", rtol=1e-8, atol=1e-8 * np.max(want.scale))
    mon.close(est.scale_, want.scale, "scales")
    mon.close(est.robust_correlation_, want.corr, "robust correlations", rtol=tol, atol=tol, **cfg)
    s1, s2 = np.array(est.slopes_), want.slopes.copy()
    np.fill_diagonal(s1, 0), np.fill_diagonal(s2, 0)
    mon.close(s1, s2, "slopes", rtol=tol, atol=tol, **cfg)
    mon.close(est.deshrinkage_, want.shrink, "deshrinkage", rtol=tol, atol=tol, **cfg)
    mon.close(est.predictions_, want.pred, "predictions", rtol=tol, atol=tol, **cfg)
    mon.close(est.rescaled_predictions_ / want.scale, (want.pred * want.scale + want.loc) / want.scale, "rescaled predictions", rtol=tol, atol=10 * tol)
    mon.close(est.standardized_residuals_, want.res, "standardised residuals", rtol=1e3 * tol, atol=1e3 * tol, **cfg)
    mon.same(np.asarray(est.cellwise_outliers_, bool), want.flags, "flagged cells", **cfg)
    mon.same(np.asarray(est.row_outliers_, bool), want.rows, "flagged rows", **cfg)
    mon.seen("fit")

    # predict on the same data, and on new rows one by one or together
    f, r = est.predict(df)
    mon.same(np.asarray(f, bool), np.asarray(est.cellwise_outliers_, bool), "predict on the training data: flags")
    mon.close(r, est.standardized_residuals_, "predict on the training data: residuals", rtol=1e-8, atol=1e-8)
    mon.same(np.asarray(est.predict(df, rowwise=True), bool), np.asarray(est.row_outliers_, bool), "predict on the training data: rows")
    Y = data(rng, case["kind"], int(rng.integers(5, 25)), p, i)
    new = gen.frame(rng, Y, gen.FRAMES[(i + 2) % 5])
    new.columns = df.columns
    want.margin = np.inf
    wf, wr, wrow, wimp = want.predict(Y)
    if want.margin > 1e-9:
        f, r = est.predict(new)
        mon.same(np.asarray(f, bool), wf, "predict on new rows: flags")
        mon.close(r, wr, "predict on new rows: residuals", rtol=1e3 * tol, atol=1e3 * tol)
        rows = est.predict(new, rowwise=True)
        mon.same(np.asarray(rows, bool), wrow, "predict on new rows: rows")
        k = int(rng.integers(len(Y)))
        f1, r1 = est.predict(new.iloc[[k]])
        mon.close(r1[0], r[k], "prediction of a row depends on the other rows", rtol=1e-8, atol=1e-8)
        for outl in (True, False):
            imp = est.impute(new, impute_outliers=outl)
            mon.ok(isinstance(imp, pd.DataFrame) and imp.index.equals(new.index) and list(imp.columns) == list(new.columns), "imputed data lost index or columns")
            V = imp.to_numpy()
            gone = ~np.isfinite(Y)
            if outl:
                gone |= wf
            mon.same(V[~gone], Y[~gone], "cells that are kept were changed", impute_outliers=outl)
            if gone.any():
                a, b = V[gone], wimp[gone]
                sc = np.broadcast_to(want.scale, Y.shape)[gone]
                if not np.all(np.abs(a - b) <= 1e2 * tol * sc + 1e-9 * np.abs(b)):
                    mon.ok(
                        np.all(np.abs(a - b) <= 0.00050001 + 1e2 * tol * sc + 1e-9 * np.abs(b)),
                        "imputed value is not the prediction", got=a, want=b,
                    )
                    mon.known_finding("impute-rounded", "DDC.impute returns predictions rounded to 3 decimals, whatever the scale of the variable")
                mon.seen("imputed", gone.sum())
        mon.seen("new rows", len(Y))
    mon.seen("cells", n * p)
    mon.seen("flagged cells", want.flags.sum())
    mon.seen("flagged rows", want.rows.sum())
    mon.seen("missing cells", (~np.isfinite(X)).sum())
    mon.state(p, style, int(np.isfinite(want.slopes).sum()))
    mon.note(n=n, p=p, flagged=int(want.flags.sum()), rows=int(want.rows.sum()), **cfg)
