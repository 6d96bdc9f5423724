"""Every public estimator and function of robpy with a small workload, for the properties that hold across all of them.

An entry: make() -> estimator, data(rng, n) -> tuple of arguments of fit, use(est, args) -> dict of named results
(only public attributes and methods)."""
from __future__ import annotations

import numpy as np
import pandas as pd

from rv import gen


class Entry:
    def __init__(self, name, group, make, data, use, frames=(), fit=None, ints=True):
        self.name, self.group, self.make, self.data, self.use = name, group, make, data, use
        self.frames = frames  # positions of arguments that may be data frames
        self._fit = fit
        self.ints = ints

    def fit(self, est, args):
        return self._fit(est, args) if self._fit else est.fit(*args)


def _uni(rng, n=None):
    n = n or int(rng.integers(12, 40))
    return (gen.uni(rng, ("normal", "t2", "contaminated", "shifted")[int(rng.integers(4))], n),)


def _multi(rng, n=None, p=None, fams=("gauss", "t3", "cluster", "cells", "shifted")):
    n = n or int(rng.integers(30, 60))
    p = p or int(rng.integers(2, 5))
    return (gen.multi(rng, fams[int(rng.integers(len(fams)))], n, p),)


def _cells(rng, n=None):
    (X,) = _multi(rng, n or int(rng.integers(50, 80)), int(rng.integers(3, 5)), ("gauss", "cells", "shifted"))
    X[rng.random(X.shape) < 0.03] = np.nan
    return (X,)


def _ddc(rng, n=None):
    (X,) = _cells(rng, n)
    return (pd.DataFrame(X, columns=[f"v{j}" for j in range(X.shape[1])]),)


def _reg(rng, n=None):
    n = n or int(rng.integers(30, 60))
    X, y, *_ = gen.reg(rng, ("normal", "t3", "vertical", "leverage")[int(rng.integers(4))], n, int(rng.integers(1, 4)))
    return X, y


def _positive(rng, n=None):
    return (np.exp(0.7 * rng.standard_normal(n or int(rng.integers(25, 60)))),)


def _frame(rng, n=None):
    n = n or int(rng.integers(15, 40))
    d = pd.DataFrame(rng.standard_normal((n, 4)), columns=list("abcd"), index=rng.permutation(n))
    d.loc[d.index[: n // 5], "a"] = np.nan
    d["s"] = ["x", "y", "z", "w"] * (n // 4) + ["x"] * (n % 4)
    d["r"] = np.arange(n)
    d["k"] = 1.0
    d.iloc[3, :4] = np.nan
    d.iloc[5, 1] = np.inf
    return (d,)


def _use_uni(e, a):
    return {"location": e.location, "scale": e.scale}


def _use_cov(e, a):
    out = {"location": e.location_, "covariance": e.covariance_, "property": e.covariance, "precision": getattr(e, "precision_", None)}
    X = np.asarray(a[0], dtype=float)
    if not np.isnan(X).any():
        out["mahalanobis"] = e.mahalanobis(X[:5])
    if hasattr(e, "correlation_"):
        out["correlation"] = e.correlation
    return out


def _use_cell(e, a):
    return {"location": e.location_, "covariance": e.covariance_, "W": e.W, "predictions": e.predictions, "residuals": e.residuals, "conditional_stds": e.conditional_stds, "imputed": e.X_imputed} if hasattr(e, "predictions") else {"location": e.location_, "covariance": e.covariance_}


def _use_ddc(e, a):
    X = a[0]
    cells, residuals = e.predict(X)
    return {"cells": np.asarray(cells), "residuals": np.asarray(residuals), "rows": np.asarray(e.predict(X, rowwise=True)), "impute": e.impute(X).to_numpy(), "impute_nan": e.impute(X, impute_outliers=False).to_numpy()}


def _use_pca(e, a):
    X = a[0]
    T = e.transform(X)
    return {"scores": T, "project": e.project(X), "inverse": e.inverse_transform(np.asarray(T)), "components": e.components_, "location": e.location_, "variance": e.explained_variance_}


def _use_reg(e, a):
    return {"predict": np.asarray(e.predict(a[0])).ravel(), "scale": e.scale}


def _use_scaler(e, a):
    Z = np.asarray(e.transform(a[0]))
    return {"locations": e.locations_, "scales": e.scales_, "transform": Z, "inverse": np.asarray(e.inverse_transform(Z))}


def _use_power(e, a):
    Z = np.asarray(e.transform(a[0]))
    return {"lambda": e.lambda_rew, "transform": Z, "inverse": np.asarray(e.inverse_transform(Z))}


def _use_cleaner(e, a):
    out = e.transform(a[0])
    return {"values": out.to_numpy(dtype=float), "columns": tuple(out.columns), "index": tuple(out.index), "dropped": repr(e.dropped_columns), "rows": repr(e.dropped_rows)}


class Call:
    """A function seen as an estimator: fit calls it."""

    def __init__(self, f):
        self.f = f

    def fit(self, *args):
        self.result = self.f(*args)
        return self

    def get_params(self, deep=True):
        return {}


def _use_call(e, a):
    r = e.result
    if isinstance(r, list):
        return {f"box{i}.{k}": getattr(b, k) for i, b in enumerate(r) for k in ("median", "q1", "q3", "upper_whisker", "lower_whisker")}
    return {"value": np.array(r, copy=True)}


def entries():
    import robpy.covariance as cov
    import robpy.pca as pca
    import robpy.preprocessing as pre
    import robpy.regression as reg
    import robpy.univariate as uni
    from robpy.covariance.utils.alter_covariance import covariance_to_correlation, truncated_covariance
    from robpy.outliers import DDC
    from robpy.preprocessing.utils import wrapping_transformation
    from robpy.utils.distance import mahalanobis_distance
    from robpy.utils.general import inverse_submatrix
    from robpy.utils.median import l1median, weighted_median
    from robpy.utils.outlyingness import stahel_donoho

    E = []
    for c in ("Qn", "Tau", "UnivariateMCD", "OneStepWrapping", "HuberOneStepM", "CellwiseOneStepM"):
        E.append(Entry(c, "univariate", getattr(uni, c), _uni, _use_uni))
    E.append(Entry("UnivariateMCD(0.8)", "univariate", lambda: uni.UnivariateMCD(alpha=0.8), _uni, _use_uni))
    F = dict(n_initial_subsets=30)
    E.append(Entry("FastMCD", "covariance", lambda: cov.FastMCD(random_seed=3, **F), _multi, _use_cov, (0,)))
    E.append(Entry("FastMCD(0.75)", "covariance", lambda: cov.FastMCD(alpha=0.75, random_seed=5, **F), _multi, _use_cov, (0,)))
    E.append(Entry("FastMCD(partitions)", "covariance", lambda: cov.FastMCD(n_partitions=2, random_seed=7, **F), lambda r, n=None: _multi(r, n or 80), _use_cov, (0,)))
    for c in ("DetMCD", "OGK", "KendallTau", "WrappingCovariance"):
        E.append(Entry(c, "covariance", getattr(cov, c), _multi, _use_cov, (0,)))
    E.append(Entry("CellMCD", "covariance", cov.CellMCD, _cells, _use_cell, (0,)))
    E.append(Entry("CellMCD(no missing)", "covariance", lambda: cov.CellMCD(alpha=0.6), lambda r, n=None: _multi(r, n or 60, 3, ("gauss", "cells", "shifted")), _use_cell, (0,)))
    E.append(Entry("DDC", "outliers", DDC, _ddc, _use_ddc, (0,)))
    E.append(Entry("ROBPCA", "pca", lambda: pca.ROBPCA(n_components=2, random_seed=9), lambda r, n=None: _multi(r, n, int(r.integers(3, 6))), _use_pca, (0,)))
    E.append(Entry("ROBPCA(0.6, no final MCD)", "pca", lambda: pca.ROBPCA(n_components=2, alpha=0.6, final_MCD_step=False, random_seed=4), lambda r, n=None: _multi(r, n, 4), _use_pca, (0,)))
    E.append(Entry("PCALocantore", "pca", lambda: pca.PCALocantore(n_components=2), lambda r, n=None: _multi(r, n, int(r.integers(3, 6))), _use_pca, (0,)))
    E.append(Entry("FastLTSRegression", "regression", lambda: reg.FastLTSRegression(n_initial_subsets=40, random_state=11), _reg, _use_reg, (0, 1)))
    E.append(Entry("SRegression", "regression", lambda: reg.SRegression(n_initial_subsets=20), _reg, _use_reg, (0, 1)))
    E.append(Entry("MMRegression", "regression", lambda: reg.MMRegression(initial_estimator=reg.SRegression(n_initial_subsets=20)), _reg, _use_reg, (0, 1)))
    E.append(Entry("MMRegression(LTS)", "regression", lambda: reg.MMRegression(initial_estimator=reg.FastLTSRegression(n_initial_subsets=40)), _reg, _use_reg, (0, 1)))
    E.append(Entry("RobustScaler", "preprocessing", pre.RobustScaler, _multi, _use_scaler, (0,)))
    E.append(Entry("RobustScaler(Qn)", "preprocessing", lambda: pre.RobustScaler(scale_estimator=uni.Qn()), _multi, _use_scaler, (0,)))
    E.append(Entry("RobustPowerTransformer", "preprocessing", pre.RobustPowerTransformer, _uni, _use_power))
    E.append(Entry("RobustPowerTransformer(boxcox)", "preprocessing", lambda: pre.RobustPowerTransformer(method="boxcox"), _positive, _use_power, ints=False))
    E.append(Entry("RobustPowerTransformer(raw)", "preprocessing", lambda: pre.RobustPowerTransformer(method="yeojohnson", standardize=False), lambda r, n=None: (r.standard_normal(n or 40) * 3,), _use_power))
    E.append(Entry("DataCleaner", "preprocessing", pre.DataCleaner, _frame, _use_cleaner, ints=False))
    E.append(Entry("adjusted_boxplot", "function", lambda: Call(lambda X: uni.adjusted_boxplot(X, plot=False)), _multi, _use_call, (0,)))
    E.append(Entry("l1median", "function", lambda: Call(l1median), _multi, _use_call))
    E.append(Entry("stahel_donoho", "function", lambda: Call(lambda X: stahel_donoho(X, n_dir=40, random_seed=2)), _multi, _use_call))
    E.append(Entry("stahel_donoho(3 points)", "function", lambda: Call(lambda X: stahel_donoho(X, n_points=3, n_dir=40, random_seed=2)), lambda r, n=None: _multi(r, n, 3), _use_call))
    E.append(Entry("wrapping_transformation", "function", lambda: Call(wrapping_transformation), _multi, _use_call))
    E.append(Entry("wrapping_transformation(raw)", "function", lambda: Call(lambda X: wrapping_transformation(X, rescale=False)), _multi, _use_call))
    E.append(Entry("weighted_median", "function", lambda: Call(weighted_median), lambda r, n=None: (gen.uni(r, "normal", n or 21), r.integers(1, 9, n or 21).astype(float)), _use_call))

    def matrices(r, n=None):
        p = int(r.integers(3, 7))
        A = gen.spd(r, p)
        return A, np.linalg.inv(A), r.permutation(p)[: int(r.integers(1, p + 1))]

    E.append(Entry("inverse_submatrix", "function", lambda: Call(inverse_submatrix), matrices, _use_call, ints=False))
    E.append(Entry("mahalanobis_distance", "function", lambda: Call(mahalanobis_distance), lambda r, n=None: (r.standard_normal((n or 20, 3)), r.standard_normal(3), gen.spd(r, 3)), _use_call, (0,), ints=False))
    E.append(Entry("truncated_covariance", "function", lambda: Call(lambda S: truncated_covariance(S, 1.5)), lambda r, n=None: (gen.spd(r, 4),), _use_call, ints=False))
    E.append(Entry("covariance_to_correlation", "function", lambda: Call(covariance_to_correlation), lambda r, n=None: (gen.spd(r, 4),), _use_call, ints=False))
    return E


def names():
    """Without importing robpy."""
    return _NAMES


_NAMES = (
    "Qn", "Tau", "UnivariateMCD", "OneStepWrapping", "HuberOneStepM", "CellwiseOneStepM", "UnivariateMCD(0.8)", "FastMCD", "FastMCD(0.75)", "FastMCD(partitions)",
    "DetMCD", "OGK", "KendallTau", "WrappingCovariance", "CellMCD", "CellMCD(no missing)", "DDC", "ROBPCA", "ROBPCA(0.6, no final MCD)", "PCALocantore", "FastLTSRegression", "SRegression",
    "MMRegression", "MMRegression(LTS)", "RobustScaler", "RobustScaler(Qn)", "RobustPowerTransformer", "RobustPowerTransformer(boxcox)", "RobustPowerTransformer(raw)", "DataCleaner", "adjusted_boxplot",
    "l1median", "stahel_donoho", "stahel_donoho(3 points)", "wrapping_transformation", "wrapping_transformation(raw)", "weighted_median", "inverse_submatrix",
    "mahalanobis_distance", "truncated_covariance", "covariance_to_correlation",
)


def get(name):
    return next(e for e in entries() if e.name == name)


def equal(a, b, exact=True, rtol=1e-9, atol=0.0):
    """Same results? Arrays, numbers, tuples, strings, None; NaN equals NaN."""
    if a is None or b is None:
        return a is b
    if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
        return type(a) is type(b) and a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        a, b = a.astype(float), b.astype(float)
    if exact:
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def differing(a, b, **kw):
    return [k for k in sorted(set(a) | set(b)) if k not in a or k not in b or not equal(a[k], b[k], **kw)]
