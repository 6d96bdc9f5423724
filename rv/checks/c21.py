"""C21: RobustScaler standardises every column by its own robust location and scale, and is inverted exactly."""
import numpy as np
import pandas as pd

from rv import gen, ref

RULE = (
    "univariate estimator x flags x families x containers per case: every column judged against an independent fit of the estimator on that column alone (and "
    "the reference), then new data, inverse, missing values and affine copies. Non-trivial: scaled values were compared"
)
ASSUME = ["columns with a positive robust scale"]
REQUIRE = {"columns": 300, "inverse": 100, "with missing values": 15, "integers": 10, "affine copy": 30}
CHUNK = 8
EST = ("UnivariateMCD", "Qn", "Tau", "HuberOneStepM", "CellwiseOneStepM", "OneStepWrapping")


def cases(tier):
    return [{"kind": "scale", "est": e, "i": r} for e in EST for r in range(30 if tier == "quick" else 300)]


def run(case, mon):
    import robpy.univariate as u
    from robpy.preprocessing import RobustScaler

    rng, i = mon.rng, case["i"]
    cls = getattr(u, case["est"])
    n, p = int(rng.integers(8, 120)), int(rng.integers(1, 7))
    fams = ("normal", "t2", "lognormal", "uniform", "contaminated", "shifted", "tiny", "huge")
    X = np.column_stack([gen.uni(rng, fams[int(rng.integers(len(fams)))], n) for _ in range(p)])
    cen, sca = bool(i % 4 != 1), bool(i % 4 != 2)
    kw = {}
    if not cen or i % 3 == 0:
        kw["with_centering"] = cen
    if not sca or i % 3 == 1:
        kw["with_scaling"] = sca
    nan = i % 5 == 3
    if i % 7 == 5 and not nan:
        # integer data: location and scale are not integers
        X = np.round(rng.standard_normal((n, p)) * rng.uniform(5, 60, p)).astype([np.int64, np.int32, np.int16][i % 3])
        mon.seen("integers")
    if nan:
        X[rng.random((n, p)) < 0.15] = np.nan
        X[:4] = np.where(np.isnan(X[:4]), 1.0 + np.arange(4)[:, None] * 0.37, X[:4])
        nan = bool(np.isnan(X).any())
    mon.input(X)
    shared = cls()
    sc = RobustScaler(**kw) if case["est"] == "UnivariateMCD" and i % 2 else RobustScaler(scale_estimator=shared, **kw)
    if nan:
        mon.raises(ValueError, lambda: RobustScaler(scale_estimator=cls()).fit(X), "missing values without ignore_nan")
    given = gen.frame(rng, X, gen.FRAMES[i % len(gen.FRAMES)]) if i % 2 else X
    mon.ok(sc.fit(given, ignore_nan=True) is sc if nan else sc.fit(given) is sc, "fit must return the scaler")
    loc, scale = np.zeros(p), np.ones(p)
    for j in range(p):
        x = X[:, j][~np.isnan(X[:, j])]
        e = cls().fit(x.astype(float))
        if cen:
            loc[j] = e.location
        if sca:
            scale[j] = e.scale
    if np.min(scale) <= 0:
        from rv.core import Skip

        raise Skip("a column has scale zero")
    mon.close(sc.locations_, loc, "locations", rtol=1e-9, atol=1e-12)
    mon.close(sc.scales_, scale, "scales", rtol=1e-9)
    mon.seen("columns", p)
    new = np.where(np.isnan(X), 0.0, X)[rng.integers(0, n, 6)] * rng.uniform(-3, 3, (6, p)) + rng.standard_normal((6, p))
    for Y in (X, new, new[:1]):
        want = (Y - loc) / scale
        got = np.asarray(sc.transform(Y.copy()))
        mon.close(got, want, "scaled values", rtol=1e-8, atol=1e-9)
        mon.close(np.asarray(sc.transform(gen.frame(rng, Y, "str_index"))), got, "scaled values of a DataFrame", rtol=1e-12)
        back = np.asarray(sc.inverse_transform(got))
        size = np.abs(Y) + np.abs(loc)
        mon.ok(np.all((np.abs(back - Y) <= 1e-12 * size + 1e-300) | np.isnan(Y)) and np.all(np.isnan(back) == np.isnan(Y)), "inverse of the scaled values")
        mon.close(np.asarray(sc.inverse_transform(gen.frame(rng, got, "plain"))), back, "inverse of a DataFrame", rtol=1e-12)
        mon.seen("inverse")
    if not nan and X.dtype == float:
        # the scaled data are standardised in the sense of the estimator
        Z = np.asarray(sc.fit_transform(X))
        for j in range(p):
            e = cls().fit(Z[:, j].copy())
            if cen:
                mon.ok(abs(e.location) < 1e-6 * (1 + np.max(np.abs(Z[:, j])) * 1e-6), "location after centering", got=e.location)
            if sca:
                mon.close(e.scale, 1.0, "scale after scaling", rtol=1e-6)
        if cen and sca:
            a, b = 10.0 ** rng.uniform(-2, 2, p) * rng.choice([-1, 1], p), rng.uniform(-5, 5, p)
            W = np.asarray(RobustScaler(scale_estimator=cls()).fit_transform(X * a + b))
            tol = 1e-6 * (1 + np.max((np.abs(loc * a) + np.abs(b)) / np.abs(scale * a)))
            mon.close(W * np.sign(a), Z, "affine copy of the data", rtol=1e-6, atol=tol)
            mon.seen("affine copy")
    if p == 1:
        flat = RobustScaler(scale_estimator=cls(), **kw).fit(X[:, 0], ignore_nan=True)
        mon.close(np.asarray(flat.transform(X[:, 0])).ravel(), (X[:, 0] - loc) / scale, "one-dimensional data", rtol=1e-8, atol=1e-9)
    mon.ok(not hasattr(shared, "scale_") , "the given estimator was fitted")
    mon.seen("with missing values", nan)
    mon.state(case["est"], cen, sca, nan, p)
    mon.note(n=n, p=p, locations=loc, scales=scale)
