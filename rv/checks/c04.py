"""C04: equivariance, breakdown, consistency and missing-value policy of the univariate estimators."""
import numpy as np

from rv import gen, ref

RULE = (
    "one sample per case and estimator: continuous families x sizes 5..120, then the same sample permuted, scaled, shifted, "
    "negated, contaminated up to the breakdown point and with missing values; non-trivial: the transformed fit was compared "
    "with the transformed estimates or the bounds"
)
ASSUME = ["bounds of the breakdown test: 60 times the range of the clean observations"]
CHUNK = 10
BUDGET = 300000
REQUIRE = {"contaminated fit": 100, "equivariance": 100, "consistency": 5}
FAMS = ("normal", "t2", "lognormal", "uniform", "contaminated", "far_cluster")
EST = ("Qn", "UnivariateMCD", "Tau", "HuberOneStepM", "CellwiseOneStepM", "OneStepWrapping")


def cases(tier):
    reps = 1 if tier == "quick" else 10
    out = [
        {"kind": "sample", "fam": f, "n": n, "est": e, "i": r}
        for f in FAMS
        for n in (5, 6, 7, 8, 11, 16, 23, 40, 81, 120)
        for e in EST
        for r in range(reps)
    ]
    out += [{"kind": "consistency", "est": e, "i": r} for e in EST if e != "CellwiseOneStepM" for r in range(1 if tier == "quick" else 5)]
    out += [{"kind": "policy", "est": e, "i": r} for e in EST for r in range(2)]
    return out


def run(case, mon):
    import robpy.univariate as u
    from sklearn.exceptions import NotFittedError

    cls = getattr(u, case["est"])
    rng = mon.rng
    if case["kind"] == "consistency":
        n = 2500 if case["est"] == "Qn" else 6000
        sigma, mu = float(10 ** rng.uniform(-3, 3)), float(rng.uniform(-5, 5))
        x = mu * sigma + sigma * rng.standard_normal(n)
        mon.input(x)
        e = cls().fit(x)
        mon.ok(abs(e.scale / sigma - 1) < 0.12, "scale is not consistent for normal data", scale=e.scale, sigma=sigma)
        mon.ok(abs(e.location - mu * sigma) < 0.15 * sigma, "location of normal data", location=e.location, mu=mu * sigma)
        mon.seen("consistency")
        return
    if case["kind"] == "policy":
        x = rng.standard_normal(15)
        y = x.copy()
        y[[2, 7, 14][: case["i"] + 1]] = np.nan
        mon.input(y)
        mon.raises(ValueError, lambda: cls().fit(y), "data with NaN must be rejected")
        mon.raises(ValueError, lambda: cls().fit(x.reshape(-1, 1)), "two-dimensional data must be rejected")
        mon.raises(NotFittedError, lambda: cls().scale, "scale before fit")
        mon.raises(NotFittedError, lambda: cls().location, "location before fit")
        a, b = cls().fit(y, ignore_nan=True), cls().fit(y[~np.isnan(y)])
        mon.close([a.scale, a.location], [b.scale, b.location], "ignored NaN must not matter", rtol=1e-12)
        z = y.copy()
        c = cls()
        mon.ok(c.fit(z, ignore_nan=True) is c, "fit returns the estimator")
        mon.same(z, y, "fit changed its input")
        return

    n = case["n"]
    x = gen.uni(rng, case["fam"], n)
    x = x + 1e-9 * np.max(np.abs(x)) * rng.standard_normal(n)  # no exact ties
    mon.input(x)
    e = cls().fit(x)
    loc, scale = float(e.location), float(e.scale)
    tol = 1e-7 * np.max(np.abs(x))
    # far_cluster: a majority could (nearly) coincide after transformation only; all is continuous here
    mon.ok(np.isfinite(loc) and np.isfinite(scale) and scale > 0, "finite location and positive scale", loc=loc, scale=scale)
    mon.ok(x.min() <= loc <= x.max(), "location lies within the data", loc=loc)
    for what, a, b, perm in (
        ("permuted", 1.0, 0.0, True),
        ("scaled", float(2.0 ** rng.integers(-20, 20)), 0.0, False),
        ("minute", float(2.0 ** np.round(np.log2(10.0 ** rng.uniform(-10, -5) / ref.mad(x)))), 0.0, False),  # above 1e-12
        ("scaled and shifted", float(10 ** rng.uniform(-2, 2)), float(rng.uniform(-50, 50)), True),
        ("negated", -1.0, 0.0, False),
    ):
        y = a * x + b
        if perm:
            y = rng.permutation(y)
        t = cls().fit(y)
        ytol = 1e-7 * (abs(a) * np.max(np.abs(x)) + abs(b))
        mon.close(t.location, a * loc + b, f"location of {what} data", rtol=1e-7, atol=ytol, a=a, b=b)
        mon.close(t.scale, abs(a) * scale, f"scale of {what} data", rtol=1e-6, atol=ytol * 1e-3, a=a, b=b)
        mon.seen("equivariance")
    # breakdown: any minority may be anywhere
    clean = rng.standard_normal(n)
    for m in {(n - 1) // 2, max(1, n // 4)}:
        for size in (1e3, 1e7, 1e12):
            y = clean.copy()
            style = int(rng.integers(3))
            if style == 0:
                y[:m] = size
            elif style == 1:
                y[:m] = size * rng.choice([-1, 1], m) * rng.uniform(1, 2, m)
            else:
                y[:m] = -size * np.arange(1, m + 1)
            y = rng.permutation(y)
            t = cls().fit(y)
            good = clean[m:]
            r = max(np.ptp(clean), 1.0)
            mon.ok(abs(t.location - np.median(good)) <= 60 * r, "location breaks down", m=m, n=n, size=size, location=t.location)
            mon.ok(t.scale <= 60 * r, "scale explodes", m=m, n=n, size=size, scale=t.scale)
            mon.ok(t.scale > 0, "scale implodes", m=m, n=n, size=size, scale=t.scale)
            mon.seen("contaminated fit")
    mon.state(case["est"], case["fam"], n)
    mon.note(location=loc, scale=scale)
