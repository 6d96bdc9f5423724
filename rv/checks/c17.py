"""C17: robust regression resists gross outliers, fits exact majorities exactly, and has a consistent scale."""
import numpy as np

from rv import gen, ref
from rv.checks.c14 import coefficients

RULE = (
    "'attack': regular linear data plus up to 40% gross outliers (vertical, good and bad leverage, clustered, magnitudes to 1e8), every "
    "estimator judged against least squares on the regular rows; 'exact': a majority on a hyperplane; 'move': outliers moved further away; "
    "'scale': scale and efficiency on normal data. Non-trivial: coefficients were judged"
)
ASSUME = ["the regular rows are in general position, and outliers are at least 20 standard deviations from the regular hyperplane (leverage >= 10 or vertical)"]
REQUIRE = {"attack": 60, "exact": 30, "moved": 15, "scale": 20, "share of outliers above 0.3": 20}
KINDS = ("vertical", "bad leverage", "cluster", "far", "one sided", "y only huge", "mixed")


def cases(tier):
    q = tier == "quick"
    kw = {"kw": {"n_initial_subsets": 150}} if q else {}
    out = (
        [{"kind": "attack", "out": o, "i": r} for o in KINDS for r in range(12 if q else 80)]
        + [{"kind": "exact", "i": r} for r in range(36 if q else 200)]
        + [{"kind": "move", "i": r} for r in range(18 if q else 100)]
        + [{"kind": "scale", "i": r} for r in range(24 if q else 90)]
    )
    return [dict(c, **kw) if c["i"] % 6 else c for c in out]


def contaminate(rng, X, y, rows, kind, beta, a, sigma):
    k, p = len(rows), X.shape[1]
    X, y = X.copy(), y.copy()
    if kind == "vertical":
        y[rows] += rng.choice([-1, 1], k) * sigma * rng.uniform(30, 300, k)
    elif kind == "one sided":
        y[rows] += sigma * rng.uniform(30, 60, k)
    elif kind == "bad leverage":
        far = 10 * np.sqrt(p) * rng.uniform(1, 3)
        X[rows] += gen.unit(rng, p) * far
        y[rows] = a + X[rows] @ beta + sigma * (rng.choice([-1, 1]) * far * rng.uniform(60, 200) + rng.standard_normal(k))
    elif kind == "cluster":
        c = 12 * gen.unit(rng, p) * np.sqrt(p)
        X[rows] = c + 0.01 * rng.standard_normal((k, p))
        y[rows] = a + c @ beta + sigma * rng.choice([-1, 1]) * rng.uniform(60, 200) * np.linalg.norm(c) + 0.01 * rng.standard_normal(k)
    elif kind == "far":
        X[rows] = 10.0 ** rng.uniform(2, 5) * rng.standard_normal((k, p))
        y[rows] = 10.0 ** rng.uniform(2, 6) * rng.standard_normal(k)
        y[rows] += np.sign(y[rows] - a - X[rows] @ beta) * 60 * sigma * (1 + np.linalg.norm(X[rows], axis=1))
    elif kind == "y only huge":
        y[rows] = rng.choice([-1, 1]) * 10.0 ** rng.uniform(4, 8)
    elif kind == "mixed":
        half = rows[: k // 2]
        X, y = contaminate(rng, X, y, half, "vertical", beta, a, sigma)
        X, y = contaminate(rng, X, y, rows[k // 2 :], "bad leverage", beta, a, sigma)
    return X, y


def estimators(seed, **kw):
    from robpy.regression import FastLTSRegression, MMRegression, SRegression

    return {
        "LTS": lambda: FastLTSRegression(random_state=seed, **kw),
        "LTS raw": lambda: FastLTSRegression(reweighting=False, random_state=seed, **kw),
        "S": lambda: SRegression(random_state=seed, **kw),
        "MM": lambda: MMRegression(initial_estimator=SRegression(random_state=seed, **kw)),
        "MM from LTS": lambda: MMRegression(initial_estimator=FastLTSRegression(random_state=seed, **kw)),
    }


def fitted(make, X, y):
    from robpy.regression import FastLTSRegression

    est = make()
    return est.fit(X, y, verbosity=40) if isinstance(est, FastLTSRegression) else est.fit(X, y)


def run(case, mon):
    rng, i = mon.rng, case["i"]
    seed = int(rng.integers(10000))
    made = estimators(seed, **case.get("kw", {}))
    p = [1, 2, 3, 4][i % 4]
    names = list(made)
    # two of the five per case
    pick = [names[i % 5], names[(i + 2 + i // 5) % 5]] if case["kind"] != "scale" else names
    pick = list(dict.fromkeys(pick))
    beta = rng.uniform(-3, 3, p)
    a = float(rng.uniform(-5, 5))
    if case["kind"] in ("attack", "move"):
        n = int(rng.integers(20 * p + 30, 30 * p + 90))
        sigma = float(10.0 ** rng.uniform(-2, 1))
        eps = float(rng.choice([0.1, 0.25, 0.35, 0.4])) if p <= 2 else float(rng.choice([0.1, 0.25, 0.33]))
        X = rng.standard_normal((n, p))
        y = a + X @ beta + sigma * rng.standard_normal(n)
        k = int(eps * n)
        # anywhere, or a block of consecutive rows
        rows = [rng.choice(n, k, replace=False), np.arange(k), np.arange(n - k, n)][i // 2 % 3]
        kind = case.get("out") or KINDS[i % len(KINDS)]
        Xc, yc = contaminate(rng, X, y, rows, kind, beta, a, sigma)
        mon.input(Xc, yc)
        regular = np.setdiff1d(np.arange(n), rows)
        b = ref.ls(X[regular], y[regular])
        m = len(regular)
        # standard errors of least squares on the regular rows
        A = np.column_stack([np.ones(m), X[regular]])
        se = sigma * np.sqrt(np.diag(np.linalg.inv(A.T @ A)))
        for name in pick:
            est = fitted(made[name], Xc, yc)
            got = coefficients(est, p)
            bound = 12.0
            mon.ok(
                np.all(np.isfinite(got)) and np.max(np.abs(got - b) / se) < bound, "coefficients follow the outliers", estimator=name,
                error_in_se=np.max(np.abs(got - b) / se), eps=eps, kind=kind, n=n, p=p,
            )
            mon.ok(0.4 < est.scale / sigma < 3.0, "scale follows the outliers", estimator=name, ratio=est.scale / sigma, eps=eps, kind=kind, n=n, p=p)
            res = np.abs(yc - np.asarray(est.predict(Xc)).ravel()) / est.scale
            gross = np.abs(yc - a - Xc @ beta)[rows] > 50 * sigma * (1 + np.linalg.norm(Xc[rows], axis=1))
            mon.ok(np.all(res[rows][gross] > 2.5), "a gross outlier has a small standardised residual", estimator=name, smallest=np.min(res[rows][gross], initial=np.inf))
            mon.seen("outliers with a large residual", np.sum(gross))
            mon.seen(f"fits of {name}")
            if case["kind"] == "move":
                Y2 = yc.copy()
                Y2[rows] += np.sign(yc[rows] - a - Xc[rows] @ beta) * sigma * 10.0 ** rng.uniform(2, 6)
                moved = coefficients(fitted(made[name], Xc, Y2), p)
                mon.ok(np.max(np.abs(moved - got) / se) < bound, "moving the outliers further away moves the fit", estimator=name, change=np.max(np.abs(moved - got) / se), kind=kind)
                mon.seen("moved")
            mon.state(name, kind, eps, p)
        mon.seen("attack", case["kind"] == "attack")
        mon.seen("share of outliers above 0.3", eps > 0.3)
        mon.note(n=n, p=p, eps=eps, sigma=sigma)
        return
    if case["kind"] == "exact":
        n = int(rng.integers(20 * p + 10, 20 * p + 80))
        X = np.round(rng.standard_normal((n, p)), 2)
        if i % 3 == 0:
            X = X + 10.0 ** rng.uniform(0, 2)
        y = a + X @ beta
        share = float(rng.choice([0.0, 0.2, 0.35]))
        rows = rng.choice(n, int(share * n), replace=False)
        y[rows] += rng.choice([-1, 1], len(rows)) * rng.uniform(1, 50, len(rows))
        mon.input(X, y)
        size = np.abs(a) + np.abs(X) @ np.abs(beta) + 1
        for name in pick:
            est = fitted(made[name], X, y)
            fit = np.asarray(est.predict(X)).ravel()
            ok = np.abs(fit - (a + X @ beta)) / size
            mon.ok(np.all(np.isfinite(fit)) and np.max(ok) < 1e-6, "exact majority is not fitted exactly", estimator=name, error=np.max(ok), share=share, n=n, p=p)
            mon.ok(np.isfinite(est.scale) and 0 <= est.scale < 1e-6 * np.max(size), "scale of an exact fit is not (nearly) zero", estimator=name, scale=est.scale, share=share)
            mon.seen("exact")
        mon.note(n=n, p=p, share=share)
        return
    n = int(rng.integers(300, 500))
    sigma = float(10.0 ** rng.uniform(-3, 3))
    a, beta = a * sigma, beta * sigma
    X = rng.standard_normal((n, p))
    y = a + X @ beta + sigma * rng.standard_normal(n)
    mon.input(X, y)
    b = ref.ls(X, y)
    A = np.column_stack([np.ones(n), X])
    se = sigma * np.sqrt(np.diag(np.linalg.inv(A.T @ A)))
    name = names[i % 5]
    est = fitted(made[name], X, y)
    got = coefficients(est, p)
    dev = np.max(np.abs(got - b) / se)
    mon.ok(0.75 < est.scale / sigma < 1.25, "scale of normal errors", estimator=name, ratio=est.scale / sigma, n=n, p=p)
    # asymptotic efficiencies: reweighted LTS and MM high, S 0.29, raw LTS 0.07
    lim = {"LTS": 6.0, "LTS raw": 17.0, "S": 8.0, "MM": 2.2, "MM from LTS": 2.2}[name]
    mon.ok(dev < lim, "far from least squares on normal data", estimator=name, deviation_in_se=dev, n=n, p=p)
    mon.seen("scale")
    mon.note(n=n, p=p, estimator=name, ratio=est.scale / sigma, deviation=dev)
