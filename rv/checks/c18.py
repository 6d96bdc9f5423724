"""C18: regression fits follow transformations of the data, do not depend on the container, and outlier_map shows them."""
import numpy as np
import pandas as pd
from scipy.stats import chi2

from rv import gen, ref
from rv.checks.c14 import coefficients
from rv.checks.c17 import fitted

RULE = (
    "'equi': regression, scale and affine transformations of one data set, per estimator; 'container': the same values as DataFrame, "
    "Series, column, Fortran order, strided view, integers; 'map': residuals, distances and thresholds returned and drawn by outlier_map. "
    "Non-trivial: two executions were compared, or a map was recomputed"
)
ASSUME = [
    "a transformed fit may end in another solution of (nearly) equal loss",
    "the distances of outlier_map come from FastMCD without a seed: they are judged by their properties",
]
REQUIRE = {"regression": 12, "scale": 12, "affine": 12, "container": 40, "map": 20, "single feature map": 3}
NAMES = ("LTS", "LTS raw", "S", "MM")


def cases(tier):
    q = tier == "quick"
    return (
        [{"kind": "equi", "est": e, "i": r} for e in NAMES for r in range(10 if q else 80)]
        + [{"kind": "container", "est": e, "i": r} for e in NAMES for r in range(4 if q else 30)]
        + [{"kind": "map", "i": r} for r in range(24 if q else 150)]
    )


def make(name, seed, scale=1.0, n_sub=100):
    from robpy.regression import FastLTSRegression, MMRegression, SRegression

    s = lambda: SRegression(random_state=seed, n_initial_subsets=n_sub)  # noqa: E731
    return {
        "LTS": lambda: FastLTSRegression(random_state=seed, n_initial_subsets=n_sub),
        "LTS raw": lambda: FastLTSRegression(random_state=seed, n_initial_subsets=n_sub, reweighting=False),
        "S": s,
        "MM": lambda: MMRegression(initial_estimator=s(), epsilon=1e-8 * scale, max_iterations=2000),
    }[name]


def trimmed(r, h):
    return np.sort(r**2)[:h].mean()


def run(case, mon):
    rng, i = mon.rng, case["i"]
    p = int(rng.integers(1, 5))
    n = int(rng.integers(14 * p + 20, 24 * p + 60))
    seed = int(rng.integers(10000))
    fam = gen.REG[int(rng.integers(len(gen.REG) - 1))]
    X, y, beta, a, out = gen.reg(rng, fam, n, p)
    if case["kind"] == "equi":
        mon.input(X, y)
        sigma = ref.mad(y - a - X @ beta)
        name = case["est"]
        base = fitted(make(name, seed, sigma), X, y)
        f0, s0 = np.asarray(base.predict(X)).ravel(), base.scale
        for what in ("regression", "scale", "affine"):
            X1, y1, k = X, y, 1.0
            if what == "regression":
                v, c = rng.uniform(-10, 10, p), float(rng.uniform(-30, 30))
                y1 = y + X @ v + c
                back = lambda f: f - X @ v - c  # noqa: E731,B023
            elif what == "scale":
                k = float(rng.choice([-1, 1]) * 10.0 ** rng.uniform(-2.5, 2.5))
                y1 = k * y
                back = lambda f: f / k  # noqa: E731,B023
            else:
                A, c = gen.nonsingular(rng, p, 10.0), rng.uniform(-5, 5, p)
                X1 = X @ A + c
                back = lambda f: f  # noqa: E731
            est = fitted(make(name, seed, sigma * abs(k)), X1, y1)
            f1 = back(np.asarray(est.predict(X1)).ravel())
            s1 = est.scale / abs(k)
            # S stops at a relative change of the coefficients, which depend on the transformation
            tol = 1e-3 if name in ("S", "MM") else 1e-6
            diff = np.max(np.abs(f1 - f0)) / s0
            if diff > tol:
                # both solutions have to be equally good
                h = max(n // 2, (n + p + 1) // 2)
                if name == "S" or name == "MM":
                    rho = lambda u: ref.bisq_rho(u, 1.547)  # noqa: E731
                    l0, l1 = ref.m_scale(y - f0, rho, 0.1995), ref.m_scale(y - f1, rho, 0.1995)
                else:
                    l0, l1 = trimmed(y - f0, h), trimmed(y - f1, h)
                mon.ok(abs(l0 / l1 - 1) < 0.01 and name != "MM", f"fit does not follow a {what} transformation", estimator=name, change=diff, loss=(l0, l1), n=n, p=p)
                mon.seen("another solution of equal loss")
                continue
            mon.ok(abs(s1 / s0 - 1) < tol, f"scale does not follow a {what} transformation", estimator=name, before=s0, after=s1)
            mon.evaluations += 1
            mon.seen(what)
        mon.state(name, fam, p)
        mon.note(n=n, p=p, scale=s0)
        return
    if case["kind"] == "container":
        name = case["est"]
        X = np.round(X * 3)
        y = np.round(y * 3)
        mon.input(X, y)
        mk = make(name, seed, 1.0, 40)
        base = fitted(mk, X.copy(), y.copy())
        f0 = np.asarray(base.predict(X))
        c0 = coefficients(base, p)
        frame = gen.frame(rng, X, gen.FRAMES[int(rng.integers(len(gen.FRAMES)))])
        big = np.zeros((2 * n, p))
        big[::2] = X
        for what, X1, y1 in (
            ("DataFrame and Series", frame, pd.Series(y, index=frame.index, name="y")),
            ("DataFrame and array", frame, y),
            ("array and Series", X, pd.Series(y, index=rng.permutation(n))),
            ("column", X, y.reshape(-1, 1)),
            ("Fortran order", np.asfortranarray(X), y),
            ("strided view", big[::2], np.repeat(y, 3)[::3]),
            ("integers", X.astype(int), y.astype(int)),
            ("repeated", X.copy(), y.copy()),
        ) + ((("flat feature", X.ravel(), y),) if p == 1 else ()):
            est = fitted(mk, X1, y1)
            f1 = np.asarray(est.predict(X1))
            mon.ok(f1.ravel().shape == (n,), "shape of the prediction", container=what, shape=f1.shape)
            if y1.ndim == 1:
                mon.ok(f1.shape == f0.shape, "shape of the prediction depends on the container", container=what, got=f1.shape, want=f0.shape)
            mon.close(f1.ravel() / base.scale, f0.ravel() / base.scale, f"prediction depends on the container: {what}", rtol=1e-6, atol=1e-5)
            mon.close(est.scale, base.scale, f"scale depends on the container: {what}", rtol=1e-6)
            mon.seen("container")
        new = rng.standard_normal((5, p))
        mon.close(np.asarray(base.predict(gen.frame(rng, new, "str_index"))).ravel(), c0[0] + new @ c0[1:], "prediction of a new DataFrame", rtol=1e-8, atol=1e-8)
        mon.state(name, p)
        return
    if i % 4 == 3:  # one feature
        p = 1
        X, y, beta, a, out = gen.reg(rng, fam, n, p)
        mon.seen("single feature map")
    mon.input(X, y)
    import matplotlib.pyplot as plt

    name = NAMES[i % 4 if i % 8 else 3]
    est = fitted(make(name, seed, 1.0, 40), X, y)
    robust_scaling, robust_distance = bool(rng.integers(2)), bool(i % 2)
    vert, perc = float(rng.choice([2.5, 3.0, 2.0])), float(rng.choice([0.975, 0.99, 0.9]))
    plt.close("all")
    frame = gen.frame(rng, X, "plain") if i % 3 == 0 else X
    Y = pd.Series(y) if i % 3 == 0 else y
    res, std, dist, v1, lev = est.outlier_map(
        frame, Y, robust_scaling=robust_scaling, robust_distance=robust_distance, vertical_outlier_threshold=vert,
        leverage_threshold_percentile=perc, return_data=True,
    )
    r = y - np.asarray(est.predict(X)).ravel()
    mon.close(np.asarray(res).ravel(), r, "residuals of the map", rtol=1e-9, atol=1e-9)
    sc = ref.mad(r) if robust_scaling else np.std(r)
    mon.close(std, r / sc, "standardised residuals of the map", rtol=1e-6, atol=1e-8)
    mon.ok(v1 == vert, "vertical threshold", got=v1)
    mon.close(lev, np.sqrt(chi2.ppf(perc, p)), "leverage threshold", rtol=1e-9)
    dist = np.asarray(dist)
    mon.ok(dist.shape == (n,), "shape of the distances")
    if robust_distance:
        mon.ok(np.all(np.isfinite(dist)) and np.all(dist >= 0), "robust distances are finite")
        far = np.zeros(n, bool)
        far[out] = fam in ("leverage", "cluster")
        if fam in ("leverage", "cluster"):
            mon.ok(np.all(dist[far] > lev), "a leverage point has a small robust distance", smallest=dist[far].min())
        # a quadratic form of the features, centred at its minimum, with a consistent size
        D = np.column_stack([np.ones(n)] + [X[:, j] for j in range(p)] + [X[:, j] * X[:, k] for j in range(p) for k in range(j + 1)])
        D = D / np.abs(D).max(axis=0)
        fit = D @ np.linalg.lstsq(D, dist**2, rcond=None)[0]
        mon.close(fit, dist**2, "robust distances are not Mahalanobis distances", rtol=1e-4, atol=1e-4 * max(1, np.max(dist**2)))
        med = np.median(dist[~far] ** 2) / chi2.ppf(0.5, p)
        if fam != "rounded":
            mon.ok(0.4 < med < 2.0, "robust distances are not calibrated", ratio=med, n=n, p=p)
    else:
        cov = np.atleast_2d(np.cov(X.T))
        mon.close(dist, np.sqrt(ref.mahal2(X, X.mean(axis=0), cov)), "classical distances", rtol=1e-8, atol=1e-8)
    ax = plt.gcf().axes[0]
    pts = np.asarray(ax.collections[0].get_offsets())
    mon.close(pts, np.column_stack([dist, std]), "drawn points", rtol=1e-9, atol=1e-12)
    lines = [np.asarray(ln.get_xydata(), dtype=float) for ln in ax.lines]
    horiz = sorted(float(ln[0, 1]) for ln in lines if ln[0, 1] == ln[1, 1])
    verti = [float(ln[0, 0]) for ln in lines if ln[0, 0] == ln[1, 0]]
    mon.close(horiz, [-vert, vert], "drawn vertical thresholds", rtol=1e-12)
    mon.close(verti, [lev], "drawn leverage threshold", rtol=1e-12)
    mon.ok(("Non-robust" not in ax.get_xlabel()) == robust_distance and ("Non-robust" not in ax.get_ylabel()) == robust_scaling, "axis labels", x=ax.get_xlabel(), y=ax.get_ylabel())
    mon.ok(est.outlier_map(X, y, robust_distance=False) is None, "no data is returned unless asked for")
    mon.seen("map")
    mon.note(n=n, p=p, estimator=name, leverage=lev)
