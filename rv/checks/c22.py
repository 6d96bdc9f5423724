"""C22: the fitted power transformation is the Box-Cox or Yeo-Johnson map of its lambda, increasing, and inverted."""
import numpy as np
import pandas as pd

from rv import gen, ref

RULE = (
    "'fit': families x method x standardize, transformed training and new values judged against the formula of the fitted parameters, order and "
    "inverse; 'integers': whole numbers in integer arrays; 'lambda': the same maps at chosen lambda (0, 1, 2, values next to them, negative, large); 'range': values outside the "
    "range of the transformation; 'policy'. Non-trivial: transformed values were compared"
)
ASSUME = ["the inverse is judged where it is well conditioned: derivative of the inverse times the rounding error below the tolerance"]
REQUIRE = {"fit": 60, "lambda": 100, "inverse": 2000, "outside the range": 50, "policy": 4, "integers": 36}
CHUNK = 4
LAMBDAS = (0.0, 1.0, 2.0, 0.5, -0.5, -1.0, 1.5, 2.5, 3.0, -2.0, 4.0, 1e-9, -1e-9, 2 + 1e-9, 2 - 1e-9, 1e-3, 1.999)
FAMS = ("normal", "t2", "lognormal", "uniform", "contaminated", "shifted", "rounded", "huge", "tiny")


def cases(tier):
    q = tier == "quick"
    return (
        [{"kind": "integers", "i": r} for r in range(36 if q else 200)]
        + [{"kind": "fit", "fam": f, "i": r} for f in FAMS for r in range(10 if q else 60)]
        + [{"kind": "lambda", "m": m, "i": r} for m in ("boxcox", "yeojohnson") for r in range(60 if q else 400)]
        + [{"kind": "range", "m": m, "i": r} for m in ("boxcox", "yeojohnson") for r in range(30 if q else 200)]
        + [{"kind": "policy", "i": r} for r in range(4 if q else 20)]
    )


def sample(rng, fam, n, positive):
    x = gen.uni(rng, fam, n)
    if positive:
        x = np.exp(0.5 * (x - np.median(x)) / (ref.mad(x) + 1e-300)) if fam in ("normal", "t2", "contaminated") else x - x.min() + 0.2 * (np.median(x) - x.min()) + 1e-3 * np.abs(x).max()
        x = np.clip(x, None, 1e12)
    return x


def forward(est, method, std, x):
    x = np.asarray(x, dtype=float)
    lam = est.lambda_rew
    if method == "boxcox":
        z = ref.boxcox(x / est.scale_pre if std else x, lam)
    else:
        z = ref.yeojohnson((x - est.location_pre) / est.scale_pre if std else x, lam)
    return (z - est.location_post) / est.scale_post if std else z


def judge_maps(mon, est, method, std, x, what):
    lam = est.lambda_rew
    order = np.sort(x)
    got = np.asarray(est.transform(x.copy()))
    want = forward(est, method, std, x)
    spread = np.ptp(want[np.isfinite(want)]) if len(x) > 1 else 1.0
    near = min(abs(lam), abs(lam - 2)) < 1e-6 and lam not in (0.0, 2.0)
    tol = 1e-6 if near else 1e-9
    mon.ok(got.shape == x.shape, what + ": shape", got=got.shape)
    mon.close(got, want, what + ": transformed values", rtol=tol, atol=tol * spread + 1e-300, lam=lam)
    if not near:
        t = np.asarray(est.transform(order))
        mon.ok(np.all(np.diff(t) >= -1e-9 * np.abs(t[1:]) - 1e-12 * spread), what + ": not increasing", lam=lam)
    back = np.asarray(est.inverse_transform(got.copy()))
    # conditioning: numerical derivative of the inverse through the formula
    ulp = 4e-16 * (np.abs(got) + (abs(est.location_post / est.scale_post) if std else 0) + (1.0 / max(min(abs(lam), abs(lam - 2)), 1e-12) if near else 1.0 / max(abs(lam), 0.05) / (est.scale_post if std else 1)))
    eps = 1e-6 * np.maximum(np.abs(x), 1e-6)
    lo = x - eps
    if method == "boxcox":
        lo = np.maximum(lo, 0.5 * x)
    with np.errstate(all="ignore"):
        slope = (forward(est, method, std, x + eps) - forward(est, method, std, lo)) / (x + eps - lo)
        err = 200 * ulp / slope
    usable = np.isfinite(err) & (err < 1e-4 * (np.abs(x) + ref.mad(order) + 1e-300)) & np.isfinite(got)
    # near the end of the range values are moved inwards
    size = np.abs(x) + (abs(est.location_pre) if std and method != "boxcox" else 0)
    bad = usable & ~(np.abs(back - x) <= err + 1e-9 * size + 1e-300)
    mon.ok(not np.any(bad), what + ": inverse", lam=lam, n_bad=int(bad.sum()), got=back[bad][:3], want=x[bad][:3])
    mon.seen("inverse", int(usable.sum()))


def run(case, mon):
    from robpy.preprocessing import RobustPowerTransformer

    rng, i = mon.rng, case["i"]
    if case["kind"] == "policy":
        x = np.exp(rng.standard_normal(30))
        mon.input(x)
        for bad in (np.append(x, 0.0), np.append(x, -1.0)):
            mon.raises(ValueError, lambda: RobustPowerTransformer(method="boxcox").fit(bad), "Box-Cox of data that are not positive")
        t = RobustPowerTransformer(method="boxcox").fit(x)
        mon.raises(ValueError, lambda: t.transform(np.array([1.0, 0.0])), "Box-Cox transform of a zero")
        mon.raises(ValueError, lambda: RobustPowerTransformer(method="log").fit(x), "unknown method")
        a = RobustPowerTransformer(method="auto").fit(x - 1.0)
        b = RobustPowerTransformer(method="yeojohnson").fit(x - 1.0)
        mon.close(a.transform(x), b.transform(x), "auto on data that are not positive is Yeo-Johnson", rtol=1e-9)
        mon.seen("policy")
        return
    n = int(rng.integers(20, 120))
    if case["kind"] == "fit":
        method = ["boxcox", "yeojohnson"][i % 2]
        std = bool((i // 2) % 3)
        x = sample(rng, case["fam"], n, method == "boxcox")
        if not std:
            # without standardisation the search range of lambda suits data of order one only
            x = x / ref.mad(x) if method == "yeojohnson" else x / np.median(x)
            x = np.clip(x, -1e4, 1e4)
        if ref.mad(x) == 0:
            from rv.core import Skip

            raise Skip("scale zero")
        mon.input(x)
        est = RobustPowerTransformer(method=method, standardize=std)
        mon.ok(est.fit(x.copy()) is est, "fit must return the transformer")
        lam = est.lambda_rew
        mon.ok(np.isfinite(lam), "lambda is not finite")
        if std:
            mon.close(est.scale_pre, np.median(x) if method == "boxcox" else ref.mad(x), "scale before the transformation", rtol=1e-9)
            if method != "boxcox":
                mon.close(est.location_pre, np.median(x), "location before the transformation", rtol=1e-12)
            mon.ok(est.scale_post > 0 and np.isfinite(est.scale_post) and np.isfinite(est.location_post), "standardisation after the transformation")
        judge_maps(mon, est, method, std, x, "training data")
        new = x[rng.integers(0, n, 15)] * rng.uniform(0.7, 1.3, 15)
        judge_maps(mon, est, method, std, new, "new data")
        t = np.asarray(est.transform(x))
        perm = rng.permutation(n)
        mon.close(est.transform(x[perm]), t[perm], "transformed values depend on the order", rtol=1e-12)
        mon.close(est.transform(x[:1]), t[:1], "transformed value of a single observation", rtol=1e-12)
        mon.close(np.asarray(est.transform(pd.Series(x, index=perm))), t, "transformed Series", rtol=1e-12)
        again = RobustPowerTransformer(method=method, standardize=std).fit(x[perm])
        mon.close(again.lambda_rew, lam, "lambda depends on the order of the observations", rtol=1e-6, atol=1e-6)
        mon.close(np.asarray(RobustPowerTransformer(method=method, standardize=std).fit_transform(x)), t, "fit_transform", rtol=1e-9, atol=1e-12)
        mon.seen("fit")
        mon.state(method, std, case["fam"], round(float(lam)))
        mon.note(method=method, standardize=std, lam=lam)
        return
    if case["kind"] == "integers":
        method = ["boxcox", "yeojohnson", "auto"][i % 3]
        std = bool(i // 3 % 2)
        x = rng.integers(1 if method == "boxcox" or i % 2 else -12, 25, n)
        x = x.astype([np.int64, np.int32][i // 2 % 2])
        mon.input(x)
        e1 = RobustPowerTransformer(method=method, standardize=std).fit(x)
        e2 = RobustPowerTransformer(method=method, standardize=std).fit(x.astype(float))
        mon.close(e1.lambda_rew, e2.lambda_rew, "lambda of whole numbers depends on their type", rtol=1e-9)
        z = np.asarray(e2.transform(x.astype(float)))
        mon.close(np.asarray(e1.transform(x)), z, "transformed whole numbers", rtol=1e-9, atol=1e-12)
        mon.close(np.asarray(e2.transform(x)), z, "integers transformed by a transformer of decimal numbers", rtol=1e-9, atol=1e-12)
        grid = np.round(z).astype(int)
        mon.close(np.asarray(e2.inverse_transform(grid)), np.asarray(e2.inverse_transform(grid.astype(float))), "inverse of integers", rtol=1e-9, atol=1e-12)
        mon.close(np.asarray(RobustPowerTransformer(method=method, standardize=std).fit_transform(x)), z, "fit_transform of whole numbers", rtol=1e-9, atol=1e-9)
        mon.seen("integers")
        mon.note(method=method, standardize=std, lam=e1.lambda_rew)
        return
    method = case["m"]
    std = bool(i % 2)
    base = sample(rng, "lognormal", 40, True) if method == "boxcox" else sample(rng, "normal", 40, False)
    est = RobustPowerTransformer(method=method, standardize=std).fit(base)
    lam = LAMBDAS[i % len(LAMBDAS)] if case["kind"] == "lambda" else float(rng.choice([-3.0, -1.0, -0.5, 0.5, 1.0, 2.5, 3.0, 4.0]))
    est.lambda_rew = lam
    if std:
        est.location_post, est.scale_post = float(rng.normal()), float(np.exp(rng.normal()))
    if case["kind"] == "lambda":
        x = np.exp(rng.uniform(-3, 3, 40)) if method == "boxcox" else rng.choice([-1, 1], 40) * np.exp(rng.uniform(-3, 2.5, 40))
        x[0] = 1.0 if method == "boxcox" else 0.0
        if std:
            x = x * est.scale_pre + (0 if method == "boxcox" else est.location_pre)
        mon.input(x)
        judge_maps(mon, est, method, std, x, f"lambda {lam}")
        mon.seen("lambda")
        mon.state(method, std, lam)
        mon.note(method=method, lam=lam)
        return
    # values outside the range of the map: finite, and those inside are untouched
    lower = upper = None
    if method == "boxcox":
        lower, upper = (-1 / lam, None) if lam > 0 else (None, -1 / lam)
    elif lam > 2:
        lower = -1 / (lam - 2)
    elif lam < 0:
        upper = -1 / lam
    g = rng.uniform(-2, 2, 30) * (abs(lower or upper or 1.0))
    if lower is not None or upper is not None:
        g[:6] = (lower if lower is not None else upper) * np.array([0.952, 0.96, 0.975, 0.99, 1.01, 1.5])
    inside = np.ones(30, bool)
    if lower is not None:
        inside = g > lower * 0.999
    if upper is not None:
        inside = g < upper * 0.999
    edge = np.isclose(g, lower if lower is not None else upper if upper is not None else np.inf, rtol=2e-3)
    z = (g - est.location_post) / est.scale_post if std else g
    mon.input(z)
    back = np.asarray(est.inverse_transform(z.copy()))
    alone = np.array([float(np.ravel(est.inverse_transform(z[j : j + 1].copy()))[0]) for j in range(10)])
    mon.close(alone, back[:10], "the inverse of a value depends on the others", rtol=1e-9, atol=1e-12)
    mon.ok(np.all(np.isfinite(back)), "inverse of values outside the range is not finite", lam=lam, method=method)
    mon.close(forward(est, method, std, back[inside & ~edge]), z[inside & ~edge], "inverse of values inside the range", rtol=1e-6, atol=1e-6)
    if np.any(~inside & ~edge):
        end = 0.95 * (lower if lower is not None else upper)
        end = (end - est.location_post) / est.scale_post if std else end
        w = forward(est, method, std, back[~inside & ~edge])
        mon.close(w, np.full(len(w), end), "values outside the range do not become 95% of the bound", rtol=1e-6, atol=1e-6)
        mon.seen("outside the range", len(w))
    mon.state(method, std, lam)
    mon.note(method=method, lam=lam)
