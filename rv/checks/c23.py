"""C23: lambda is the reweighted maximum likelihood estimate, resists outliers, and auto takes the better method."""
import numpy as np

from rv import gen, ref
from rv.checks.c22 import FAMS, sample
from rv.core import Skip

RULE = (
    "'definition': families x method x options, lambda and standardisation against an independent computation of the whole procedure; 'first': one step with a low quantile, which shows the first estimate; 'recover': normal data "
    "through the inverse map, clean and with up to 10% outliers on either side; 'invariant': rescaled, shifted, reflected data; 'auto': both "
    "methods' objectives; 'range': lambda outside the search range. Non-trivial: a fitted lambda was judged"
)
ASSUME = ["the first optimum is the one scipy's bounded minimiser finds", "fits where rounding changes the weights are compared with the reference on minimally changed data too"]
REQUIRE = {"definition": 80, "recovered": 20, "contaminated": 20, "invariant": 20, "auto": 10, "extended": 5, "one step": 40, "one step, left-skewed": 8}
CHUNK = 4


def cases(tier):
    q = tier == "quick"
    return (
        [{"kind": "definition", "fam": f, "i": r} for f in FAMS for r in range(12 if q else 300)]
        + [{"kind": "first", "m": m, "i": r} for m in ("boxcox", "yeojohnson") for r in range(24 if q else 400)]
        + [{"kind": "recover", "m": m, "i": r} for m in ("boxcox", "yeojohnson") for r in range(16 if q else 400)]
        + [{"kind": "invariant", "m": m, "i": r} for m in ("boxcox", "yeojohnson") for r in range(16 if q else 400)]
        + [{"kind": "auto", "i": r} for r in range(20 if q else 500)]
        + [{"kind": "range", "m": m, "i": r} for m in ("boxcox", "yeojohnson") for r in range(8 if q else 200)]
    )


def references(rng, x, method, **kw):
    yield ref.power_fit(x, method, **kw)
    for eps in (1e-14, 1e-12, 1e-10, 1e-9, 1e-8) * 3:
        yield ref.power_fit(x * (1 + eps * rng.standard_normal(len(x))), method, **kw)


def judge(mon, est, x, method, std, what, **kw):
    """The fitted values are those of the reference (or of the reference on data changed by rounding)."""
    lam = float(est.lambda_rew)
    first = None
    for r in references(mon.rng, x, method, standardize=std, **kw):
        first = first or r
        tol = 2e-3 * (r["range"][1] - r["range"][0]) / 10 * (1 + abs(r["lam"]))
        if abs(lam - r["lam"]) <= tol:
            if std:
                # standardisation of the kept observations at the fitted lambda
                xs = x / np.median(x) if method == "boxcox" else (x - np.median(x)) / ref.mad(x)
                v = ref.boxcox(xs, lam) if method == "boxcox" else ref.yeojohnson(xs, lam)
                a, b = est.location_post, est.scale_post
                if not (abs(a - r["loc"]) <= 0.02 * r["scale"] + 2e-2 * abs(r["loc"]) and abs(b / r["scale"] - 1) <= 0.03):
                    continue
                # exactly the mean and standard deviation of a set of smallest |z|
                loc, scale = ref.one_step_m(v, "huber")
                mon.note(post=(a, b), kept=r["kept"])
            return r
    mon.fail(what, got=lam, want=first["lam"], gap=first["gap"], raw=first["raw"], extended=first["extended"], post=(getattr(est, "location_post", None), getattr(est, "scale_post", None)),
             want_post=(first["loc"], first["scale"]), method=method, standardize=std, **kw)


def run(case, mon):
    from robpy.preprocessing import RobustPowerTransformer as T

    rng, i, kind = mon.rng, case["i"], case["kind"]
    if kind == "definition":
        method = ["boxcox", "yeojohnson"][i % 2]
        std = bool((i // 2) % 3)
        n = int(rng.integers(15, 150))
        x = sample(rng, case["fam"], n, method == "boxcox")
        if not std:
            x = np.clip(x / ref.mad(x) if method == "yeojohnson" else x / np.median(x), -1e3, 1e3)
        if ref.mad(x) == 0 or not np.all(np.isfinite(x)):
            raise Skip("scale zero")
        kw = {}
        if i % 3 == 1:
            kw["quantile"] = float(rng.choice([0.9, 0.95, 0.975, 0.999]))
        if i % 4 == 2:
            kw["nsteps"] = int(rng.choice([1, 3, 4]))
        if i % 5 == 4:
            kw["lambda_range"] = (float(rng.uniform(-6, -2)), float(rng.uniform(3, 8)))
        mon.input(x)
        est = T(method=method, standardize=std, **kw).fit(x.copy())
        r = judge(mon, est, x, method, std, "lambda is not the reweighted maximum likelihood estimate", **kw)
        if std:
            # location and scale after the transformation are mean and standard deviation of kept values
            xs = np.sort(x / np.median(x) if method == "boxcox" else (x - np.median(x)) / ref.mad(x))
            v = ref.boxcox(xs, est.lambda_rew) if method == "boxcox" else ref.yeojohnson(xs, est.lambda_rew)
            m = r["kept"]
            runs = [(v[a : a + m].mean(), v[a : a + m].std()) for a in range(n - m + 1)]
            err = min(abs(a - est.location_post) / b + abs(est.scale_post / b - 1) for a, b in runs)
            mon.ok(err < 1e-6, "standardisation is not mean and standard deviation of the observations with weight one", err=err, kept=m, n=n)
        mon.seen("definition")
        mon.state(method, std, case["fam"], sorted(kw), r["extended"])
        mon.note(method=method, n=n, lam=est.lambda_rew, **kw)
        return
    if kind == "first":
        # one step with few observations of weight one: the result shows the first estimate
        m = case["m"]
        n = int(rng.integers(20, 90))
        z = rng.standard_normal(n)
        out = rng.permutation(n)[: int(float(rng.choice([0, 0.1, 0.2])) * n)]
        if m == "boxcox":
            lam = float(rng.choice([-1.5, -0.5, 0.0, 1.5, 2.5, 3.5]))
            x = ref.boxcox_inv(np.clip(z, -2.8, 2.8) * 0.33 / max(1, abs(lam)), lam) * 10.0 ** rng.uniform(-2, 2)
            x[out] *= rng.uniform(0.05, 0.9, len(out)) if i % 2 else rng.uniform(1.1, 5, len(out))
        else:
            lam = float(rng.choice([-0.3, 0.0, 0.5, 1.5, 2.0, 2.3]))
            x = ref.yeojohnson_inv(np.clip(z, -2.5, 2.5), lam) * 10.0 ** rng.uniform(-2, 2) + rng.uniform(-1, 1)
            x[out] = x[out] + rng.choice([-1, 1]) * ref.mad(x) * rng.uniform(1, 6, len(out))
        mon.input(x)
        kw = dict(nsteps=1, quantile=float(rng.choice([0.5, 0.6, 0.7, 0.8])))
        r = judge(mon, T(method=m, **kw).fit(x.copy()), x, m, True, "lambda is not the one-step reweighted maximum likelihood estimate", **kw)
        mon.seen("one step")
        mon.seen("one step, left-skewed", r["raw"] > 1)
        mon.note(method=m, n=n, lam=r["lam"], raw=r["raw"])
        return
    if kind == "recover":
        m = case["m"]
        n = 300
        lam = float(rng.choice([0.0, 0.5, -0.5, 1.0, 0.25])) if m == "boxcox" else float(rng.choice([0.0, 0.5, 1.0, 1.5, 2.0, 0.75]))
        z = np.clip(rng.standard_normal(n), -3, 3)
        if m == "boxcox":
            s = 0.3 if lam else 0.6
            x = ref.boxcox_inv(z * s, lam) * 10.0 ** rng.uniform(-3, 3)
        else:
            bound = 1 / max(abs(min(lam, 2 - lam)), 1e-9)
            x = ref.yeojohnson_inv(z, lam)
        mon.input(x)
        std = m == "boxcox"
        clean = T(method=m, standardize=std).fit(x)
        sd = {"boxcox": 0.45 if lam else 0.15, "yeojohnson": 0.15}[m]
        mon.ok(abs(clean.lambda_rew - lam) < 4.5 * sd, "lambda of normal data through the inverse map", got=clean.lambda_rew, lam=lam, method=m)
        mon.seen("recovered")
        frac = float(rng.choice([0.05, 0.08, 0.1]))
        k = int(frac * n)
        y = x.copy()
        side = i % 2
        far = 10.0 ** rng.uniform(0.7, 3)
        if m == "boxcox":
            y[:k] = (np.max(x) * far if side else np.min(x) / far) * np.exp(0.05 * rng.standard_normal(k))
        else:
            y[:k] = (np.max(x) + far * 4 if side else np.min(x) - far * 4) * np.exp(0.05 * rng.standard_normal(k))
        mon.input(y)
        cont = T(method=m, standardize=std).fit(y)
        rest = T(method=m, standardize=std).fit(y[k:])
        mon.ok(abs(cont.lambda_rew - rest.lambda_rew) < 5 * sd, "outliers move lambda", got=cont.lambda_rew, rest=rest.lambda_rew, lam=lam, method=m, frac=frac, far=far, side=side)
        if std:
            out = np.abs(cont.transform(y[:k]))
            mon.note(outliers=float(np.min(out)))
        mon.seen("contaminated")
        mon.state(m, lam, side, frac)
        mon.note(method=m, lam=lam, clean=clean.lambda_rew, cont=cont.lambda_rew)
        return
    if kind == "invariant":
        m = case["m"]
        n = int(rng.integers(20, 120))
        x = sample(rng, FAMS[i % 6], n, m == "boxcox")
        if ref.mad(x) == 0:
            raise Skip("scale zero")
        mon.input(x)
        a = 10.0 ** rng.uniform(-4, 4)
        b = 0.0 if m == "boxcox" else float(rng.uniform(-5, 5)) * a * ref.mad(x)
        kw = {"quantile": 0.975} if i % 3 == 0 else {}
        e1, e2 = T(method=m, **kw).fit(x), T(method=m, **kw).fit(a * x + b)
        if abs(e1.lambda_rew - e2.lambda_rew) > 1e-3:
            judge(mon, e1, x, m, True, "lambda of rescaled data differs", **kw)
            judge(mon, e2, a * x + b, m, True, "lambda of rescaled data differs", **kw)
        else:
            t1, t2 = e1.transform(x), e2.transform(a * x + b)
            mon.ok(np.max(np.abs(t1 - t2) / (1 + np.abs(t1))) < 0.05, "transformed values of rescaled data differ", got=t2[:4], want=t1[:4])
        if m == "yeojohnson":
            e3 = T(method=m, **kw).fit(-x)
            if abs(e3.lambda_rew - (2 - e1.lambda_rew)) > 1e-3:
                judge(mon, e3, -x, m, True, "lambda of reflected data", **kw)
        mon.seen("invariant")
        mon.state(m, FAMS[i % 6], round(float(np.log10(a))))
        mon.note(lam=e1.lambda_rew, scaled=e2.lambda_rew, a=a, b=b)
        return
    if kind == "auto":
        n = int(rng.integers(20, 120))
        x = sample(rng, FAMS[i % 6], n, True)
        if i % 4 == 3:
            x = x + rng.uniform(0.5, 5) * np.median(x)
        if ref.mad(x) == 0:
            raise Skip("scale zero")
        mon.input(x)
        std = bool(i % 5)
        if not std:
            x = np.clip(x / np.median(x), 1e-3, 1e3)
        auto = T(method="auto", standardize=std).fit(x.copy())
        both = {m: T(method=m, standardize=std).fit(x.copy()) for m in ("boxcox", "yeojohnson")}
        crit = {}
        for m, e in both.items():
            xs = np.sort(x)
            if std:
                xs = xs / np.median(xs) if m == "boxcox" else (xs - np.median(xs)) / ref.mad(xs)
            crit[m] = ref.normality(ref.boxcox(xs, e.lambda_rew) if m == "boxcox" else ref.yeojohnson(xs, e.lambda_rew))
        if abs(crit["boxcox"] - crit["yeojohnson"]) < 1e-6 * (1 + crit["boxcox"]):
            raise Skip("equal objectives")
        best = min(crit, key=crit.get)
        t = auto.transform(x)
        other = [m for m in both if m != best][0]
        mon.close(t, both[best].transform(x), "auto does not take the method with the lower objective", rtol=1e-6, atol=1e-6 * np.ptp(t), crit=crit, other=float(np.max(np.abs(t - both[other].transform(x)))))
        mon.close(auto.inverse_transform(t[:0] if False else t), both[best].inverse_transform(t), "auto: inverse", rtol=1e-6)
        mon.seen("auto")
        mon.state(best, std, FAMS[i % 6])
        mon.note(crit=crit)
        return
    # lambda outside the search range
    m = case["m"]
    n = int(rng.integers(60, 150))
    z = np.clip(rng.standard_normal(n), -2.5, 2.5)
    if m == "boxcox":
        lam = float(rng.choice([-1.0, 1.5, -2.0]))
        x = ref.boxcox_inv(z * 0.12, lam)
        lr = (0.3, 1.2) if i % 2 else (0.0, 2.0)
    else:
        lam = float(rng.choice([0.0, 2.0, 1.7, 0.3]))
        x = ref.yeojohnson_inv(z * (1.0 if 0 < lam < 2 else 0.8), lam)
        lr = (0.6, 1.4) if i % 2 else (0.8, 1.1)
    mon.input(x)
    std = bool((i // 2) % 2)
    est = T(method=m, standardize=std, lambda_range=lr).fit(x)
    r = judge(mon, est, x, m, std, "lambda with a short search range", lambda_range=lr)
    mon.ok(est.lambda_range == lr, "the search range given was changed")
    mon.seen("extended", r["extended"])
    mon.state(m, std, lr, r["extended"])
    mon.note(lam=lam, got=est.lambda_rew, extended=r["extended"])
