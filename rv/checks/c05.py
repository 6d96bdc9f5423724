"""C05: the output of FastMCD and DetMCD is coherent: converged h-subset, consistency factor, reweighting."""
import warnings

import numpy as np
from scipy.stats import chi2

from rv import gen, ref

RULE = (
    "data set x estimator configuration per case: 9 families, p 2..5, n 25..140 and n 620..900 (partitions), subset sizes "
    "(default, integer, float, all), partitions, correction and reweighting on/off; non-trivial: the reported subset, a further "
    "C-step on it, and the final estimates were recomputed from the data"
)
ASSUME = [
    "a C-step may still lower the determinant by less than the documented tolerance",
    "an observation within 1e-7 relative of the reweighting cutoff may go either way",
]
REQUIRE = {"fixed point checked": 30, "reweighting recomputed": 20, "several partitions": 3, "classical": 4}


def cases(tier):
    reps = 2 if tier == "quick" else 16
    out = []
    for est in ("FastMCD", "DetMCD"):
        for f in gen.MULTI:
            for r in range(reps):
                out.append({"kind": "fit", "est": est, "fam": f, "i": r})
        for r in range(2 if tier == "quick" else 6):
            out.append({"kind": "classical", "est": est, "i": r})
            out.append({"kind": "invalid", "est": est, "i": r})
    for r in range(3 if tier == "quick" else 12):
        out.append({"kind": "partitions", "est": "FastMCD", "fam": gen.MULTI[r % 6], "i": r})
    for r in range(1 if tier == "quick" else 4):
        out.append({"kind": "large", "est": "FastMCD", "fam": "cluster", "i": r})
        out.append({"kind": "large", "est": "DetMCD", "fam": "t3", "i": r})
    return out


def postprocess(X, loc, cov, correct, reweight):
    """(location, covariance, margin) that follow from a raw subset estimate."""
    p = X.shape[1]
    raw = cov
    if correct:
        raw = cov * np.median(ref.mahal2(X, loc, cov)) / chi2.ppf(0.5, p)
    if not reweight:
        return loc, raw, np.inf
    d2 = ref.mahal2(X, loc, raw)
    cut = chi2.ppf(0.975, p)
    m = d2 < cut
    out = ref.cov_of(X[m])
    if correct:
        out = out * ref.reweight_factor(p)
    return X[m].mean(axis=0), out, np.min(np.abs(d2 / cut - 1))


def judge(mon, est, X, h, tol, correct, reweight, name):
    n, p = X.shape
    bs = est.best_subset
    idx = np.asarray(bs.indices)
    mon.ok(len(idx) == h and len(set(idx.tolist())) == h, name + ": size of the subset", size=len(idx), h=h)
    mon.ok(idx.min() >= 0 and idx.max() < n, name + ": subset indices", idx=idx)
    loc, cov = X[idx].mean(axis=0), ref.cov_of(X[idx])
    sc = np.sqrt(np.diag(cov))
    mon.close(bs.location, loc, name + ": subset mean", rtol=1e-9, atol=1e-9 * sc.max())
    mon.close(bs.scale / np.outer(sc, sc), cov / np.outer(sc, sc), name + ": subset covariance", rtol=1e-7, atol=1e-9)
    det = np.linalg.det(cov)
    mon.close(bs.determinant, det, name + ": subset determinant", rtol=1e-6)
    # one more C-step
    d2 = ref.mahal2(X, loc, cov)
    new = np.argsort(d2, kind="stable")[:h]
    det_new = np.linalg.det(ref.cov_of(X[new]))
    mon.ok(det - det_new <= tol * 1.000001 + 1e-7 * det, name + ": a C-step still lowers the determinant", det=det, after=det_new)
    mon.seen("fixed point checked")
    wl, wc, margin = postprocess(X, loc, cov, correct, reweight)
    if margin > 1e-7:
        s = np.sqrt(np.diag(wc))
        mon.close(est.location_ / s, wl / s, name + ": location", rtol=1e-8, atol=1e-8)
        mon.close(est.covariance_ / np.outer(s, s), wc / np.outer(s, s), name + ": covariance", rtol=1e-7, atol=1e-8)
        if reweight:
            mon.seen("reweighting recomputed")
    mon.state(name, h, correct, reweight, p)


def run(case, mon):
    from robpy.covariance import DetMCD, FastMCD

    rng = mon.rng
    fast = case["est"] == "FastMCD"
    p = int(rng.integers(1, 6))
    n = int(rng.integers(max(25, 8 * p), 140))
    kw = {}
    if case["kind"] == "large":
        n = int(rng.integers(620, 900)) if fast else int(rng.integers(1000, 1100))
    X = gen.multi(rng, case.get("fam", "gauss"), n, p)
    if case.get("fam") == "rounded":
        X = X + 1e-6 * rng.standard_normal(X.shape)
    mon.input(X)
    mon.note(n=n, p=p)

    if case["kind"] == "classical":
        for alpha in (1, 1.0, n):
            est = (FastMCD if fast else DetMCD)(alpha=alpha).fit(X)
            mon.close(est.location_, X.mean(axis=0), f"alpha={alpha}: classical mean", rtol=1e-9, atol=1e-12)
            mon.close(est.covariance_, ref.cov_of(X), f"alpha={alpha}: classical covariance", rtol=1e-9, atol=1e-12)
            mon.seen("classical")
        return
    if case["kind"] == "invalid":
        for bad in (0.3, 1.2, -1, n + 1, n // 2 - 1, "half"):
            kw = {"n_initial_subsets": 5} if fast else {}
            mon.raises(ValueError, lambda: (FastMCD if fast else DetMCD)(alpha=bad, **kw).fit(X), f"alpha={bad!r} must be rejected")
        return

    hmin = int((n + p + 1) / 2)
    if case["kind"] == "partitions":
        kw["n_partitions"] = int(rng.integers(2, 5))
        mon.seen("several partitions")
        n = 60 * kw["n_partitions"]
        X = gen.multi(rng, case["fam"], n, p)
        hmin = int((n + p + 1) / 2)
        alphas = [None, int(rng.integers(hmin, n)), round(float(rng.uniform(0.55, 0.95)), 2)]
    elif case["kind"] == "large":
        if fast:
            mon.seen("several partitions")
        alphas = [None, 0.75]
    else:
        alphas = [None, int(rng.integers(hmin, n)), round(float(rng.uniform(0.5, 0.97)), 2), int(np.ceil(n / 2))]
    X0 = X.copy()
    for k, alpha in enumerate(alphas):
        correct, reweight = [(True, True), (True, False), (False, True), (False, False)][(k + case["i"]) % 4]
        # the tolerance is absolute; make it negligible or visible relative to the determinant of this data
        tol = float(rng.choice([1e-8, 1e-12 * np.linalg.det(ref.cov_of(X))]))
        h = ref.mcd_h(n, p, alpha)
        name = f"{case['est']}(alpha={alpha},corr={correct},rew={reweight},tol={tol:.2g},{kw}) n={n} p={p}"
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            if fast:
                est = FastMCD(
                    alpha=alpha, correct_covariance=correct, reweighting=reweight, tolerance=tol,
                    random_seed=int(rng.integers(1 << 30)), n_initial_subsets=int(rng.choice([30, 100])),
                    n_best_subsets=int(rng.choice([3, 10])), n_initial_c_steps=int(rng.choice([1, 2])), **kw,
                ).fit(X)
            else:
                est = DetMCD(alpha=alpha, correct_covariance=correct, reweighting=reweight, tolerance=tol).fit(X)
        if alpha is not None and h == hmin and (alpha if isinstance(alpha, int) else int(alpha * n)) < hmin:
            mon.ok(any("too small" in str(i.message) for i in w), name + ": no warning that h was raised")
            mon.seen("h raised with a warning")
        judge(mon, est, X, h, tol, correct, reweight, name)
    mon.same(X, X0, "fit changed its input")
