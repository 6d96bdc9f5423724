"""C07: the OGK estimator follows its definition for every configuration."""
import numpy as np
from scipy.stats import chi2

from rv import gen, ref
from rv.core import Skip

RULE = (
    "data set x configuration per case: 8 families, p 1..7, n 20..150, iterations 1..4, three location and three scale functions, "
    "reweighting with several quantiles; non-trivial: location and covariance were compared with an independent implementation"
)
ASSUME = ["an observation within 1e-7 relative of the reweighting cutoff may go either way"]
REQUIRE = {"reweighted": 10, "raw": 20}
CHUNK = 4


def cases(tier):
    return [{"kind": f, "i": r} for f in gen.MULTI if f != "rounded" for r in range(14 if tier == "quick" else 150)]


def std_axis(x, axis=0):
    return np.std(x, axis=axis)


def iqr_axis(x, axis=0):
    return np.subtract(*np.percentile(x, [75, 25], axis=axis))


def mad_axis(x, axis=0):
    x = np.asarray(x)
    return np.median(np.abs(x - np.median(x, axis=axis, keepdims=True)), axis=axis)


def mean_axis(x, axis=0):
    return np.mean(x, axis=axis)


def run(case, mon):
    from robpy.covariance import OGK
    from scipy.stats import median_abs_deviation

    rng = mon.rng
    p, n = int(rng.integers(1, 8)), int(rng.integers(20, 150))
    X = gen.multi(rng, case["kind"], n, p)
    mon.input(X)
    loc = [np.median, mean_axis][int(rng.integers(2))]
    k = int(rng.integers(3))
    scale, rscale = [(median_abs_deviation, mad_axis), (std_axis, std_axis), (iqr_axis, iqr_axis)][k]
    iters = 1 if k == 1 else int(rng.integers(1, 5))  # a second step after exact principal components is arbitrary
    kw = {} if case["i"] % 4 == 0 else {"location_estimator": loc, "scale_estimator": scale, "n_iterations": iters}
    if not kw:
        loc, rscale, iters = np.median, mad_axis, 2
    wl, wc = ref.ogk_cov(X, rscale, iters, loc)
    est = OGK(**kw).fit(X.copy())
    s = np.sqrt(np.diag(wc))
    # nearly equal eigenvalues amplify rounding errors
    noise = 1e-7
    for _ in range(2):
        pl, pc = ref.ogk_cov(X + 1e-16 * np.abs(X).max(axis=0) * rng.standard_normal(X.shape), rscale, iters, loc)
        noise = max(noise, 30 * np.max(np.abs(pc - wc) / np.outer(s, s)), 30 * np.max(np.abs(pl - wl) / s))
    if noise > 1e-4:
        raise Skip("decided by rounding errors")
    name = f"OGK(iterations={iters}, loc={loc.__name__}, scale={rscale.__name__})"
    mon.close(est.location_ / s, wl / s, name + " location", rtol=1e-6, atol=noise)
    mon.close(est.covariance_ / np.outer(s, s), wc / np.outer(s, s), name + " covariance", rtol=1e-6, atol=noise)
    mon.ok(np.linalg.eigvalsh(est.covariance_ / np.outer(s, s)).min() > -1e-9, name + " is not positive semi-definite")
    mon.seen("raw")
    mon.state(case["kind"], iters, loc.__name__, rscale.__name__, p)
    mon.note(n=n, p=p, config=name)
    for beta in (None, float(rng.choice([0.5, 0.75, 0.9, 0.975, 0.99]))):
        d2 = ref.mahal2(X, wl, wc)
        b = 0.9 if beta is None else beta
        cut = chi2.ppf(b, p) / chi2.ppf(0.5, p) * np.median(np.sqrt(d2)) ** 2
        keep = d2 < cut
        if np.min(np.abs(d2 / cut - 1)) < 1e-7 or keep.sum() < 2 * p + 1:
            continue
        rw = OGK(reweighting=True, **({} if beta is None else {"reweighting_beta": beta}), **kw).fit(X)
        c = ref.cov_of(X[keep])
        s = np.sqrt(np.diag(c))
        mon.close(rw.location_ / s, X[keep].mean(axis=0) / s, name + f" reweighted({b}) location", rtol=1e-6, atol=noise)
        mon.close(rw.covariance_ / np.outer(s, s), c / np.outer(s, s), name + f" reweighted({b}) covariance", rtol=1e-6, atol=noise)
        mon.seen("reweighted")
