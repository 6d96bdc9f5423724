"""C08: wrapping transformation, wrapping covariance and Kendall covariance follow their definitions."""
import numpy as np

from rv import gen, ref

RULE = (
    "data set x configuration per case: 9 families (with ties, constant columns), p 1..6, n 10..120, wrapping constants, rescaling "
    "on/off, custom location and scale functions; non-trivial: transformed data, correlation and covariance were compared with "
    "an independent implementation (Kendall: all pairs counted)"
)
ASSUME = ["an observation within 1e-9 of a corner point of the wrapping function may go either way"]
CHUNK = 4
REQUIRE = {"kendall": 50, "wrapping": 50, "column without scale": 5, "ties": 5}


def cases(tier):
    reps = 12 if tier == "quick" else 150
    return [{"kind": f, "i": r} for f in (*gen.MULTI, "zero_scale") for r in range(reps)]


def tau_b(x, y):
    a = np.sign(x[:, None] - x[None, :])
    b = np.sign(y[:, None] - y[None, :])
    return np.sum(a * b) / np.sqrt(np.sum(a * a) * np.sum(b * b))


def wrap(X, loc, scale, b, c, q1, q2, rescale):
    sc = np.where(scale == 0, 1, scale)
    z = ref.wrap_psi((X - loc) / sc, b, c, q1, q2)
    if not rescale:
        return z * scale + loc
    sd = z.std(axis=0)
    sd = np.where(sd == 0, 1, sd)
    return (z - z.mean(axis=0)) / sd * scale + loc


def run(case, mon):
    from robpy.covariance import KendallTau, WrappingCovariance
    from robpy.preprocessing.utils import wrapping_transformation

    rng = mon.rng
    p, n = int(rng.integers(1, 7)), int(rng.integers(10, 120))
    fam = case["kind"]
    X = gen.multi(rng, "gauss" if fam == "zero_scale" else fam, n, p)
    if fam == "zero_scale":  # the majority of a column coincides
        X[: n // 2 + 2, 0] = 1.5
        X = X[rng.permutation(n)]
        mon.seen("column without scale")
    if fam == "rounded":
        mon.seen("ties")
    mon.input(X)
    med, mad = np.median(X, axis=0), ref.mad(X, normal=False)
    b = 1.5 if case["i"] % 2 == 0 else float(rng.uniform(1, 2))
    c = 4.0 if case["i"] % 2 == 0 else float(rng.uniform(3, 6))
    q1, q2 = (1.540793, 0.8622731) if case["i"] % 2 == 0 else (float(rng.uniform(1, 2)), float(rng.uniform(0.5, 1)))
    kw = {} if case["i"] % 2 == 0 else {"b": b, "c": c, "q1": q1, "q2": q2}
    z = np.abs((X - med) / np.where(mad == 0, 1, mad))
    edge = np.min(np.abs(z - b)) < 1e-9 or np.min(np.abs(z - c)) < 1e-9
    mon.state(fam, p, edge, bool(kw))
    if not edge:
        s = np.where(mad == 0, 1, mad)
        for rescale in (True, False):
            got = wrapping_transformation(X.copy(), rescale=rescale, **kw)
            want = wrap(X, med, mad, b, c, q1, q2, rescale)
            mon.close((got - med) / s, (want - med) / s, f"wrapping_transformation(rescale={rescale})", rtol=1e-7, atol=1e-7)
        mon.seen("wrapping")
        if fam != "zero_scale":
            W = wrap(X, med, mad, b, c, q1, q2, True)
            est = WrappingCovariance(**kw).fit(X.copy())
            C = ref.cov_of(W)
            mon.close(est.covariance_ / np.outer(s, s), C / np.outer(s, s), "WrappingCovariance covariance", rtol=1e-7, atol=1e-7)
            d = np.sqrt(np.diag(C))
            mon.close(est.correlation, C / np.outer(d, d), "WrappingCovariance correlation", rtol=1e-7, atol=1e-7)
    # other location and scale functions
    mean, sd = X.mean(axis=0), X.std(axis=0)
    z = np.abs((X - mean) / sd)
    if not (np.min(np.abs(z - b)) < 1e-9 or np.min(np.abs(z - c)) < 1e-9):
        got = wrapping_transformation(X, location_estimator=np.mean, scale_estimator=np.std, rescale=bool(case["i"] % 3), **kw)
        want = wrap(X, mean, sd, b, c, q1, q2, bool(case["i"] % 3))
        mon.close((got - mean) / sd, (want - mean) / sd, "wrapping_transformation with own functions", rtol=1e-7, atol=1e-7)
    # Kendall
    if fam != "zero_scale":
        R = np.array([[tau_b(X[:, j], X[:, k]) for k in range(p)] for j in range(p)])
        q = np.array([ref.qn_raw(X[:, j]) * ref.qn_factor(n) for j in range(p)])
        if np.all(q > 1e-12 * np.abs(X).max()):
            try:
                est = KendallTau().fit(X)
            except np.linalg.LinAlgError:  # not invertible: distances are not defined
                if np.linalg.cond(R) > 1e8:
                    mon.seen("kendall singular")
                    return
                raise
            mon.close(est.correlation, R, "KendallTau correlation", rtol=1e-9, atol=1e-9)
            mon.close(est.covariance_ / np.outer(q, q), R, "KendallTau covariance", rtol=1e-8, atol=1e-8)
            mon.seen("kendall")
            mon.note(n=n, p=p, kendall=R[0])
