"""C06: FastMCD and DetMCD minimise the determinant, resist planted outliers, and are affinely equivariant."""
from itertools import combinations

import numpy as np

from rv import gen, ref

RULE = (
    "three kinds of cases: small data sets where every h-subset is enumerated (global optimum known), data with up to 40% planted "
    "far outliers (the clean observations are known), two overlapping groups of about 1000 observations in different units, 1, 3 and all candidates followed from the same starts, and affine images of a data set; non-trivial: the optimum, the clean "
    "estimate or the transformed estimate was compared"
)
ASSUME = ["the random starts of FastMCD reach the global optimum of tiny data sets within a factor 1.2 (measured: 1.0 on 2000)"]
REQUIRE = {"blocks": 9, "enumerated": 10, "planted": 20, "affine": 20, "one variable": 10, "mixture": 6, "candidates": 20, "more candidates helped": 3}


def cases(tier):
    q = tier == "quick"
    out = [{"kind": "enumerate", "i": r} for r in range(16 if q else 120)]
    out += [{"kind": "starts", "i": r} for r in range(36 if q else 300)]
    out += [{"kind": "planted", "i": r, "est": e} for e in ("FastMCD", "DetMCD") for r in range(20 if q else 160)]
    out += [{"kind": "one", "i": r} for r in range(12 if q else 150)]
    out += [{"kind": "affine", "i": r, "est": e} for e in ("FastMCD", "DetMCD") for r in range(14 if q else 100)]
    out += [{"kind": "mixture", "i": r} for r in range(8 if q else 60)]
    out += [{"kind": "candidates", "i": r} for r in range(24 if q else 200)]
    out += [{"kind": "blocks", "i": r} for r in range(9 if q else 90)]
    out += [{"kind": "planted_large", "i": r, "est": e} for e in ("FastMCD", "DetMCD") for r in range(1 if q else 6)]
    return out


def run(case, mon):
    from robpy.covariance import DetMCD, FastMCD

    rng = mon.rng
    seed = int(rng.integers(1 << 30))
    if case["kind"] == "candidates":
        p = int(rng.integers(2, 5))
        X = np.vstack([rng.standard_normal((20, p)) * rng.uniform(0.5, 1.5, p) + rng.uniform(-3, 3, p) for _ in range(3)])
        mon.input(X)
        kw = dict(alpha=float(rng.choice([0.5, 0.6])), n_initial_subsets=12, n_initial_c_steps=int(case["i"] % 2) + 1, random_seed=seed, reweighting=False, correct_covariance=False)
        dets = [np.linalg.det(FastMCD(n_best_subsets=k, **kw).fit(X).covariance_) for k in (1, 3, 12)]
        mon.ok(dets[2] <= dets[1] * (1 + 1e-9) and dets[1] <= dets[0] * (1 + 1e-9), "following more candidates ends in a higher determinant", dets=dets)
        mon.seen("candidates")
        mon.seen("more candidates helped", dets[2] < dets[0] * (1 - 1e-6))
        mon.note(dets=dets)
        return
    if case["kind"] == "enumerate":
        p = 2 if case["i"] % 4 else 1
        n = int(rng.integers(9, 14))
        X = gen.multi(rng, ["gauss", "t3", "cluster"][case["i"] % 3], n, p, eps=0.3)
        mon.input(X)
        h = int(rng.choice([int((n + p + 1) / 2), n - 2]))
        best, who = np.inf, None
        for c in combinations(range(n), h):
            d = np.linalg.det(ref.cov_of(X[list(c)]))
            if d < best:
                best, who = d, c
        est = FastMCD(alpha=h, random_seed=seed, reweighting=False, correct_covariance=False, tolerance=1e-12 * best).fit(X)
        got = np.linalg.det(est.covariance_)
        mon.ok(got <= 1.2 * best, "FastMCD is far from the global optimum", got=got, best=best, n=n, h=h)
        mon.ok(got >= best * (1 - 1e-9), "determinant below the optimum over all h-subsets", got=got, best=best)
        det = DetMCD(alpha=h, reweighting=False, correct_covariance=False, tolerance=1e-12 * best).fit(X)
        got = np.linalg.det(det.covariance_)
        mon.ok(got >= best * (1 - 1e-9), "DetMCD determinant below the optimum over all h-subsets", got=got, best=best)
        mon.seen("enumerated")
        mon.note(n=n, h=h, best=best, fast=float(np.linalg.det(est.covariance_)), det=float(got))
        return
    if case["kind"] == "blocks":  # the partitions are searched apart: some hold outliers only
        p = int(rng.integers(1, 6))
        parts = int(rng.integers(2, 6))
        given = case["i"] % 3 > 0
        n = int(rng.integers(40 * parts, 60 * parts)) if given else int(rng.integers(601, 800))
        k = int(rng.uniform(0.2, 0.42) * n)
        at = (n - k, 0, int(rng.integers(n - k)))[case["i"] // 3 % 3]
        X = rng.standard_normal((n, p)) @ np.linalg.cholesky(gen.corr_matrix(rng, p)).T
        out = np.arange(at, at + k)
        X[out] = float(rng.choice([1e4, 1e5, 1e6])) * gen.unit(rng, p) + rng.uniform(0.01, 1) * rng.standard_normal((k, p))
        mon.input(X)
        est = FastMCD(random_seed=seed, **({"n_partitions": parts} if given else {})).fit(X)
        clean = np.delete(X, out, axis=0)
        m, S = clean.mean(axis=0), ref.cov_of(clean)
        mon.ok(ref.mahal2(est.location_[None], m, S)[0] < 1.0, "a block of outliers was taken for the data", location=est.location_, clean=m, n=n, first=at, outliers=k, partitions=parts if given else None)
        ev = np.linalg.eigvals(np.linalg.solve(S, est.covariance_)).real
        mon.ok(0.2 < ev.min() and ev.max() < 4.0, "a block of outliers changed the covariance", ratio=ev, n=n, p=p, k=k)
        mon.seen("blocks")
        mon.note(n=n, p=p, first=at, outliers=k)
        return
    if case["kind"] == "one":  # the optimum of a single variable is a contiguous subset
        n = int(rng.integers(15, 120))
        x = gen.uni(rng, ("normal", "t2", "lognormal", "contaminated", "two_scales", "uniform")[case["i"] % 6], n)
        mon.input(x)
        h = int(rng.integers((n + 2) // 2, int(0.9 * n)))
        best = ref.uni_mcd_candidates(x, h)[0].min() * h / (h - 1)
        raw = dict(alpha=h, reweighting=False, correct_covariance=False, tolerance=1e-12 * best)
        got = float(FastMCD(random_seed=seed, **raw).fit(x[:, None]).covariance_[0, 0])
        mon.ok(best * (1 - 1e-9) <= got <= best * 1.01, "FastMCD of one variable is not the exact MCD", got=got, best=best, n=n, h=h)
        det = float(DetMCD(**raw).fit(x[:, None]).covariance_[0, 0])
        mon.ok(best * (1 - 1e-9) <= det, "DetMCD below the optimum", got=det, best=best, n=n, h=h)
        mon.seen("one variable")
        mon.note(n=n, h=h, best=best, fast=got, det=det)
        return
    if case["kind"] == "starts":
        p = int(rng.integers(1, 6))
        n = int(rng.integers(max(10, 5 * p), max(20, 14 * p))) if case["i"] % 12 else int(rng.integers(1000, 1050))
        X = gen.multi(rng, ["gauss", "t3", "lognormal", "scatter_out", "cluster"][case["i"] % 5], n, p, eps=0.3)
        mon.input(X)
        h = int(rng.integers(int((n + p + 1) / 2), int(0.9 * n)))
        raw = dict(alpha=h, reweighting=False, correct_covariance=False)
        ends = [ref.c_steps(X, idx, h)[1] for idx in ref.detmcd_starts(X)]
        tiny = 1e-9 * min(ends)  # not relative to the classical determinant, which the outliers inflate
        got = np.linalg.det(DetMCD(tolerance=tiny, **raw).fit(X).covariance_)
        mon.ok(got <= min(ends) * (1 + 1e-4), "DetMCD missed the best of its six starts", got=got, starts=ends, n=n, p=p, h=h)
        mon.seen("six starts")
        mon.seen("starts that end in different subsets", len({f"{e:.6g}" for e in ends}))
        if n < 1000:
            # 30 plain random starts with full concentration are no match for 500
            ends = []
            for _ in range(30):
                k = p + 1
                s = rng.permutation(n)
                while np.linalg.matrix_rank(ref.cov_of(X[s[:k]])) < p:
                    k += 1
                ends.append(ref.c_steps(X, s[:k], h)[1])
            got = np.linalg.det(FastMCD(tolerance=tiny, random_seed=seed, **raw).fit(X).covariance_)
            mon.ok(got <= min(ends) * 1.1, "FastMCD is worse than a few random starts", got=got, starts=min(ends), n=n, p=p, h=h)
            mon.note(fast=got / min(ends))
            mon.seen("random starts")
        return
    if case["kind"].startswith("planted"):
        p = int(rng.integers(1, 6))
        n = int(rng.integers(max(30, 20 * p), max(45, 30 * p))) if case["kind"] == "planted" else int(rng.integers(650, 900))
        eps = float(rng.uniform(0.05, 0.4 if case["est"] == "FastMCD" else 0.3))
        if case["kind"] == "planted_large":
            eps = min(eps, 0.3)
        k = int(eps * n)
        Z = rng.standard_normal((n, p)) @ np.linalg.cholesky(gen.corr_matrix(rng, p)).T
        out = np.sort(rng.choice(n, k, replace=False)) if case["i"] % 2 else np.arange(n - k, n)
        dist = float(rng.choice([30, 300, 1e5]))
        style = case["i"] % 3
        if style == 0:
            Z[out] = dist * gen.unit(rng, p) + rng.standard_normal((k, p)) * 0.5
        elif style == 1:
            Z[out] = dist * rng.standard_normal((k, p)) + dist * 3 if p > 1 else dist * (2 + np.abs(rng.standard_normal((k, p)))) * rng.choice([-1, 1], (k, 1))
        else:
            Z[out, 0] = Z[out, 0] + dist * (1 + rng.random(k))
        X = Z * 10 ** rng.uniform(-2, 2) + 10 * rng.standard_normal(p)
        mon.input(X)
        clean = np.setdiff1d(np.arange(n), out)
        est = FastMCD(random_seed=seed).fit(X) if case["est"] == "FastMCD" else DetMCD().fit(X)
        mon.ok(
            not set(np.asarray(est.best_subset.indices).tolist()) & set(out.tolist()), "the subset contains planted outliers",
            n=n, p=p, k=k, dist=dist, style=style,
        )
        m, S = X[clean].mean(axis=0), ref.cov_of(X[clean])
        mon.ok(ref.mahal2(est.location_[None], m, S)[0] < 1.0, "location is not that of the clean data", location=est.location_, clean=m)
        ev = np.linalg.eigvals(np.linalg.solve(S, est.covariance_)).real
        mon.ok(0.2 < ev.min() and ev.max() < 4.0, "covariance is not that of the clean data", ratio=ev, n=n, p=p, k=k)
        d2 = ref.mahal2(X, est.location_, est.covariance_)
        mon.ok(d2[out].min() > chi2_cut(p), "an outlier is not outlying", smallest=d2[out].min())
        mon.seen("planted")
        mon.state(case["est"], style, p, k)
        mon.note(n=n, p=p, outliers=k, ratio=ev)
        return
    if case["kind"] == "mixture":  # two groups: the starts matter; above and below the sample size that changes the scales
        p = int(rng.integers(2, 6))
        n = int(rng.integers(1000, 1060)) if case["i"] % 4 else int(rng.integers(900, 1000))
        A = rng.standard_normal((p, p))
        k = int(rng.uniform(0.36, 0.44) * n)
        X = rng.standard_normal((n, p)) @ A
        X[:k] = rng.uniform(0.1, 1) * rng.standard_normal((k, p)) @ A + rng.uniform(2, 6, p) @ A
        mon.input(X)
        h = int((n + p + 1) / 2)
        tiny = 1e-9 * np.linalg.det(ref.cov_of(X[k:]))
        e1 = DetMCD(tolerance=tiny).fit(X)
        ends = [ref.c_steps(X, idx, h)[1] for idx in ref.detmcd_starts(X)]
        got = np.linalg.det(ref.cov_of(X[np.asarray(e1.best_subset.indices)]))
        mon.ok(got <= min(ends) * (1 + 1e-4), "DetMCD missed the best of its six starts", got=got, starts=ends, n=n, p=p)
        a = 10.0 ** rng.uniform(-5, 5, p)
        e2 = DetMCD(tolerance=tiny * np.prod(a) ** 2).fit(X * a)
        sd = np.sqrt(np.diag(e1.covariance_))
        mon.close(e2.location_ / a / sd, e1.location_ / sd, "DetMCD depends on the units", rtol=1e-6, atol=1e-6, n=n, p=p)
        mon.close(e2.covariance_ / np.outer(a * sd, a * sd), e1.covariance_ / np.outer(sd, sd), "DetMCD depends on the units", rtol=1e-6, atol=1e-6)
        mon.seen("mixture")
        mon.seen("starts that end in different subsets", len({f"{e:.6g}" for e in ends}))
        mon.note(n=n, p=p, starts=ends)
        return
    # affine equivariance
    p = int(rng.integers(1, 5))
    n = int(rng.integers(40, 90))
    X = gen.multi(rng, ["gauss", "t3", "cluster", "scatter_out"][case["i"] % 4], n, p)
    mon.input(X)
    b = rng.uniform(-5, 5, p)
    if case["est"] == "FastMCD":
        A = gen.nonsingular(rng, p)
        make = lambda t: FastMCD(random_seed=seed, tolerance=t, n_initial_subsets=100)  # noqa: E731
    else:  # location, scale and permutation of the columns
        A = np.diag(10 ** rng.uniform(-2, 2, p) * rng.choice([-1, 1], p))[rng.permutation(p)]
        make = lambda t: DetMCD(tolerance=t)  # noqa: E731
    Y = X @ A.T + b
    t = 1e-10 * np.linalg.det(ref.cov_of(X[np.argsort(np.linalg.norm((X - np.median(X, axis=0)) / ref.mad(X), axis=1))[: n // 2]]))
    e1, e2 = make(t).fit(X), make(t * np.linalg.det(A) ** 2).fit(Y)
    wl, wc = A @ e1.location_ + b, A @ e1.covariance_ @ A.T
    s = np.sqrt(np.diag(wc))
    mon.close(e2.location_ / s, wl / s, case["est"] + " location of transformed data", rtol=1e-6, atol=1e-6)
    mon.close(e2.covariance_ / np.outer(s, s), wc / np.outer(s, s), case["est"] + " covariance of transformed data", rtol=1e-6, atol=1e-6)
    mon.seen("affine")
    mon.note(n=n, p=p)


def chi2_cut(p):
    from scipy.stats import chi2

    return chi2.ppf(0.975, p)
