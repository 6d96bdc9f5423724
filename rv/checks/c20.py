"""C20: robust PCA is equivariant, recovers the subspace of the regular data, and the map separates the outliers."""
import numpy as np

from rv import gen

RULE = (
    "'equi': the same data rotated, reflected, scaled, shifted (and reordered, doubled for spherical PCA); 'attack': low-rank data with up to "
    "40% orthogonal, clustered, score or point-mass outliers; 'consistent': eigenvalues on normal data. Non-trivial: two executions were "
    "compared or the fit was judged against the truth"
)
ASSUME = [
    "when ROBPCA is scaled down, only its subspace, orthogonal distances and total variance are judged: the determinant tolerance of its final MCD is absolute",
    "outliers have regular or outlying scores: the final MCD of the published algorithm also sees the scores of orthogonal outliers",
    "spherical PCA is judged for at most 15% outliers, since its components depend on the share of outliers per direction",
]
REQUIRE = {"rotated": 20, "shifted": 20, "attack": 40, "orthogonal outliers": 200, "consistent": 8, "small units": 8}


def cases(tier):
    q = tier == "quick"
    return (
        [{"kind": "equi", "est": e, "i": r} for e in ("robpca", "spca") for r in range(16 if q else 120)]
        + [{"kind": "attack", "est": e, "i": r} for e in ("robpca", "spca") for r in range(32 if q else 250)]
        + [{"kind": "consistent", "est": e, "i": r} for e in ("robpca", "spca") for r in range(6 if q else 40)]
    )


def make(name, k, seed, alpha=0.75, final=True):
    from robpy.pca import PCALocantore, ROBPCA

    if name == "spca":
        return PCALocantore(n_components=k)
    return ROBPCA(n_components=k, alpha=alpha, final_MCD_step=final, random_seed=seed, verbosity=50)


def angle(A, B):
    """Largest principal angle between the column spaces."""
    s = np.linalg.svd(A.T @ B, compute_uv=False)
    return float(np.arccos(np.clip(np.min(s), -1, 1)))


def regular(rng, n, p, k, noise):
    Q, _ = np.linalg.qr(rng.standard_normal((p, p)))
    lam = np.sort(rng.uniform(1.5, 9, k))[::-1] * (1 + 0.6 * np.arange(k)[::-1])
    T = rng.standard_normal((n, k)) * np.sqrt(lam)
    mu = rng.uniform(-10, 10, p)
    return mu + T @ Q[:, :k].T + noise * rng.standard_normal((n, p)), Q, lam, mu


def distances(est, X):
    import matplotlib.pyplot as plt

    r = est.plot_outlier_map(X, return_distances=True)
    plt.close("all")
    return r


def run(case, mon):
    rng, i = mon.rng, case["i"]
    name = case["est"]
    seed = int(rng.integers(10000))
    k = int(rng.integers(1, 4))
    p = int(rng.integers(k + 2, 11))
    if case["kind"] == "consistent":
        n = int(rng.integers(350, 500))
        X, Q, lam, mu = regular(rng, n, p, k, 0.3)
        mon.input(X)
        est = make(name, k, seed, alpha=float(rng.choice([0.5, 0.75, 0.95])), final=bool(i % 2)).fit(X)
        ev = np.asarray(est.explained_variance_)
        want = lam + 0.09
        mon.ok(0.5 < ev.sum() / want.sum() < 1.8, "total explained variance of normal data", got=ev, want=want)
        mon.ok(angle(est.components_, Q[:, :k]) < 0.15, "subspace of normal data", angle=angle(est.components_, Q[:, :k]))
        sd, od, c1, c2 = distances(est, X)
        share = np.mean(sd > c1), np.mean(od > c2)
        mon.ok(share[0] < 0.09 and share[1] < 0.09 and sum(share) > 0.004, "share of flagged regular observations", score=share[0], orthogonal=share[1], n=n, p=p, k=k)
        mon.seen("consistent")
        mon.note(n=n, p=p, k=k, ratio=ev.sum() / want.sum(), share=share)
        return
    n = int(rng.integers(20 * k + 40, 20 * k + 150))
    if case["kind"] == "equi":
        X, Q, lam, mu = regular(rng, n, p, k, 0.2)
        m = int(rng.choice([0, 0.1, 0.2]) * n)
        X[:m] += 20 * gen.unit(rng, p) * rng.uniform(1, 2, (m, 1))
        mon.input(X)
        final = bool(i % 3)
        base = make(name, k, seed, final=final).fit(X)
        sd0, od0, c10, c20 = distances(base, X)
        R, _ = np.linalg.qr(rng.standard_normal((p, p)))
        s, c = float(2.0 ** rng.uniform(-6 if name == "spca" else 0, 6)), rng.uniform(-50, 50, p)
        perm = rng.permutation(n)
        todo = [("rotated", X @ R, 1.0, None), ("shifted", X + c, 1.0, None), ("scaled", X * s, s, None), ("moved", s * (X @ R) + c, s, None), ("negated", -X, 1.0, None)]
        if name == "spca":
            todo += [("reordered", X[perm], 1.0, perm), ("doubled", np.vstack([X, X]), 1.0, np.r_[np.arange(n), np.arange(n)])]
        for what, Y, f, rows in todo:
            est = make(name, k, seed, final=final).fit(Y)
            sd, od, c1, c2 = distances(est, Y)
            w_sd, w_od = (sd0, od0) if rows is None else (sd0[rows], od0[rows])
            tol = 1e-3 if final and name == "robpca" else 1e-4
            if name == "robpca" and not np.allclose(sd, w_sd, rtol=tol, atol=tol):
                # rounding errors can decide the path of FastMCD: compare with fits of minimally perturbed data
                fits = [make(name, k, seed, final=final).fit(X * (1 + 1e-14 * rng.standard_normal(X.shape))) for _ in range(8)]
                alt = [distances(e, X) for e in fits]
                if not all(np.allclose(d[0], sd0, rtol=tol, atol=tol) for d in alt):
                    mon.seen("unstable final MCD")
                    continue
            mon.close(od / f, w_od, f"orthogonal distances of {what} data", rtol=tol, atol=tol, f=f)
            mon.close(sd, w_sd, f"score distances of {what} data", rtol=tol, atol=tol, f=f)
            mon.close(c1, c10, f"score cutoff of {what} data", rtol=1e-9)
            if what != "doubled":
                mon.close(c2 / f, c20, f"orthogonal cutoff of {what} data", rtol=tol)
            mon.close(np.sqrt(est.explained_variance_) / f, np.sqrt(base.explained_variance_), f"explained variances of {what} data", rtol=tol)
            mon.seen(what)
        if name == "robpca":
            # in small units the final MCD may stop early, but it only moves within the subspace
            u = float(10.0 ** rng.uniform(-7, -1))
            est = make(name, k, seed, final=final).fit(X * u)
            mon.ok(np.shape(est.components_) == np.shape(base.components_) and est.n_components == base.n_components, "number of components in small units", u=u, got=np.shape(est.components_))
            _, od, _, c2 = distances(est, X * u)
            mon.close(od / u, od0, "orthogonal distances in small units", rtol=1e-6, atol=1e-6, u=u)
            mon.close(c2 / u, c20, "orthogonal cutoff in small units", rtol=1e-6, u=u)
            r = np.sum(est.explained_variance_) / u**2 / np.sum(base.explained_variance_)
            mon.ok(0.3 < r < 3, "explained variance in small units", u=u, ratio=r)
            mon.seen("small units")
        mon.state(name, k, p, m > 0, final)
        return
    alpha = 0.75
    if name == "robpca":
        alpha = float(rng.choice([0.5, 0.75]))
        eps = float(rng.choice([0.1, 0.2])) if alpha == 0.75 else float(rng.choice([0.2, 0.3, 0.38]))
    else:
        eps = float(rng.choice([0.05, 0.1, 0.15]))
    X, Q, lam, mu = regular(rng, n, p, k, 0.1)
    m = int(eps * n)
    rows = rng.choice(n, m, replace=False)
    style = ["orthogonal cluster", "orthogonal scatter", "score", "point mass", "far"][i % 5]
    orth = style != "score"
    final = bool(rng.integers(2)) or not orth  # only the final MCD handles outlying scores
    if style == "point mass":
        final = False  # the final MCD may shrink to coinciding scores
    O = Q[:, k:]  # noqa: E741
    if style == "orthogonal cluster":
        X[rows] += 15 * O @ gen.unit(rng, p - k)
    elif style == "orthogonal scatter":
        g = rng.standard_normal((m, p - k))
        X[rows] += 30 * (g / np.linalg.norm(g, axis=1)[:, None]) @ O.T
    elif style == "score":
        X[rows] += 12 * np.sqrt(lam[-1]) * np.outer(rng.choice([-1, 1], m), Q[:, k - 1])
    elif style == "point mass":
        X[rows] = mu + 40 * (O[:, 0] + 0.2 * Q[:, 0])
    else:
        X[rows] += 10.0 ** rng.uniform(2, 4) * O @ gen.unit(rng, p - k)
    mon.input(X)
    est = make(name, k, seed, alpha=alpha, final=final).fit(X)
    good = np.setdiff1d(np.arange(n), rows)
    a = angle(est.components_, Q[:, :k])
    lim = 0.12 if name == "robpca" else 0.25
    if name == "spca" and style != "score":
        # each direction outside gets at most eps of the spatial sign covariance
        share = np.min(np.sqrt(lam)) ** 2 / lam.sum() * (1 - eps) * 0.5
        if share < 1.5 * eps:
            from rv.core import Skip

            raise Skip("outliers dominate a spherical component")
    mon.ok(a < lim, "subspace follows the outliers", angle=a, estimator=name, style=style, eps=eps, alpha=alpha, n=n, p=p, k=k)
    centre = np.linalg.norm((est.location_ - X[good].mean(axis=0)) @ Q[:, :k] / np.sqrt(lam))
    mon.ok(centre < (1.2 if eps < 0.3 else 2.0), "location follows the outliers", distance=centre, estimator=name, style=style, eps=eps)
    ev = np.sum(est.explained_variance_) / lam.sum()
    mon.ok(0.25 < ev < (3.5 if eps < 0.3 else 6.0), "explained variance follows the outliers", ratio=ev, estimator=name, style=style, eps=eps)
    sd, od, c1, c2 = distances(est, X)
    if orth:
        mon.ok(np.all(od[rows] > c2), "an orthogonal outlier is below the cutoff", smallest=np.min(od[rows]), cutoff=c2, estimator=name, style=style, eps=eps)
        mon.ok(np.min(od[rows]) > np.max(od[good]), "an orthogonal outlier is closer than a regular observation", estimator=name, style=style)
        mon.seen("orthogonal outliers", m)
    else:
        mon.ok(np.mean(sd[rows] > c1) > 0.9, "score outliers are below the cutoff", share=np.mean(sd[rows] > c1), estimator=name, eps=eps)
        mon.seen("score outliers", m)
    mon.ok(np.mean(sd[good] > c1) < 0.3 and np.mean(od[good] > c2) < 0.3, "regular observations are flagged", score=np.mean(sd[good] > c1), orthogonal=np.mean(od[good] > c2), estimator=name, style=style, eps=eps, n=n)
    mon.seen("attack")
    mon.state(name, style, eps, k)
    mon.note(n=n, p=p, k=k, angle=a, style=style, eps=eps)
