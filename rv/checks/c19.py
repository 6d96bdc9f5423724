"""C19: robust PCA returns an orthonormal basis with coherent scores, projections, variances and outlier map."""
import numpy as np
from scipy.stats import chi2, norm

from rv import gen, ref
from rv.core import Skip

RULE = (
    "'robpca' and 'spca': families x sizes (also more columns than rows, constant directions) x settings, the fit is recomputed from its "
    "definition, the algebra of transform, project, inverse_transform and the outlier map is checked on training and new rows; "
    "'all' (the whole variance is asked for); 'policy'. Non-trivial: components and variances were compared"
)
ASSUME = [
    "outlyingness and the final MCD are taken from robpy (judged by C29, C05) with the same seed",
    "observations within 1e-7 relative of a cutoff may go either way; components with nearly equal variances are compared through their subspace",
]
REQUIRE = {"robpca": 50, "spca": 50, "components chosen": 20, "more columns than rows": 6, "outlier map": 60, "recomputed": 80, "all components": 30, "variances not in order": 5}
FAMS = ("gauss", "t3", "cluster", "scatter_out", "scaled", "shifted", "lognormal")


def cases(tier):
    q = tier == "quick"
    return (
        [{"kind": k, "fam": f, "i": r} for k in ("robpca", "spca") for f in FAMS for r in range(12 if q else 90)]
        + [{"kind": "policy", "i": r} for r in range(6 if q else 20)]
        + [{"kind": "all", "i": r} for r in range(20 if q else 150)]
    )


def data(rng, fam, i, kind):
    p = int(rng.integers(2, 9))
    n = int(rng.integers(30, 110))
    X = gen.multi(rng, fam, n, p, eps=0.15)
    X = X * np.exp(np.linspace(0.6 * rng.random(), -0.6, p)) if fam != "scaled" else X
    if i % 6 == 5:  # wide
        n, p = int(rng.integers(14, 25)), int(rng.integers(26, 60))
        X = gen.multi(rng, "gauss", n, 4, 0.1) @ rng.standard_normal((4, p)) + 0.1 * rng.standard_normal((n, p))
        if fam == "shifted":
            X = X + 100
    elif i % 6 == 4 and p > 2:  # exactly singular
        X[:, -1] = X[:, 0] - X[:, 1]
    elif i % 6 == 2 and kind == "spca":  # nearly spherical: the variances need not follow the eigenvalues of the signs
        n, p = int(rng.integers(15, 60)), int(rng.integers(2, 6))
        X = gen.multi(rng, "gauss", n, p) if fam == "shifted" else rng.standard_normal((n, p)) * (rng.standard_t(3, (n, 1)) if fam == "t3" else 1)
    elif i % 6 == 3 and kind == "spca":  # symmetric about an observation: it coincides with the spatial median
        Z = np.round((X[: n // 2] - np.median(X, axis=0)) * np.exp2(8 - np.round(np.log2(ref.mad(X)))))
        X = rng.permutation(np.vstack([Z, -Z, np.zeros((1, p))]) + rng.integers(-9, 10, p))
    return X


def od_cutoff(od):
    loc, scale = ref.uni_mcd(od ** (2 / 3))[:2]
    return float(loc + scale * norm.ppf(0.975)) ** 1.5


def same_basis(mon, got, want, values, what):
    """Columns are equal up to sign, or span the same space where the values are nearly equal."""
    k = want.shape[1]
    mon.ok(got.shape == want.shape, what + ": shape", got=got.shape, want=want.shape)
    v = np.asarray(values, dtype=float)
    groups, start = [], 0
    for j in range(1, k + 1):
        if j == k or abs(v[j] - v[j - 1]) > 1e-4 * max(abs(v[j - 1]), abs(v[j])):
            groups.append((start, j))
            start = j
    for s, e in groups:
        M = got[:, s:e].T @ want[:, s:e]
        sv = np.linalg.svd(M, compute_uv=False)
        mon.ok(np.min(sv) > 1 - 1e-5, what, column=s, cosine=np.min(sv))


def same(C, v, D, w):
    return C.shape == D.shape and np.allclose(v, w, rtol=1e-6) and np.min(np.linalg.svd(C.T @ D, compute_uv=False)) > 1 - 1e-5


def l1(X):
    m = np.median(X, axis=0)
    for _ in range(5000):
        d = np.linalg.norm(X - m, axis=1)
        if np.min(d) < 1e-14:
            break
        new = (X / d[:, None]).sum(axis=0) / (1 / d).sum()
        if np.max(np.abs(new - m)) < 1e-15 * (1 + np.max(np.abs(m))):
            break
        m = new
    return m


def run(case, mon):
    from robpy.covariance import FastMCD
    from robpy.pca import PCALocantore, ROBPCA
    from robpy.utils.outlyingness import stahel_donoho
    import matplotlib.pyplot as plt

    rng, i = mon.rng, case["i"]
    if case["kind"] == "policy":
        X = gen.multi(rng, "gauss", 40, 4)
        mon.input(X)
        for bad in (0.4, 1.2, -1.0, "a", None):
            mon.raises(ValueError, lambda: ROBPCA(alpha=bad, n_components=2).fit(X), "alpha outside [0.5, 1]")
        for e in (ROBPCA(), PCALocantore()):
            mon.raises((AttributeError, ValueError), lambda: e.transform(X), "transform before fit")
        return
    if case["kind"] == "all":  # the whole variance is asked for
        p = int(rng.integers(2, 16))
        X = gen.multi(rng, str(rng.choice(FAMS)), 5 * p + int(rng.integers(10, 60)), p) * np.exp(rng.standard_normal(p))
        mon.input(X)
        for est in (PCALocantore(k_min_var_explained=1.0), ROBPCA(k_min_var_explained=1.0, final_MCD_step=False, random_seed=int(rng.integers(100)))):
            est.fit(X)
            mon.ok(np.asarray(est.components_).shape == (p, p), "components leave out variance that was asked for", got=np.asarray(est.components_).shape, p=p, est=type(est).__name__)
            mon.close(est.inverse_transform(est.transform(X)), X, "data are not reproduced by all components", rtol=1e-8, atol=1e-8 * np.max(np.abs(X)))
        mon.seen("all components", 2)
        mon.note(n=len(X), p=p)
        return
    X = data(rng, case["fam"], i, case["kind"])
    n, p = X.shape
    mon.input(X)
    r = min(n - 1, p)
    k = None if i % 2 else int(rng.integers(1, min(r, 5) + 1))
    if k is not None and i % 10 == 0:
        k = r
    kmin = float(rng.choice([0.6, 0.8, 0.95]))
    seed = int(rng.integers(10000))
    if case["kind"] == "robpca":
        alpha = float(rng.choice([0.5, 0.75, 0.9, 1.0]))
        final = bool(i % 4 < 2)
        est = ROBPCA(n_components=k, k_min_var_explained=kmin, alpha=alpha, final_MCD_step=final, random_seed=seed, verbosity=50)
    else:
        est = PCALocantore(n_components=k, k_min_var_explained=kmin)
    wide_df = i % 3 == 0
    if case["kind"] == "robpca" and final:
        # the final MCD needs more regular observations than dimensions
        if n < 4 * (k or 5):
            raise Skip("few observations")
    mon.ok(est.fit(gen.frame(rng, X, "shuffled_index") if wide_df else X) is est, "fit must return the estimator")
    C, loc, ev = np.asarray(est.components_), np.asarray(est.location_), np.asarray(est.explained_variance_)
    kk = C.shape[1]
    size = np.max(np.abs(X)) + 1e-300
    # ---- algebra
    mon.ok(C.shape == (p, kk) and loc.shape == (p,) and ev.shape == (kk,), "shapes", C=C.shape, loc=loc.shape, ev=ev.shape)
    mon.ok(est.n_components == kk, "n_components does not tell the number of components", got=est.n_components, want=kk)
    mon.close(C.T @ C, np.eye(kk), "components are not orthonormal", atol=1e-9)
    mon.ok(np.all(np.isfinite(ev)) and np.all(ev >= 0), "explained variances", ev=ev)
    new = X[rng.integers(0, n, 7)] + rng.standard_normal((7, p)) * X.std(axis=0)
    for Y in (X, new):
        T = np.asarray(est.transform(Y))
        mon.close(T, (Y - loc) @ C, "scores", rtol=1e-9, atol=1e-10 * size)
        P = np.asarray(est.project(Y))
        mon.close(P, T @ C.T, "projection", rtol=1e-9, atol=1e-10 * size)
        mon.close((Y - loc - P) @ C, 0 * T, "residual is not orthogonal to the subspace", atol=1e-8 * size)
        mon.close(est.inverse_transform(T), P + loc, "inverse transform", rtol=1e-9, atol=1e-10 * size)
        mon.close(est.transform(est.inverse_transform(T)), T, "scores of the reconstruction", rtol=1e-8, atol=1e-9 * size)
    # ---- definition
    if case["kind"] == "robpca":
        mu = X.mean(axis=0)
        Vt = np.linalg.svd(X - mu, full_matrices=False)[2]
        Z = (X - mu) @ Vt.T
        out = stahel_donoho(Z, random_seed=seed)
        h = max(int(alpha * n), int((n + (10 if k is None else k) + 1) / 2))
        order = np.sort(out)
        good = h >= n or order[h] - order[h - 1] > 1e-7 * order[h - 1]
        H = np.argsort(out, kind="stable")[:h]
        m1 = Z[H].mean(axis=0)
        w, E = np.linalg.eigh(np.cov(Z[H].T))
        w, E = w[::-1], E[:, ::-1]
        ratio = np.cumsum(w) / w.sum()
        q = k if k is not None else int(np.argmax(ratio >= kmin)) + 1
        if k is None:
            good &= np.min(np.abs(ratio - kmin)) > 1e-9
            mon.seen("components chosen")
        if q < len(w):
            good &= w[q - 1] - w[q] > 1e-6 * w[0]
        od = np.linalg.norm((Z - m1) - (Z - m1) @ E[:, :q] @ E[:, :q].T, axis=1)
        if q < Z.shape[1]:
            if np.max(od) > 1e-9 * size:
                cut = od_cutoff(od)
                good &= np.min(np.abs(od / cut - 1)) > 1e-7
                V = od < cut
            else:
                good = False  # rounding errors decide
                V = od >= 0
        else:
            V = np.isin(np.arange(n), H)
        if good:
            m2 = Z[V].mean(axis=0)
            cov = np.cov(Z[V].T)
            w2, E2 = np.linalg.eigh(cov)
            w2, E2 = w2[::-1][:q], E2[:, ::-1][:, :q]
            keep = w2 > 1e-12 * w2[0]
            clear = not np.any((w2 < 1e-9 * w2[0]) & (w2 > 1e-20 * w2[0]))
            w2, E2 = w2[keep], E2[:, keep]
            found = [(m2, w2, E2)]
            if final:
                S, found = (Z - m2) @ E2, []
                for t in range(6):  # FastMCD may amplify rounding errors of the scores
                    if t == 1 and len(found) == 1 and same(C, ev, Vt.T @ found[0][2], found[0][1]):
                        break
                    mcd = FastMCD(random_seed=seed).fit(S * (1 + 1e-14 * t * rng.standard_normal(S.shape)))
                    w3, E3 = np.linalg.eigh(mcd.covariance_)
                    found.append((m2 + E2 @ mcd.location_, w3[::-1], E2 @ E3[:, ::-1]))
                hit = [f for f in found if same(C, ev, Vt.T @ f[2], f[1])]
                if not hit and not all(same(Vt.T @ found[0][2], found[0][1], Vt.T @ f[2], f[1]) for f in found):
                    clear = False
                    mon.seen("unstable final MCD")
                found = hit or found
            m2, w2, E2 = found[0]
            if clear:
                same_basis(mon, C, Vt.T @ E2, w2, "components")
                mon.close(ev, w2, "explained variances", rtol=1e-6)
                mon.close(loc, mu + Vt.T @ m2, "location", rtol=1e-7, atol=1e-7 * np.sqrt(w2[0]) + 1e-10 * size)
                mon.close(est.explained_variance_ratio, ratio[: len(w2)], "ratios of explained variance", rtol=1e-7)
                mon.seen("recomputed")
        mon.ok(np.all(np.diff(ev) <= 1e-9 * ev[0]), "explained variances do not descend", ev=ev)
        mon.seen("robpca")
    else:
        m = l1(X)
        F = lambda c: np.linalg.norm(X - c, axis=1).sum()  # noqa: E731
        mon.ok(F(loc) <= F(m) * (1 + 1e-6), "location is not the spatial median", got=F(loc), want=F(m))
        B = X - loc
        d = np.linalg.norm(B, axis=1)
        U = B[d > 0] / d[d > 0, None]
        w, E = np.linalg.eigh(U.T @ U / n)
        w, E = w[::-1], E[:, ::-1]
        lam = np.array([(1.4826022185056018 * np.median(np.abs(s - np.median(s)))) ** 2 for s in (B @ E).T])
        ratio = np.cumsum(lam) / lam.sum()
        q = kk
        clear = np.all(np.abs(np.diff(w[: min(q + 1, len(w))])) > 1e-7) or q == 1 and w[0] - w[min(1, len(w) - 1)] > 1e-7
        if clear:
            same_basis(mon, C, E[:, :q], w[:q], "components")
            mon.close(ev, lam[:q], "explained variances", rtol=1e-5, atol=1e-20 * size**2)
            mon.close(est.explained_variance_ratio_, ratio[:q], "ratios of explained variance", rtol=1e-5)
            if k is None and np.min(np.abs(ratio - kmin)) > 1e-6:
                mon.ok(q == int(np.argmax(ratio >= kmin)) + 1, "number of components", got=q, ratio=ratio, kmin=kmin)
                mon.seen("components chosen")
            mon.seen("recomputed")
            mon.seen("variances not in order", bool(np.any(np.diff(lam[:q]) > 1e-3 * lam[0])))
        if k is not None:
            mon.ok(kk == k, "number of components", got=kk, want=k)
        mon.seen("spca")
    # ---- outlier map
    if np.min(ev) > 1e-20 * size**2:
        plt.close("all")
        sd, od, c1, c2 = est.plot_outlier_map(gen.frame(rng, X, "plain") if i % 2 else X, return_distances=True)
        T = (X - loc) @ C
        mon.close(sd, np.sqrt(np.sum(T**2 / ev, axis=1)), "score distances", rtol=1e-8, atol=1e-9)
        want = np.linalg.norm(X - loc - T @ C.T, axis=1)
        mon.close(od, want, "orthogonal distances", rtol=1e-7, atol=1e-9 * size)
        mon.close(c1, np.sqrt(chi2.ppf(0.975, kk)), "score cutoff", rtol=1e-9)
        if np.median(want) > 1e-8 * size:
            mon.close(c2, od_cutoff(want), "orthogonal cutoff", rtol=1e-5)
        ax = plt.gcf().axes[0]
        mon.close(np.asarray(ax.collections[0].get_offsets()), np.column_stack([sd, od]), "drawn points", rtol=1e-9, atol=1e-12)
        ls = [np.asarray(ln.get_xydata(), dtype=float) for ln in ax.lines]
        mon.close([ln[0, 0] for ln in ls if ln[0, 0] == ln[1, 0]], [c1], "drawn score cutoff", rtol=1e-12)
        mon.close([ln[0, 1] for ln in ls if ln[0, 1] == ln[1, 1] and ln[0, 0] != ln[1, 0]], [c2], "drawn orthogonal cutoff", rtol=1e-12)
        mon.seen("outlier map")
    mon.seen("more columns than rows", p > n)
    mon.state(case["kind"], case["fam"], kk, p > n)
    mon.note(n=n, p=p, k=kk, explained=ev)
