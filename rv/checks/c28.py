"""C28: distances, matrix helpers, weighted median and loss functions equal their definitions."""
import numpy as np
import pandas as pd
from scipy.integrate import quad

from rv import gen
from rv.core import Skip

RULE = (
    "random and hostile inputs (ties, zero weights, weights that reach exactly one half, permuted index sets, indefinite and asymmetric matrices, one variable, scales from 1e-6 to 1e6) "
    "against independent definitions. Non-trivial: the output was compared"
)
ASSUME = ["matrices with condition number below 1e7; tolerances follow the condition number"]
REQUIRE = {"distances": 60, "submatrix": 100, "truncated": 60, "raised eigenvalue": 25, "correlation": 40, "weighted median": 150, "exactly half": 20, "loss": 60, "derivative": 60}
CHUNK = 40


def cases(tier):
    q = tier == "quick"
    out = []
    for k, n in (("mahalanobis", 80), ("submatrix", 150), ("truncated", 90), ("correlation", 50), ("wmedian", 250), ("loss", 80)):
        out += [{"kind": k, "i": r} for r in range(n if q else n * 150)]
    return out


def spd(rng, p, spread):
    Q = np.linalg.qr(rng.standard_normal((p, p)))[0]
    return (Q * 10 ** rng.uniform(-spread, spread, p)) @ Q.T


def run(case, mon):
    rng, i, kind = mon.rng, case["i"], case["kind"]
    if kind == "mahalanobis":
        from robpy.utils.distance import mahalanobis_distance

        p, n = int(rng.integers(1, 7)), int(rng.integers(1, 40))
        S = spd(rng, p, 2)
        S = (S + S.T) / 2 * 10.0 ** int(rng.integers(-4, 5))
        mu = rng.standard_normal(p) * 10.0 ** int(rng.integers(-2, 3))
        X = mu + rng.standard_normal((n, p)) * np.sqrt(np.diag(S))
        X[0] = mu
        mon.input(X, S)
        data = pd.DataFrame(X) if i % 3 == 0 else X
        got = mahalanobis_distance(data, mu.reshape(1, -1) if i % 4 == 1 else mu, S)
        L = np.linalg.cholesky(S)
        want = np.sqrt(np.sum(np.linalg.solve(L, (X - mu).T) ** 2, axis=0))
        mon.close(got, want, "Mahalanobis distance", rtol=1e-13 * np.linalg.cond(S) + 1e-10, atol=1e-9)
        mon.ok(np.shape(got) == (n,), "one distance per row")
        # affine invariance
        A = rng.standard_normal((p, p)) + 2 * np.eye(p)
        if np.linalg.cond(A) < 1e3:
            again = mahalanobis_distance(X @ A.T, A @ mu, A @ S @ A.T)
            mon.close(again, want, "affine invariance of the distance", rtol=1e-12 * np.linalg.cond(S) * np.linalg.cond(A) ** 2 + 1e-7, atol=1e-7)
        mon.seen("distances")
        mon.state(kind, p, n > p)
    elif kind == "submatrix":
        from robpy.utils.general import inverse_submatrix

        p = int(rng.integers(1, 10))
        A = spd(rng, p, 1.5)
        if i % 3 == 1:  # any invertible matrix
            A = rng.standard_normal((p, p)) + 3 * np.eye(p)
        k = int(rng.integers(1, p + 1))
        idx = rng.permutation(p)[:k]
        if i % 2:
            idx = np.sort(idx)
        sub = A[np.ix_(idx, idx)]
        c = np.linalg.cond(sub) * np.linalg.cond(A)
        if c > 1e7:
            raise Skip("badly conditioned")
        mon.input(A, idx)
        A0, I0 = A.copy(), np.linalg.inv(A)
        J0 = I0.copy()
        got = inverse_submatrix(A, I0, idx)
        mon.close(got @ sub, np.eye(k), "inverse of the submatrix", atol=1e-12 * c + 1e-10, p=p, idx=idx)
        mon.ok(np.array_equal(A, A0) and np.array_equal(I0, J0), "arguments unchanged")
        mon.seen("submatrix")
        mon.state(kind, p, k)
    elif kind == "truncated":
        from robpy.covariance.utils.alter_covariance import truncated_covariance

        p = int(rng.integers(1, 8))
        Q = np.linalg.qr(rng.standard_normal((p, p)))[0]
        lam = rng.uniform(-1.0, 3.0, p) if i % 2 else 10 ** rng.uniform(-4, 1, p)
        S = (Q * lam) @ Q.T
        asym = i % 3 == 0
        N = rng.standard_normal((p, p)) * 0.1
        S_in = S + (N - N.T if asym else 0)
        low = float(10 ** rng.uniform(-4, 0.5))
        mon.input(S_in)
        keep = S_in.copy()
        got = truncated_covariance(S_in, low)
        mon.ok(np.array_equal(keep, S_in), "argument unchanged")
        w = np.maximum(lam, low)
        mon.close(got, (Q * w) @ Q.T, "eigenvalues raised to the minimum, eigenvectors kept", rtol=1e-9, atol=1e-10 * max(1, np.max(np.abs(lam))), low=low, lam=lam)
        mon.ok(np.linalg.eigvalsh(got)[0] >= low * (1 - 1e-9) - 1e-12 * max(1, np.max(np.abs(lam))), "smallest eigenvalue")
        mon.close(got, got.T, "symmetric", rtol=1e-9, atol=1e-12 * np.max(np.abs(got)))
        mon.seen("truncated")
        if np.any(lam < low):
            mon.seen("raised eigenvalue")
        mon.state(kind, p, int(np.sum(lam < low)))
    elif kind == "correlation":
        from robpy.covariance.utils.alter_covariance import covariance_to_correlation

        p = int(rng.integers(1, 8))
        S = spd(rng, p, 1)
        S = (S + S.T) / 2
        d = 10 ** rng.uniform(-6, 6, p)
        mon.input(S, d)
        R = covariance_to_correlation(S)
        want = np.array([[S[a, b] / np.sqrt(S[a, a] * S[b, b]) for b in range(p)] for a in range(p)])
        mon.close(R, want, "correlation matrix", rtol=1e-10)
        mon.close(covariance_to_correlation(S * np.outer(d, d)), R, "free of the units of the variables", rtol=1e-9)
        mon.seen("correlation")
        mon.state(kind, p)
    elif kind == "wmedian":
        from robpy.utils.median import weighted_median

        n = int(rng.choice([1, 2, 3, 4, 5, 8, 15, 40, 150]))
        fam = gen.UNI[int(rng.integers(len(gen.UNI)))]
        x = gen.uni(rng, fam, n)
        if i % 4 == 0:
            w = np.ones(n)
        elif i % 4 == 1:
            w = rng.integers(0, 4, n).astype(float)
            w[int(rng.integers(n))] += 1
        elif i % 4 == 2:
            w = rng.integers(1, 1000, n)  # integers
        else:
            w = 2.0 ** rng.integers(-8, 8, n)  # exact sums
        mon.input(x, w)
        x0, w0 = x.copy(), w.copy()
        got = weighted_median(x, w)
        mon.ok(np.array_equal(x, x0) and np.array_equal(w, w0), "arguments unchanged")
        mon.ok(np.ndim(got) == 0 and got in x, "one of the observations", got=got)
        below, upto, total = w[x < got].sum(), w[x <= got].sum(), w.sum()
        # weighted high median: at most half of the weight below it, more than half up to it
        mon.ok(2 * below <= total, "too much weight below the weighted median", below=below, total=total, family=fam)
        mon.ok(2 * upto > total, "too little weight up to the weighted median", upto=upto, total=total, family=fam)
        if np.any(2 * np.cumsum(w[np.argsort(x, kind="stable")]) == total):
            mon.seen("exactly half")
        perm = rng.permutation(n)
        mon.ok(weighted_median(x[perm], w[perm]) == got, "independent of the order")
        mon.ok(weighted_median(x, w * 4) == got, "only ratios of weights matter")
        if i % 4 in (0, 2) and w.sum() < 4000:
            mon.ok(np.sort(np.repeat(x, w.astype(int)))[int(w.sum()) // 2] == got, "the high median of the repeated sample")
        mon.seen("weighted median")
        mon.state(kind, fam, n, i % 4)
    else:
        from robpy.utils.rho import Huber, TukeyBisquare

        c = float(rng.choice([0.3, 0.7, 1.0, 1.345, 1.5, 1.547, 1.56, 3.0, 4.685, 7.0]))
        tukey = bool(i % 2)
        default = i % 7 == 0
        f = (TukeyBisquare if tukey else Huber)(*(() if default else (c,)))
        if default:
            c = 1.56 if tukey else 1.5
        x = np.concatenate([rng.standard_normal(30) * c, [0.0, c, -c, np.nextafter(c, 9), np.nextafter(c, 0), 2 * c, -50.0 * c, 1e4]])
        if i % 5 == 0:
            x = x[:30].reshape(5, 6)
        mon.input(x)
        a = np.abs(x)
        if tukey:
            v = np.minimum(a, c)
            rho = v**2 / 2 - v**4 / (2 * c**2) + v**6 / (6 * c**4)
            psi = np.where(a < c, x * (1 - (x / c) ** 2) ** 2, 0.0)
        else:
            rho = np.where(a < c, x**2 / 2, c * (a - c / 2))
            psi = np.clip(x, -c, c)
        keep = x.copy()
        mon.close(f.rho(x), rho, "rho", rtol=1e-9, atol=1e-12, c=c, tukey=tukey)
        mon.close(f.psi(x), psi, "psi", rtol=1e-9, atol=1e-12, c=c, tukey=tukey)
        mon.ok(np.array_equal(x, keep), "argument unchanged")
        # residuals divided by a tiny scale: huge, even infinite
        huge = np.array([1e8, -1e30, 1e120, -1e200, np.inf, -np.inf])
        with np.errstate(all="ignore"):
            far_rho, far_psi = f.rho(huge.copy()), f.psi(huge.copy())
        mon.close(far_psi, np.zeros(6) if tukey else np.sign(huge) * c, "psi of huge values", rtol=1e-12)
        mon.ok(np.allclose(far_rho, c**2 / 6 if tukey else c * (np.abs(huge) - c / 2), rtol=1e-9), "rho of huge values", got=far_rho, c=c)
        mon.seen("huge arguments")
        mon.close(f.rho(-x), f.rho(x), "rho is even", rtol=1e-12)
        mon.close(f.psi(-x), -f.psi(x), "psi is odd", rtol=1e-12)
        mon.ok(float(f.rho(np.array([0.0]))[0]) == 0.0, "rho is zero at zero")
        g = np.sort(np.abs(x).ravel())
        mon.ok(np.all(np.diff(f.rho(g)) >= -1e-12 * c * c), "rho does not decrease with the distance from zero")
        # psi is the derivative of rho: its integral gives rho
        t = float(rng.uniform(0.05, 2.5) * c)
        area = quad(lambda u: float(f.psi(np.array([u]))[0]), 0, t, points=[c] if t > c else None, epsabs=1e-12)[0]
        mon.close(float(f.rho(np.array([t]))[0]), area, "psi is the derivative of rho", rtol=1e-7, atol=1e-9, t=t, c=c)
        mon.seen("derivative")
        ints = np.arange(-6, 7)
        mon.close(f.rho(ints), f.rho(ints.astype(float)), "rho of integers", rtol=1e-12)
        mon.close(f.psi(ints), f.psi(ints.astype(float)), "psi of integers", rtol=1e-12)
        mon.seen("loss")
        mon.state(kind, tukey, c)
