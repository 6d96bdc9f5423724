"""C15: S-regression solves the M-scale equation, its weighted least squares equations, and minimises the scale."""
import numpy as np

from rv import gen, ref
from rv.core import Skip

RULE = (
    "'fit': families x sizes x (c, b) x intercept or not, with the scale iterated to convergence; 'default': default settings; 'steps': one "
    "start, the iteration is recomputed; 'shape': prediction of rows, columns and constants; 'few': few starts, with and without an exactly fitted majority; 'candidates': 1, 3 and all candidates followed from the same starts on data with several lines; 'fault': a weighted least squares step that fails now and then. Non-trivial: scale equation, fixed point and minimality "
    "were judged on the fitted residuals"
)
ASSUME = ["minimality is judged locally (perturbed coefficients) and against least squares, the true coefficients and 20 random elemental fits"]
REQUIRE = {"fit": 60, "perturbations": 1000, "default": 20, "no intercept": 15, "other constants": 20, "predict": 20, "exactly fitted majority": 15, "few starts": 10, "minute coefficients": 5, "candidates": 20, "more candidates helped": 3}


def cases(tier):
    q = tier == "quick"
    return (
        [{"kind": "fit", "fam": f, "i": r} for f in gen.REG for r in range(14 if q else 100)]
        + [{"kind": "default", "fam": f, "i": r} for f in gen.REG for r in range(4 if q else 20)]
        + [{"kind": "fault", "i": r} for r in range(16 if q else 100)]
        + [{"kind": "few", "i": r} for r in range(60 if q else 500)]
        + [{"kind": "candidates", "i": r} for r in range(24 if q else 200)]
        + [{"kind": "predict", "i": r} for r in range(20 if q else 80)]
    )


def expected_rho(c):
    """Half the maximum of the bisquare loss."""
    return c**2 / 12


def run(case, mon):
    from sklearn.exceptions import NotFittedError

    from robpy.regression import SRegression
    from robpy.utils.rho import TukeyBisquare

    rng, i = mon.rng, case["i"]
    p = int(rng.integers(1, 5))
    n = int(rng.integers(12 * p + 10, 20 * p + 40))
    if case["kind"] in ("fit", "default"):
        X, y, beta, a, out = gen.reg(rng, case["fam"], n, p, eps=0.3)
        if case["kind"] == "fit" and i % 8 == 3:  # other units: minute coefficients
            u = 10.0 ** rng.uniform(2, 6)
            X, beta = X * u, beta / u
            mon.seen("minute coefficients")
        mon.input(X, y)
        icpt = not (case["kind"] == "fit" and i % 4 == 3)
        if not icpt:
            y = y - a
            a = 0.0
        c, b = 1.547, 0.1995
        kw = {}
        if case["kind"] == "fit":
            if i % 2:
                c = float(rng.choice([1.3, 2.5, 1.547]))
                b = expected_rho(c) * float(rng.choice([1.0, 0.8]))
                kw.update(rho=TukeyBisquare(c=c), b=b)
                mon.seen("other constants")
            kw.update(max_scale_iterations=500, scale_tolerance=1e-14, n_initial_subsets=100)
            kw.update(random_state=int(rng.integers(1000)))
        est = SRegression(fit_intercept=icpt, **kw)
        mon.ok(est.fit(X, y) is est, "fit must return the estimator")
        A = np.column_stack([np.ones(n), X]) if icpt else X
        fit = np.asarray(est.predict(X))
        mon.ok(fit.shape == (n,), "shape of the prediction", got=fit.shape)
        coef = np.linalg.lstsq(A, fit, rcond=None)[0]
        scy = ref.mad(y)
        mon.close(A @ coef / scy, fit / scy, "fit is not linear in the features", rtol=1e-8, atol=1e-8)
        r = y - fit
        rho = lambda u: ref.bisq_rho(u, c)  # noqa: E731
        s = est.scale
        mon.ok(np.isfinite(s) and s > 0, "scale is not positive", scale=s)
        lhs = np.mean(rho(r / s))
        if case["kind"] == "default":
            # two scale iterations from the MAD only approximate the solution
            mon.ok(abs(lhs / b - 1) < 0.12, "scale is far from the M-scale", mean_rho=lhs, b=b, n=n, p=p)
            mon.seen("default")
        else:
            mon.close(lhs, b, "scale does not solve the M-scale equation", rtol=1e-5, n=n, p=p, c=c)
            mon.close(s, ref.m_scale(r, rho, b), "M-scale", rtol=1e-5)
        w = ref.bisq_w(r / s, c)
        tol = 1e-5 if case["kind"] == "fit" else 1e-4
        sw = np.sqrt(w)
        again = A @ np.linalg.lstsq(A * sw[:, None], y * sw, rcond=None)[0]
        mon.ok(np.max(np.abs(again - fit)[w > 0]) < tol * s * 10 + 1e-6 * np.max(np.abs(fit)), "not a fixed point of the weighted least squares step", change=np.max(np.abs(again - fit)[w > 0]) / s)
        if case["kind"] == "fit":
            sd = s / np.sqrt(np.maximum((A**2).sum(axis=0), 1e-300))
            for _ in range(20):
                t = coef + rng.standard_normal(len(coef)) * sd * 10.0 ** rng.uniform(-2, 0.7)
                mon.ok(ref.m_scale(y - A @ t, rho, b) >= s * (1 - 1e-6), "perturbed coefficients have a smaller M-scale", scale=s)
            mon.seen("perturbations", 20)
            others = [ref.m_scale(y - A @ np.linalg.lstsq(A, y, rcond=None)[0], rho, b), ref.m_scale(y - a - X @ beta, rho, b)]
            for _ in range(20):
                k = rng.permutation(n)[: A.shape[1] + 1]
                others.append(ref.m_scale(y - A @ np.linalg.lstsq(A[k], y[k], rcond=None)[0], rho, b))
            mon.ok(s <= min(others) * (1 + 1e-6), "another fit has a smaller M-scale", scale=s, other=min(others), n=n, p=p)
            mon.seen("fit")
            mon.seen("no intercept", not icpt)
            mon.state(p, icpt, round(c, 3))
        mon.note(n=n, p=p, scale=s, mean_rho=lhs, b=b)
        return
    if case["kind"] == "fault":
        # the linear algebra of single steps fails (as it does for singular weighted data): other starts remain
        X, y, beta, a, out = gen.reg(rng, gen.REG[i % len(gen.REG)], n, p, eps=0.2)
        mon.input(X, y)
        hits = [0]
        names = ("svd", "lstsq", "solve", "inv", "pinv", "qr")
        import scipy.linalg as sl

        kept = [(m, f, getattr(m, f)) for m in (np.linalg, sl) for f in names if hasattr(m, f)]
        dice = np.random.default_rng(case["i"])

        def broken(f):
            def g(A, *args, **kw):
                if np.ndim(A) == 2 and len(A) == n and dice.random() < 0.03:
                    hits[0] += 1
                    raise np.linalg.LinAlgError("SVD did not converge")
                return f(A, *args, **kw)

            return g

        est = SRegression(n_initial_subsets=30, random_state=i)
        try:
            for m, f, old in kept:
                setattr(m, f, broken(old))
            est.fit(X, y)
        except np.linalg.LinAlgError:
            est = None
        finally:
            for m, f, old in kept:
                setattr(m, f, old)
        if est is None:
            raise Skip("the failing step has no alternative")
        s = est.scale
        mon.ok(np.isfinite(s) and s > 0 and np.all(np.isfinite(est.predict(X))), "no finite model when single steps fail")
        r = y - np.asarray(est.predict(X))
        mon.ok(abs(np.mean(ref.bisq_rho(r / s, 1.547)) / 0.1995 - 1) < 0.15, "scale is far from the M-scale when single steps fail", s=s)
        mon.note(n=n, p=p, faults=hits[0])
        return
    if case["kind"] == "candidates":
        X, y = gen.lines(rng)
        mon.input(X, y)
        kw = dict(n_initial_subsets=12, n_initial_i_steps=int(i % 2), random_state=int(rng.integers(10000)), max_scale_iterations=500, scale_tolerance=1e-14)
        scales = [SRegression(n_best_subsets=k, **kw).fit(X, y).scale for k in (1, 3, 12)]
        mon.ok(scales[2] <= scales[1] * (1 + 1e-9) and scales[1] <= scales[0] * (1 + 1e-9), "following more candidates ends in a larger scale", scales=scales)
        mon.seen("candidates")
        mon.seen("more candidates helped", scales[2] < scales[0] * (1 - 1e-6))
        mon.note(scales=scales)
        return
    if case["kind"] == "few":
        # a handful of starts: the scale belongs to the reported fit, whichever solution that is
        X, y, beta, a, out = gen.reg(rng, gen.REG[i % len(gen.REG)], n, p, eps=0.2)
        exact = i % 3 < 2
        if exact:
            y = a + X @ beta
            rows = rng.permutation(n)[: int(float(rng.choice([0.1, 0.25, 0.35])) * n)]
            y[rows] += rng.standard_normal(len(rows)) * 10.0 ** rng.uniform(-1, 2)
        mon.input(X, y)
        k = int(rng.integers(1, 9))
        est = SRegression(
            n_initial_subsets=k, n_best_subsets=int(rng.integers(1, k + 1)), n_initial_i_steps=int(rng.integers(0, 4)),
            random_state=int(rng.integers(10000)), max_scale_iterations=500, scale_tolerance=1e-14,
        ).fit(X, y)
        r, s = y - np.asarray(est.predict(X)), est.scale
        size = np.max(np.abs(y)) + np.max(np.abs(X) @ np.abs(beta)) + 1
        if np.quantile(np.abs(r), 0.55) < 1e-11 * size:
            mon.ok(0 <= s < 1e-9 * size, "scale of an exactly fitted majority is not zero", scale=s, n=n, p=p, starts=k)
            mon.seen("exactly fitted majority")
        elif np.quantile(np.abs(r), 0.45) > 1e-7 * size:
            mon.close(np.mean(ref.bisq_rho(r / s, 1.547)), 0.1995, "scale does not solve the M-scale equation", rtol=1e-4, n=n, p=p, starts=k)
            mon.seen("few starts")
        mon.note(n=n, p=p, scale=s, starts=k)
        return
    X, y, beta, a, _ = gen.reg(rng, "normal", n, p)
    mon.input(X, y)
    icpt = bool(i % 2)
    mon.raises(NotFittedError, lambda: SRegression().predict(X), "predict before fit")
    mon.raises(NotFittedError, lambda: SRegression().scale, "scale before fit")
    est = SRegression(n_initial_subsets=30, fit_intercept=icpt).fit(X, y)
    full = np.asarray(est.predict(X))
    k = int(rng.integers(n))
    mon.close(np.asarray(est.predict(X[[k]])), full[[k]], "prediction of a single row", rtol=1e-9, atol=1e-9)
    Z = rng.standard_normal((4, p))
    Z[:, -1] = 2.0
    c0 = np.asarray(est.predict(np.vstack([np.zeros((1, p)), np.eye(p), 3 * rng.standard_normal((1, p))])))
    co = c0[1 : p + 1] - c0[0]
    mon.close(np.asarray(est.predict(Z)), c0[0] + Z @ co, "prediction of rows with a constant column", rtol=1e-8, atol=1e-8)
    if not icpt:
        mon.close(c0[0], 0.0, "model without intercept predicts a nonzero value at the origin", atol=1e-12)
    mon.seen("predict")
    mon.note(n=n, p=p, intercept=icpt)
