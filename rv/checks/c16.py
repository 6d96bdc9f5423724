"""C16: MM-regression solves its estimating equations with the scale of the initial estimator."""
import numpy as np

from rv import gen, ref

RULE = (
    "'solve': families x sizes x initial estimators (S, S with other settings, LTS, MM) x tuning constants, the estimating equations are "
    "evaluated at the result; 'trace': one to five iterations compared with a recomputed sequence; 'zero': a given start that fits some observations exactly; 'policy'. Non-trivial: equations or "
    "iterates were judged"
)
ASSUME = ["epsilon is chosen relative to the scale of the residuals"]
REQUIRE = {"solved": 60, "trace": 30, "LTS start": 10, "objective": 60, "exactly fitted observations": 60}


def cases(tier):
    q = tier == "quick"
    return (
        [{"kind": "solve", "fam": f, "i": r} for f in gen.REG for r in range(12 if q else 80)]
        + [{"kind": "trace", "i": r} for r in range(36 if q else 250)]
        + [{"kind": "zero", "i": r} for r in range(30 if q else 200)]
        + [{"kind": "policy", "i": r} for r in range(4 if q else 20)]
    )


def given(coef, scale):
    """A robust regression estimator that returns these coefficients, whatever the data."""
    from robpy.regression.base import RobustRegression

    class Given(RobustRegression):
        def fit(self, X, y):
            self._scale = scale
            return self

        def predict(self, X):
            return coef[0] + np.asarray(X, dtype=float) @ coef[1:]

    return Given()


def run(case, mon):
    from sklearn.exceptions import NotFittedError

    from robpy.regression import FastLTSRegression, MMRegression, SRegression
    from robpy.utils.rho import Huber, TukeyBisquare

    rng, i = mon.rng, case["i"]
    p = int(rng.integers(1, 5))
    n = int(rng.integers(12 * p + 10, 20 * p + 40))
    seed = int(rng.integers(1000))
    if case["kind"] == "policy":
        X, y, *_ = gen.reg(rng, "normal", n, p)
        mon.input(X, y)
        mon.raises(NotFittedError, lambda: MMRegression().predict(X), "predict before fit")
        mon.raises(NotFittedError, lambda: MMRegression().scale, "scale before fit")
        return
    if case["kind"] == "zero":
        X = rng.integers(-20, 21, (n, p)).astype(float)
        coef = rng.integers(-5, 6, p + 1).astype(float)
        e = rng.integers(-3, 4, n).astype(float)
        e[rng.choice(n, n // 6, replace=False)] *= 40
        y = coef[0] + X @ coef[1:] + e
        s = float(rng.choice([1.0, 1.5, 2.0]))
        k = int(rng.choice([1, 2, 5, 500]))
        mon.input(X, y)
        est = MMRegression(initial_estimator=given(coef, s), max_iterations=k, epsilon=1e-10).fit(X, y)
        A, r, fit, steps = np.column_stack([np.ones(n), X]), e, None, 0
        for steps in range(1, k + 1):
            sw = np.sqrt(ref.bisq_w(r / s, 3.44))
            fit = A @ np.linalg.lstsq(A * sw[:, None], y * sw, rcond=None)[0]
            last, r = r, y - fit
            if np.max(np.abs(last - r)) < 1e-10:
                break
        mon.close(np.asarray(est.predict(X)).ravel(), fit, "iterates from a start that fits observations exactly", atol=1e-6, n=n, p=p, k=k)
        mon.same(est.scale, s, "scale is not that of the initial estimator")
        mon.ok(k == 500 or est.n_iter == steps, "number of iterations", got=est.n_iter, want=steps)
        mon.seen("exactly fitted observations", int((e == 0).sum()))
        mon.note(n=n, p=p, exact=int((e == 0).sum()))
        return
    fam = case.get("fam") or gen.REG[i % len(gen.REG)]
    X, y, beta, a, out = gen.reg(rng, fam, n, p, eps=0.25)
    mon.input(X, y)
    style = i % 4

    def initial():
        if style == 2:
            return FastLTSRegression(n_initial_subsets=60, random_state=seed)
        if style == 1:
            return SRegression(n_initial_subsets=60, random_state=seed, max_scale_iterations=200)
        return SRegression(n_initial_subsets=60, random_state=seed)

    start = initial().fit(X, y)
    s = start.scale
    c = 3.44 if style == 0 else float(rng.choice([3.44, 4.685, 2.7]))
    rho, psi, weight = (lambda u: ref.bisq_rho(u, c)), (lambda u: u * ref.bisq_w(u, c)), (lambda u: ref.bisq_w(u, c))
    loss = TukeyBisquare(c=c)
    if style == 3:
        c = 1.345
        loss = Huber(b=c)
        rho = lambda u: np.where(np.abs(u) <= c, u**2 / 2, c * np.abs(u) - c**2 / 2)  # noqa: E731
        psi = lambda u: np.clip(u, -c, c)  # noqa: E731
        weight = lambda u: np.minimum(1.0, c / np.maximum(np.abs(u), 1e-300))  # noqa: E731
    eps = 1e-9 * s
    kw = dict(initial_estimator=initial(), epsilon=eps)
    if style:
        kw["rho"] = loss
    A = np.column_stack([np.ones(n), X])
    r0 = y - np.asarray(start.predict(X)).ravel()
    if case["kind"] == "solve":
        est = MMRegression(max_iterations=3000, **kw)
        mon.ok(est.fit(X, y) is est, "fit must return the estimator")
        fit = np.asarray(est.predict(X)).ravel()
        mon.close(est.scale, s, "scale is not that of the initial estimator", rtol=1e-9)
        co = np.linalg.lstsq(A, fit, rcond=None)[0]
        mon.close(A @ co / s, fit / s, "fit is not linear with intercept", rtol=1e-8, atol=1e-6)
        r = (y - fit) / s
        g = A.T @ psi(r) / np.linalg.norm(A, axis=0) / np.sqrt(n)
        mon.ok(np.max(np.abs(g)) < 1e-5, "estimating equations are not solved", equations=g, n=n, p=p, n_iter=est.n_iter, style=style)
        mon.ok(np.sum(rho(r)) <= np.sum(rho(r0 / s)) * (1 + 1e-9) + 1e-12, "loss above that of the initial estimator")
        mon.ok(est.n_iter < 3000, "no convergence", n_iter=est.n_iter)
        # the solution is a local minimum of the loss
        sd = 1 / np.sqrt((A**2).sum(axis=0))
        for _ in range(10):
            t = co + rng.standard_normal(p + 1) * sd * s * 10.0 ** rng.uniform(-2, -0.5)
            mon.ok(np.sum(rho((y - A @ t) / s)) >= np.sum(rho(r)) * (1 - 1e-9), "perturbed coefficients have a smaller loss")
        mon.seen("objective", 10)
        mon.seen("solved")
        mon.seen("LTS start", style == 2)
        mon.state(p, style, est.n_iter)
        mon.note(n=n, p=p, n_iter=est.n_iter, equations=float(np.max(np.abs(g))), scale=s)
        return
    k = int(rng.integers(1, 6))
    est = MMRegression(max_iterations=k, **kw).fit(X, y)
    r, used, fit = r0, 0, None
    for t in range(k):
        sw = np.sqrt(weight(r / s))
        fit = A @ np.linalg.lstsq(A * sw[:, None], y * sw, rcond=None)[0]
        new = y - fit
        used = t + 1
        stop = np.max(np.abs(new - r)) < eps
        r = new
        if stop:
            break
    mon.close(np.asarray(est.predict(X)).ravel() / s, fit / s, "iterates differ", rtol=1e-7, atol=1e-6, k=k, style=style)
    mon.ok(est.n_iter == used, "number of iterations", got=est.n_iter, want=used)
    mon.seen("trace")
    mon.note(n=n, p=p, k=k)
