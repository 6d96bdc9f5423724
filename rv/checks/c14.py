"""C14: FAST-LTS ends in a concentrated h-subset of low loss, with the prescribed scale and reweighting."""
from itertools import combinations

import numpy as np

from rv import gen, ref

RULE = (
    "'fit': families x sizes x alpha x settings: subset, fixed point, loss, scale and reweighting recomputed; 'enumerate': all h-subsets "
    "of small data; 'random': 25 fully concentrated random starts; 'weights': start from given coefficients; 'candidates': 1, 3 and all candidates followed from the same starts on data with several lines; 'policy': alpha = 1, "
    "bad alpha, not fitted. Non-trivial: coefficients and scale were judged"
)
ASSUME = ["n >= 2p + 2 (below that the published small-sample correction is not positive)"]
REQUIRE = {"fit": 80, "reweighted": 40, "enumerated": 10, "random starts": 20, "given start": 10, "policy": 5, "large p": 10, "candidates": 20, "more candidates helped": 3}


def cases(tier):
    q = tier == "quick"
    out = [{"kind": "fit", "fam": f, "i": r} for f in gen.REG for r in range(16 if q else 120)]
    out += [{"kind": "enumerate", "i": r} for r in range(16 if q else 100)]
    out += [{"kind": "random", "i": r} for r in range(24 if q else 200)]
    out += [{"kind": "weights", "i": r} for r in range(16 if q else 100)]
    out += [{"kind": "candidates", "i": r} for r in range(24 if q else 200)]
    out += [{"kind": "policy", "i": r} for r in range(5 if q else 20)]
    return out


def coefficients(est, p):
    """Intercept and slopes, from predictions only."""
    P = np.asarray(est.predict(np.vstack([np.zeros(p), np.eye(p)])), dtype=float).ravel()
    return np.concatenate([P[:1], P[1:] - P[0]])


def run(case, mon):
    from sklearn.exceptions import NotFittedError

    from robpy.regression import FastLTSRegression

    rng, i = mon.rng, case["i"]
    quiet = 40
    if case["kind"] == "fit":
        p = [1, 2, 3, 5][i % 4]
        n = int(rng.integers(6 * p + 10, 14 * p + 40))
        X, y, beta, a, out = gen.reg(rng, case["fam"], n, p)
        mon.input(X, y)
        alpha = float(rng.choice([0.5, 0.6, 0.75, 0.875, 0.9, 0.95]))
        kw = dict(
            alpha=alpha, n_initial_subsets=int(rng.choice([20, 60])), n_initial_c_steps=int(rng.choice([1, 2, 4])),
            n_best_models=int(rng.choice([1, 5, 10])), random_state=int(rng.integers(10000)),
        )
        h = max(int(n * alpha), int((n + p + 1) / 2))
        raw = FastLTSRegression(reweighting=False, **kw)
        mon.ok(raw.fit(X, y, verbosity=quiet) is raw, "fit must return the estimator")
        idx = np.asarray(raw.best_h_subset)
        mon.ok(len(idx) == h and len(set(idx.tolist())) == h and idx.min() >= 0 and idx.max() < n, "not a subset of h distinct observations", h=h, got=len(idx))
        b = ref.ls(X[idx], y[idx])
        sc = np.std(y)
        fit = np.asarray(raw.predict(X)).ravel()
        mon.close(fit / sc, ref.lin(b, X) / sc, "fit is not least squares on the reported subset", rtol=1e-6, atol=1e-7)
        r = y - fit
        loss = np.mean(r[idx] ** 2)
        mon.ok(np.sort(r**2)[:h].mean() >= loss * (1 - 1e-9), "another selection of the same fit has a lower loss: not concentrated")
        b2, _, loss2 = ref.lts_steps(X, y, b, h)
        mon.ok(loss2 >= loss * (1 - 1e-9) - 1e-15, "a further C-step lowers the loss", loss=loss, after=loss2)
        hf = h / n
        from scipy.stats import norm

        q = norm.ppf((1 + hf) / 2)
        cons = 1 / np.sqrt(1 - 2 * q * norm.pdf(q) / hf) if h < n else 1.0
        want = ref.lts_correction(p, n, alpha, ref.LTS_RAW) * cons * np.sqrt(loss)
        mon.close(raw.scale, want, "raw scale", rtol=1e-7, n=n, p=p, alpha=alpha)
        rew = FastLTSRegression(reweighting=True, **kw).fit(X, y, verbosity=quiet)
        mon.same(np.sort(rew.best_h_subset), np.sort(idx), "reweighting must not change the subset")
        cut = norm.ppf(0.9875) * want
        if np.min(np.abs(np.abs(r) - cut)) > 1e-8 * cut:
            keep = np.abs(r) <= cut
            bw = ref.ls(X[keep], y[keep])
            mon.close(np.asarray(rew.predict(X)).ravel() / sc, ref.lin(bw, X) / sc, "reweighted fit is not least squares on the observations with small residuals", rtol=1e-6, atol=1e-7)
            s = ref.lts_correction(p, n, alpha, ref.LTS_REW) * np.sqrt(np.mean((y[keep] - ref.lin(bw, X[keep])) ** 2))
            mon.close(rew.scale, s, "reweighted scale", rtol=1e-7, n=n, p=p, alpha=alpha)
            mon.seen("reweighted")
            mon.seen("rejected by reweighting", n - keep.sum())
        mon.seen("fit")
        mon.seen("large p", p >= 3)
        mon.state(p, h, n)
        mon.note(n=n, p=p, alpha=alpha, h=h, loss=loss, scale=raw.scale)
        return
    if case["kind"] == "candidates":
        X, y = gen.lines(rng)
        mon.input(X, y)
        n, p = X.shape
        kw = dict(n_initial_subsets=12, n_initial_c_steps=int(i % 2), random_state=int(rng.integers(10000)), alpha=float(rng.choice([0.5, 0.6])), reweighting=False)
        losses = []
        for k in (1, 3, 12):
            e = FastLTSRegression(n_best_models=k, **kw).fit(X, y, verbosity=quiet)
            h = max(int(n * kw["alpha"]), int((n + p + 1) / 2))
            losses.append(np.sort((y - np.asarray(e.predict(X)).ravel()) ** 2)[:h].mean())
        mon.ok(losses[2] <= losses[1] * (1 + 1e-9) and losses[1] <= losses[0] * (1 + 1e-9), "following more candidates ends in a higher loss", losses=losses)
        mon.seen("candidates")
        mon.seen("more candidates helped", losses[2] < losses[0] * (1 - 1e-6))
        mon.note(n=n, p=p, losses=losses)
        return
    if case["kind"] == "enumerate":
        n = int(rng.integers(8, 13))
        p = 1 if i % 2 else 2
        X, y, *_ = gen.reg(rng, ["normal", "t3", "vertical", "cluster"][i % 4], n, p, eps=0.3)
        mon.input(X, y)
        h = max(int(n * 0.5), int((n + p + 1) / 2))
        best = min(np.mean((y[list(c)] - ref.lin(ref.ls(X[list(c)], y[list(c)]), X[list(c)])) ** 2) for c in combinations(range(n), h))
        est = FastLTSRegression(reweighting=False, random_state=int(rng.integers(1000))).fit(X, y, verbosity=quiet)
        idx = np.asarray(est.best_h_subset)
        loss = np.mean((y[idx] - np.asarray(est.predict(X)).ravel()[idx]) ** 2)
        mon.ok(loss >= best * (1 - 1e-9), "loss below the optimum over all subsets", loss=loss, best=best)
        mon.ok(loss <= best * 1.2 + 1e-15, "loss far from the optimum over all subsets", loss=loss, best=best, n=n, p=p)
        mon.seen("enumerated")
        mon.note(n=n, p=p, ratio=loss / best)
        return
    if case["kind"] == "random":
        p = int(rng.integers(1, 5))
        n = int(rng.integers(10 * p + 10, 20 * p + 30))
        X, y, *_ = gen.reg(rng, ["normal", "leverage", "cluster", "vertical", "t3"][i % 5], n, p, eps=0.35)
        mon.input(X, y)
        h = max(int(n * 0.5), int((n + p + 1) / 2))
        ends = []
        for _ in range(25):
            s = rng.permutation(n)[: p + 1]
            ends.append(ref.lts_steps(X, y, ref.ls(X[s], y[s]), h)[2])
        est = FastLTSRegression(reweighting=False, random_state=int(rng.integers(1000))).fit(X, y, verbosity=quiet)
        idx = np.asarray(est.best_h_subset)
        loss = np.mean((y[idx] - np.asarray(est.predict(X)).ravel()[idx]) ** 2)
        mon.ok(loss <= 1.05 * min(ends), "loss above that of a few random starts", loss=loss, random=min(ends), n=n, p=p)
        mon.seen("random starts")
        mon.note(n=n, p=p, ratio=loss / min(ends))
        return
    p = int(rng.integers(1, 4))
    n = int(rng.integers(30, 70))
    if case["kind"] == "weights":
        X, y, beta, a, _ = gen.reg(rng, ["normal", "leverage", "cluster", "vertical"][i % 4], n, p)
        mon.input(X, y)
        w = np.concatenate([[a], beta]) + rng.normal(0, float(rng.choice([0.1, 3.0])), p + 1)
        h = max(int(n * 0.75), int((n + p + 1) / 2))
        est = FastLTSRegression(alpha=0.75, n_initial_subsets=1, n_best_models=1, reweighting=False).fit(X, y, initial_weights=w.copy(), verbosity=quiet)
        b, idx, loss = ref.lts_steps(X, y, w, h, tol=1e-15)
        got = np.asarray(est.best_h_subset)
        lg = np.mean((y[got] - np.asarray(est.predict(X)).ravel()[got]) ** 2)
        mon.close(lg, loss, "C-steps from given coefficients end elsewhere", rtol=1e-6)
        mon.same(np.sort(got), np.sort(idx), "subset of the C-steps from given coefficients")
        mon.seen("given start")
        return
    X, y, *_ = gen.reg(rng, "t3", n, p)
    mon.input(X, y)
    mon.raises(NotFittedError, lambda: FastLTSRegression().predict(X), "predict before fit")
    mon.raises(NotFittedError, lambda: FastLTSRegression().scale, "scale before fit")
    for bad in (0.4, 1.1, -1, 0.49):
        mon.raises(ValueError, lambda: FastLTSRegression(alpha=bad).fit(X, y, verbosity=quiet), "alpha outside [0.5, 1]")
    est = FastLTSRegression(alpha=1.0, reweighting=False, n_initial_subsets=5).fit(X, y, verbosity=quiet)
    b = ref.ls(X, y)
    mon.close(np.asarray(est.predict(X)).ravel(), ref.lin(b, X), "alpha = 1 is least squares", rtol=1e-8, atol=1e-8)
    mon.close(est.scale, np.sqrt(np.mean((y - ref.lin(b, X)) ** 2)), "scale for alpha = 1", rtol=1e-8)
    mon.close(coefficients(est, p), b, "coefficients for alpha = 1", rtol=1e-8, atol=1e-8)
    mon.seen("policy")
