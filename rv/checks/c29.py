"""C29: the spatial median minimises the sum of distances; Stahel-Donoho outlyingness is the maximum over data directions."""
from itertools import combinations

import numpy as np
from scipy.optimize import minimize

from rv import gen
from rv.core import Skip

RULE = (
    "l1median: random, collinear, one-variable, coinciding, majority-at-a-point, far and badly scaled data; its objective against that of an independent minimiser, optimality conditions, equivariance, breakdown. "
    "stahel_donoho: samples so small that all directions can be listed and so many draws that all of them are drawn (a miss has probability below 1e-15); each single draw must be one of them. Non-trivial: compared"
)
ASSUME = ["n_points is 2 or the number of variables (otherwise the direction is not unique)"]
REQUIRE = {"objective": 60, "constant coordinate": 10, "at a data point": 8, "one variable": 8, "breakdown": 8, "small integer samples": 4000, "all directions": 30, "hyperplanes": 6, "single direction": 200, "coinciding points": 10, "outliers on top": 10}
CHUNK = 6


def cases(tier):
    q = tier == "quick"
    out = []
    for k, n in (("objective", 80), ("point", 16), ("line", 12), ("equivariance", 20), ("breakdown", 12), ("integers", 12)):
        out += [{"kind": "l1-" + k, "i": r} for r in range(n if q else n * 60)]
    for k, n in (("pairs", 36), ("hyperplanes", 18), ("single", 16), ("ties", 16), ("equivariance", 20), ("outliers", 16), ("seed", 12)):
        out += [{"kind": "sd-" + k, "i": r} for r in range(n if q else n * 25)]
    return out


def total(X, m):
    return float(np.sum(np.sqrt(np.sum((X - m) ** 2, axis=1))))


def best(X, start):
    """Independent minimiser: quasi-Newton from several starts, and every observation."""
    s = np.median(np.abs(X - np.median(X, axis=0))) or np.std(X) or 1.0
    cands = [start, np.median(X, axis=0), X.mean(axis=0)]
    f = lambda u: total(X, u * s) / s

    def g(u):
        D = u * s - X
        d = np.sqrt(np.sum(D * D, axis=1))
        return np.sum(D[d > 0] / d[d > 0][:, None], axis=0)

    vals = [total(X, c) for c in cands] + [total(X, x) for x in X]
    for c in cands:
        r = minimize(f, c / s, jac=g, method="BFGS", options={"gtol": 1e-9, "maxiter": 500})
        vals.append(total(X, r.x * s))
    return min(vals)


def directions(X, k):
    out = []
    for I in combinations(range(len(X)), k):
        if k == 2:
            d = X[I[0]] - X[I[1]]
        else:
            B = X[list(I[1:])] - X[I[0]]
            # generalised cross product: orthogonal to all differences
            d = np.array([(-1) ** j * np.linalg.det(np.delete(B, j, axis=1)) for j in range(X.shape[1])])
        nrm = np.linalg.norm(d)
        out.append(d / nrm if nrm > 0 else d * 0)
    return np.array(out)


def outlyingness(X, d):
    t = X @ d
    dev = np.abs(t - np.median(t))
    return dev / np.median(dev)


def l1(case, mon):
    from robpy.utils.median import l1median

    rng, i, kind = mon.rng, case["i"], case["kind"][3:]
    p = int(rng.integers(1, 6))
    n = int(rng.choice([3, 4, 5, 8, 15, 40, 120]))
    if kind == "objective":
        fam = ("gauss", "t3", "cluster", "shifted", "cells")[i % 5]
        X = gen.multi(rng, fam, n, p)
        if i % 4 == 1:
            X = np.round(X, 0)  # ties
        if i % 4 == 2:
            X = X * 10.0 ** rng.uniform(-0.7, 0.7, p)
        if i % 4 == 3:
            X = X * 10.0 ** int(rng.integers(-6, 7))
        if i % 3 == 1 and i % 4 != 3 and p > 1 and fam != "cells":
            # a coordinate that is right from the start, others that are not
            X[:, 1:] = np.exp(rng.uniform(0.5, 1.2) * rng.standard_normal((n, p - 1)))
            X[:, int(rng.integers(p)) if i % 2 else 0] = float(rng.choice([0.0, 3.0]))
            mon.seen("constant coordinate")
        mon.input(X)
        keep = X.copy()
        m = l1median(X)
        mon.ok(np.array_equal(X, keep), "argument unchanged")
        mon.ok(np.shape(m) == (p,) and np.all(np.isfinite(m)), "a finite vector", m=m)
        f, b = total(X, m), best(X, m)
        mon.ok(f <= b * (1 + 1e-5) + 1e-12 * np.max(np.abs(X)), "not the minimum of the sum of distances", got=f, best=b, family=fam, n=n, p=p)
        if p == 1:
            s = np.sort(X[:, 0])
            width = s[-1] - s[0]
            mon.ok(s[(n - 1) // 2] - 1e-4 * width <= m[0] <= s[n // 2] + 1e-4 * width, "one variable: the median", got=m[0])
            mon.seen("one variable")
        mon.seen("objective")
        mon.state(fam, n, p)
    elif kind == "point":
        # at least half of the observations in one place: exactly the median
        X = gen.multi(rng, "t3", n, p)
        k = n // 2 + 1
        X[rng.permutation(n)[:k]] = c = rng.standard_normal(p) * 3
        mon.input(X)
        m = l1median(X)
        s = np.max(np.abs(X - c))
        mon.close(m, c, "more than half of the observations in one place: the median is there", atol=1e-5 * s, n=n, p=p)
        mon.ok(total(X, m) <= total(X, c) * (1 + 1e-5), "objective")
        # all the same; one, two observations
        mon.close(l1median(np.tile(c, (n, 1))), c, "all observations equal", rtol=1e-12)
        mon.close(l1median(c[None]), c, "one observation", rtol=1e-12)
        two = l1median(np.vstack([c, c + 1]))
        mon.ok(np.all(two >= c - 1e-9) and np.all(two <= c + 1 + 1e-9), "two observations: between them")
        mon.seen("at a data point")
        mon.state(kind, n, p)
    elif kind == "integers":
        # steps of the algorithm land on or next to observations that are not the median
        fixed = [np.array([0.0, 0, 1, -1, -15])[:, None]] if i == 0 else []
        mon.input(rng.integers(0, 1 << 30, 1))
        for X in fixed + [rng.integers(-20, 21, (int(rng.integers(3, 8)), 1)).astype(float) for _ in range(400)]:
            m = l1median(X)
            least = total(X, np.median(X, axis=0))
            mon.ok(total(X, m) <= least * (1 + 1e-5) + 1e-9, "not the minimum of the sum of distances", X=X[:, 0], got=m, best=least)
        mon.seen("small integer samples", 400)
    elif kind == "line":
        a, b = rng.standard_normal(p) * 3, rng.standard_normal(p)
        t = gen.uni(rng, ("normal", "t2", "lognormal", "integer")[i % 4], n)
        X = a + np.outer(t, b)
        mon.input(X)
        m = l1median(X)
        s = np.sort(t)
        u = (m - a) @ b / (b @ b)
        width = s[-1] - s[0]
        mon.ok(s[(n - 1) // 2] - 1e-4 * width <= u <= s[n // 2] + 1e-4 * width, "on a line: the median along it", got=u)
        mon.close(m, a + u * b, "on the line", atol=1e-7 * (width * np.linalg.norm(b) + np.linalg.norm(a)))
        mon.state(kind, n, p)
    elif kind == "equivariance":
        n = max(n, 8)
        X = gen.multi(rng, "t3", n, p)
        mon.input(X)
        Q = np.linalg.qr(rng.standard_normal((p, p)))[0]
        c, v = float(10 ** rng.uniform(-4, 4)), rng.standard_normal(p) * 10
        m, m2 = l1median(X), l1median(c * X @ Q.T + v)
        d = np.median(np.sqrt(np.sum((X - m) ** 2, axis=1)))
        # the minimum can be flat (one variable): judged by the objective
        back = (m2 - v) @ Q / c
        mon.close(total(X, back), total(X, m), "orthogonal equivariance", rtol=1e-5)
        if p > 1:
            mon.close(back, m, "orthogonal equivariance", atol=2e-2 * d)
        mon.close(total(X, l1median(X[rng.permutation(n)])), total(X, m), "independent of the order", rtol=1e-5)
        mon.state(kind, n, p)
    else:
        n = max(n, 15)
        X = rng.standard_normal((n, p))
        k = int(0.4 * n)
        far = 10.0 ** int(rng.integers(2, 8))
        X[:k] = far * (1 + 0.1 * rng.standard_normal((k, p)))
        mon.input(X)
        m = l1median(X)
        bound = 2 * n / (n - 2 * k) * np.max(np.linalg.norm(X[k:], axis=1))
        mon.ok(np.linalg.norm(m) <= bound, "40% far outliers carry the spatial median away", got=m, far=far, bound=bound)
        mon.seen("breakdown")
        mon.state(kind, n, p, far)


def sd(case, mon):
    from robpy.utils.outlyingness import stahel_donoho

    rng, i, kind = mon.rng, case["i"], case["kind"][3:]
    if kind in ("pairs", "hyperplanes", "single"):
        k = 2
        p = int(rng.integers(1, 5)) if kind == "pairs" else int(rng.integers(2, 4))
        if kind == "hyperplanes":
            k = p = int(rng.integers(3, 5))
        if kind == "single" and i % 2:
            k = p = 3
        n = int(rng.integers(5, 10)) if k == 2 else 7
        X = gen.multi(rng, ("gauss", "t3", "shifted")[i % 3], n, p) if p > 1 else rng.standard_t(3, (n, 1))
        if kind == "pairs" and i % 4 == 3:
            X = X * 10.0 ** rng.uniform(-2, 2, p)
        mon.input(X)
        all_out = np.array([outlyingness(X, d) for d in directions(X, k)])
        if not np.all(np.isfinite(all_out)):
            raise Skip("a direction without scale")
        if np.max(all_out) > 1e6:
            raise Skip("nearly no scale")
        if kind == "single":
            kw = {} if k == 2 else {"n_points": k}
            for s in range(20):
                got = stahel_donoho(X, n_dir=1, random_seed=s, **kw)
                gap = np.min(np.max(np.abs(all_out - got) / (1 + all_out), axis=1))
                mon.ok(gap < 1e-7, "not the outlyingness along a direction through data points", n_points=k, gap=gap)
                mon.seen("single direction")
        else:
            m = len(all_out)
            n_dir = 40 * m
            got = stahel_donoho(X, n_points=k, n_dir=n_dir, random_seed=int(rng.integers(1000)))
            mon.ok(np.shape(got) == (n,), "one value per observation")
            mon.close(got, all_out.max(axis=0), "the maximum over all directions through data points", rtol=1e-7, atol=1e-8, n=n, p=p, n_points=k)
            few = stahel_donoho(X, n_points=k, n_dir=int(rng.integers(1, 30)), random_seed=i)
            mon.ok(np.all(few <= all_out.max(axis=0) * (1 + 1e-7) + 1e-8) and np.all(few >= 0), "fewer directions: not larger")
            mon.seen("all directions")
            if k > 2:
                mon.seen("hyperplanes")
        mon.state(kind, n, p, k)
    elif kind == "ties":
        p, n = int(rng.integers(1, 4)), int(rng.integers(8, 20))
        X = rng.standard_normal((n, p))
        k = int(rng.integers(2, n // 2))
        X[:k] = X[0]
        if i % 3 == 0:
            X[: n // 2 + 2] = X[0]
        mon.input(X)
        got = stahel_donoho(X, n_dir=200, random_seed=i)
        mon.ok(not np.any(np.isnan(got)), "coinciding observations give NaN", got=got)
        mon.ok(np.all(got >= 0), "negative outlyingness")
        if i % 3 == 0:
            mon.ok(np.max(got[: n // 2 + 2]) < 1e-3 * np.min(got[n // 2 + 2 :]), "the majority in one point is least outlying", got=got)
        mon.seen("coinciding points")
        mon.state(kind, n, p, k)
    elif kind == "equivariance":
        p = int(rng.integers(2, 5))
        n = int(rng.integers(20, 60))
        X = gen.multi(rng, ("gauss", "t3", "cluster")[i % 3], n, p)
        mon.input(X)
        hyper = bool(i % 2) and p > 2
        kw = dict(n_points=p if hyper else 2, n_dir=60, random_seed=i)
        A = np.linalg.qr(rng.standard_normal((p, p)))[0]
        if hyper:
            A = A @ np.diag(rng.uniform(0.3, 3, p)) @ np.linalg.qr(rng.standard_normal((p, p)))[0]
        base = stahel_donoho(X, **kw)
        if base.max() > 1e6:
            raise Skip("nearly no scale")
        moved = stahel_donoho(X @ A.T * float(10 ** rng.uniform(-3, 3)) + rng.standard_normal(p), **kw)
        mon.close(moved, base, "affine invariance" if hyper else "orthogonal invariance", rtol=1e-5, atol=1e-6, n_points=kw["n_points"])
        mon.state(kind, p, hyper)
    elif kind == "outliers":
        p, n = int(rng.integers(2, 6)), int(rng.integers(40, 90))
        X = rng.standard_normal((n, p)) @ np.linalg.qr(rng.standard_normal((p, p)))[0]
        k = int(0.2 * n)
        X[:k] += 60 * rng.standard_normal(p) / np.sqrt(p) + 0
        if np.linalg.norm(X[:k].mean(axis=0)) < 30:
            raise Skip("outliers too near")
        mon.input(X)
        got = stahel_donoho(X, random_seed=i)  # documented default: 250 pairs
        mon.ok(np.min(got[:k]) > np.max(got[k:]), "far outliers are not the most outlying", outlying=np.min(got[:k]), regular=np.max(got[k:]))
        mon.seen("outliers on top")
        mon.state(kind, n, p)
    else:
        X = rng.standard_normal((30, 3))
        mon.input(X)
        a = stahel_donoho(X, n_dir=10, random_seed=i)
        mon.same(stahel_donoho(X, n_dir=10, random_seed=i), a, "the same seed gives the same result")
        b = [stahel_donoho(X, n_dir=10, random_seed=s) for s in range(5)]
        mon.ok(len({v.tobytes() for v in b}) > 1, "the seed has no effect")
        c = [stahel_donoho(X, n_dir=10) for s in range(4)]
        mon.ok(len({v.tobytes() for v in c}) > 1, "without a seed all calls give the same")
        mon.state(kind)


def run(case, mon):
    (l1 if case["kind"].startswith("l1") else sd)(case, mon)
    mon.note(kind=case["kind"])
