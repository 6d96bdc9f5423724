"""C02: the univariate MCD is the global optimum over all subsets, followed by one reweighting."""
from itertools import combinations

import numpy as np

from rv import gen, ref
from rv.core import Skip

RULE = (
    "one sample per case: 15 families x sizes 3..60 and some of 150..1500 x subset sizes (default, integer, float, all) x "
    "consistency on/off; non-trivial: location and scale equal the reweighted estimates of an optimal subset found by "
    "enumerating all contiguous subsets (n <= 11: all subsets)"
)
ASSUME = ["a cutoff or optimum that is decided by less than 1e-9 relative may go either way"]
CHUNK = 20
BUDGET = 300000
REQUIRE = {"all subsets enumerated": 10, "subset size raised to the minimum": 5, "invalid alpha rejected": 10}


def cases(tier):
    reps = 1 if tier == "quick" else 10
    sizes = list(range(3, 33)) + [47, 60, 150, 401] + ([] if tier == "quick" else [800, 1500])
    return [{"kind": f, "n": n, "i": r} for f in gen.UNI for n in sizes for r in range(reps)] + [
        {"kind": "coincide", "n": n, "i": r} for n in sizes for r in range(reps)
    ]


def coincide(case, mon):
    """At least h observations coincide: their value is the location, the scale is zero."""
    from robpy.univariate import UnivariateMCD

    rng, n = mon.rng, case["n"]
    k = int(rng.integers(n // 2 + 1, n + 1))
    v = float(rng.choice([0.0, 1.0, -2.5, 1e6]))
    x = np.full(n, v)
    at = rng.choice(n, n - k, replace=False)
    x[at] += rng.standard_normal(n - k) * 10.0 ** rng.integers(-2, 3)
    mon.input(x)
    for alpha in (None, 0.5, n // 2 + 1):
        for consistent in (True, False):
            if ref.uni_h(n, alpha) > k:
                continue
            est = UnivariateMCD(alpha=alpha, consistency_correction=consistent).fit(x)
            mon.close(est.location, v, "location when h observations coincide", rtol=1e-12, atol=1e-12, n=n, k=k)
            mon.ok(est.scale == 0 or abs(est.scale) < 1e-9 * max(1.0, abs(v)), "scale when h observations coincide", got=est.scale, n=n, k=k)
            mon.seen("h coincide")


def accept(mon, x, est, h, consistent, where):
    n = len(x)
    loc, scale = float(est.location), float(est.scale)
    tol = 1e-9 * np.max(np.abs(x))
    if h == n:
        mon.close(loc, x.mean(), where + ": location of all observations", rtol=1e-9, atol=tol)
        mon.close(scale, x.std(), where + ": scale of all observations", rtol=1e-7, atol=tol)
        return
    v, m = ref.uni_mcd_candidates(x, h)
    best = v.min()
    noise = 1e-9 * best + 1e-13 * np.max(np.abs(x)) ** 2 * 1e-10
    cand = np.flatnonzero(v <= best + noise)
    if len(cand) > 1:
        mon.seen("several optimal subsets")
    f = ref.uni_mcd_factor(h / n) if consistent else 1.0
    near = None
    for i in cand:
        l, s, margin = ref.uni_mcd_reweight(x, m[i], v[i] * f, consistent)
        s = np.sqrt(s)
        if abs(loc - l) <= tol + 1e-8 * abs(l) and abs(scale - s) <= tol + 1e-7 * s:
            mon.ok(True, where)
            return
        if margin is None or margin < 1e-6:
            near = margin if margin is not None else 0.0
        else:
            want = (l, s)
    if near is not None:
        raise Skip("an observation lies on the cutoff")
    mon.ok(False, where + ": not the reweighted MCD", n=n, h=h, got=(loc, scale), want=want)


def run(case, mon):
    from robpy.univariate import UnivariateMCD

    rng, n = mon.rng, case["n"]
    if case["kind"] == "coincide":
        return coincide(case, mon)
    x = gen.uni(rng, case["kind"], n)
    mon.input(x)
    if n <= 11:
        # the optimal subset of the sorted data is contiguous: confirm on all subsets
        h = n // 2 + 1
        v = min(np.var(x[list(c)]) for c in combinations(range(n), h))
        mon.close(ref.uni_mcd_candidates(x, h)[0].min(), v, "reference optimum", rtol=1e-6, atol=1e-14 * np.max(np.abs(x)) ** 2)
        mon.seen("all subsets enumerated")
    ints = [int(a) for a in rng.integers(int(np.ceil(n / 2)), n + 1, 2)]
    floats = [round(float(a), 3) for a in rng.uniform(0.5, 1, 2)]
    for alpha in [None, *ints, *floats, 1, 1.0, n]:
        if isinstance(alpha, int) and alpha not in (1,) and not (n / 2 <= alpha <= n):
            continue
        h = ref.uni_h(n, alpha)
        if alpha is not None and h == n // 2 + 1 and (alpha if isinstance(alpha, int) else int(alpha * n)) < h:
            mon.seen("subset size raised to the minimum")
        for consistent in (True, False):
            est = UnivariateMCD(alpha=alpha, consistency_correction=consistent).fit(x.copy())
            accept(mon, x, est, h, consistent, f"alpha={alpha} consistency={consistent}")
    mon.state(case["kind"], n)
    mon.note(n=n, location=est.location, scale=est.scale)
    for bad in (0.49, 1.01, -0.5, n + 1, max(2, int(np.ceil(n / 2)) - 1), "x"):
        if isinstance(bad, int) and n / 2 <= bad <= n:
            continue
        mon.raises(ValueError, lambda: UnivariateMCD(alpha=bad).fit(x), f"alpha={bad!r} must be rejected")
        mon.seen("invalid alpha rejected")
