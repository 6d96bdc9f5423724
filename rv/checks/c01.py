"""C01: the Qn scale is the exact order statistic of the pairwise differences."""
import numpy as np

from rv import gen, ref

RULE = (
    "one sample per case: 15 families (continuous, rounded, tied, contaminated, shifted, scaled) x sizes 2..400 (thorough: "
    "..3000) x both correction flags x location functions x dtypes; non-trivial: the fitted scale and location were compared "
    "with the k-th smallest of the explicitly enumerated pairwise differences"
)
ASSUME = ["rounding differences below 1e-9 relative are not defects"]
BUDGET = 300000
REQUIRE = {"ties at the order statistic": 5}


def cases(tier):
    out = []
    sizes = list(range(2, 41)) if tier == "quick" else list(range(2, 101))
    reps = 1 if tier == "quick" else 6
    for f in gen.UNI:
        for r in range(reps):
            for n in sizes:
                out.append({"kind": f, "n": n, "i": r})
            for big in (100, 201, 400) if tier == "quick" else (150, 301, 600, 1000, 3000):
                out.append({"kind": f, "n": big, "i": r})
    return out


CHUNK = 20


def run(case, mon):
    from robpy.univariate import Qn

    rng, n = mon.rng, case["n"]
    x = gen.uni(rng, case["kind"], n)
    mon.input(x)
    raw = ref.qn_raw(x)
    if np.sum(np.isclose(np.abs(np.diff(np.sort(x))), raw, rtol=1e-9)) > 1:
        mon.seen("ties at the order statistic")
    if raw == 0:
        mon.seen("zero scale")
    mon.state(n % 4, case["kind"], raw == 0)
    for finite in (True, False):
        for consistent in (True, False):
            est = Qn(finite_correction=finite, consistency_correction=consistent).fit(x.copy())
            want = raw * ref.qn_factor(n, finite, consistent)
            mon.close(est.scale, want, "Qn scale", rtol=1e-9, atol=1e-13 * np.max(np.abs(x)), n=n, finite=finite, consistent=consistent)
            mon.close(est.location, np.median(x), "Qn location", rtol=1e-12)
    mon.note(n=n, scale=est.scale, kth_difference=raw)
    est = Qn(location_func=np.mean).fit(x)
    mon.close(est.location, np.mean(x), "Qn location function", rtol=1e-12)
    if case["kind"] in ("integer", "huge"):
        xi = np.round(x).astype(rng.choice(["int64", "int32"]) if case["kind"] == "integer" else "int64")
        mon.close(
            Qn().fit(xi).scale, ref.qn_raw(xi) * ref.qn_factor(n), "Qn scale of integer data", rtol=1e-9
        )
        mon.seen("integer dtype")
    if n > 4:
        # missing values that are ignored take no part
        y = np.insert(x, rng.integers(0, n, 3), np.nan)
        mon.close(
            Qn().fit(y, ignore_nan=True).scale, raw * ref.qn_factor(n), "Qn scale ignoring NaN", rtol=1e-9,
            atol=1e-13 * np.max(np.abs(x)),
        )
        mon.seen("NaN ignored")
