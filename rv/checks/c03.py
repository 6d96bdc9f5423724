"""C03: Tau, the one-step M-estimators and the wrapping estimator follow their defining formulas."""
import numpy as np

from rv import gen, ref
from rv.core import Skip

RULE = (
    "one sample per case: 15 families and degenerate samples (majority coincides, everything coincides, two values) x sizes "
    "2..300 x estimator constants; non-trivial: location and scale were compared with the closed-form reference"
)
ASSUME = ["samples where an observation lies within 1e-9 of a cutoff of a discontinuous weight are not judged"]
CHUNK = 20
BUDGET = 50000
REQUIRE = {"majority coincides": 10, "beyond the weight cutoff": 20}


def cases(tier):
    reps = 1 if tier == "quick" else 12
    sizes = list(range(2, 26)) + [40, 75, 150, 300]
    out = [{"kind": f, "n": n, "i": r} for f in gen.UNI for n in sizes for r in range(reps)]
    out += [
        {"kind": f, "n": n, "i": r}
        for f in ("majority", "constant", "two_values", "near_majority")
        for n in (4, 5, 9, 20, 41)
        for r in range(reps)
    ]
    return out


def sample(rng, case):
    n, kind = case["n"], case["kind"]
    if kind == "majority":
        x = np.full(n, 2.5)
        k = (n - 1) // 2
        x[:k] = rng.standard_normal(k) * 10
        return rng.permutation(x)
    if kind == "near_majority":
        x = np.full(n, -1.25)
        k = n // 2 + 1
        x[:k] = rng.standard_normal(k) * 10
        return rng.permutation(x)
    if kind == "constant":
        return np.full(n, 3.75)
    if kind == "two_values":
        return rng.permutation(np.repeat([1.0, 4.0], [n // 2, n - n // 2]))
    return gen.uni(rng, kind, n)


def run(case, mon):
    from robpy.univariate import CellwiseOneStepM, HuberOneStepM, OneStepM, OneStepWrapping, Tau
    from robpy.utils.rho import Huber, TukeyBisquare

    rng = mon.rng
    x = sample(rng, case)
    mon.input(x)
    tol = 1e-10 * np.max(np.abs(x))
    m = ref.mad(x, normal=False)
    if m == 0:
        mon.seen("majority coincides")
    elif np.any(np.abs(x - np.median(x)) > 4.5 * m):
        mon.seen("beyond the weight cutoff")
    mon.state(case["kind"], m == 0, np.any(np.abs(x - np.median(x)) > 4.5 * m))

    def check(est, want, name):
        mon.close(est.location, want[0], name + " location", rtol=1e-7, atol=tol, n=len(x))
        mon.close(est.scale, want[1], name + " scale", rtol=1e-7, atol=tol, n=len(x))

    for cons in (True, False):
        check(Tau(consistency_correction=cons).fit(x.copy()), ref.tau(x, consistent=cons), f"Tau(consistency={cons})")
    c1, c2 = float(rng.uniform(2, 8)), float(rng.uniform(1, 6))
    check(Tau(c1=c1, c2=c2).fit(x), ref.tau(x, c1, c2), f"Tau(c1={c1},c2={c2})")
    check(HuberOneStepM().fit(x), ref.one_step_m(x, "huber"), "HuberOneStepM")
    check(CellwiseOneStepM().fit(x), ref.one_step_m(x, "cellwise"), "CellwiseOneStepM")
    # general: location weights and scale function of other families
    b, c, delta = float(rng.uniform(0.5, 4)), float(rng.uniform(2, 6)), float(rng.uniform(0.5, 1.5))
    est = OneStepM(loc_rho=Huber(b=b), scale_rho=TukeyBisquare(c=c), delta=delta).fit(x)
    mm = m / 0.6744897501960817
    med = np.median(x)
    u = (x - med) / (mm if mm >= 1e-12 else 1.0)
    w = np.minimum(1.0, b / np.maximum(np.abs(u), 1e-300))
    s = mm * np.sqrt(np.mean((u * ref.bisq_w(u, c)) ** 2) / delta) if mm >= 1e-12 else 0.0
    check(est, (np.sum(w * x) / np.sum(w), s), f"OneStepM(Huber({b}),bisquare({c}),{delta})")
    est = OneStepM(loc_rho=Huber(b=b), scale_rho=Huber(b=c), delta=delta, min_abs_scale=mm * 2 + 1e-6).fit(x)
    mon.ok(est.scale == 0, "OneStepM below min_abs_scale has scale 0", scale=est.scale)
    mon.note(n=len(x), tau=ref.tau(x), huber=ref.one_step_m(x, "huber"))

    # wrapping: MCD start, hyperbolic tangent weights
    n = len(x)
    if n >= 3:
        h = n // 2 + 1
        v, _ = ref.uni_mcd_candidates(x, h)
        gap = np.sort(v)[1] - v.min() if len(v) > 1 and h < n else np.inf
        loc, scale, margin = ref.one_step_wrapping(x)
        est = OneStepWrapping().fit(x)
        if v.min() > 0 and (gap <= 1e-7 * v.min() or margin < 1e-7):
            mon.seen("wrapping start is a tie")
            return
        if v.min() <= 1e-18 * np.max(np.abs(x)) ** 2:
            mon.seen("wrapping start has rounding-level scale")
            if np.ptp(np.sort(x)[:h]) == 0 or np.any([np.ptp(np.sort(x)[i : i + h]) == 0 for i in range(n - h + 1)]):
                mon.close(est.scale, 0, "OneStepWrapping scale when h observations coincide", atol=tol)
            return
        u = np.abs(x - ref.uni_mcd(x)[0]) / scale
        if np.min(np.abs(u - 1.5)) < 1e-7 or np.min(np.abs(u - 4)) < 1e-7:
            mon.seen("wrapping observation on the cutoff")
            return
        mon.close(est.location, loc, "OneStepWrapping location", rtol=1e-7, atol=tol, n=n)
        mon.close(est.scale, scale, "OneStepWrapping scale", rtol=1e-7, atol=tol, n=n)
        mon.seen("wrapping compared")
