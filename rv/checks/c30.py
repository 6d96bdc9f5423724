"""C30: every fit ends, and ends with numbers or an error, whatever the data."""
import numpy as np
import pandas as pd

from rv import zoo
from rv.core import PROBE, StepBudget

RULE = (
    "every estimator and function on hostile data: constant, binary and duplicated columns and rows, majorities in one point, rounding, few observations, collinear and nearly collinear columns, far outliers, "
    "large offsets, huge and tiny units, all-equal responses. Monitor: loop iterations inside robpy (sys.monitoring JUMP events) per call. Non-trivial: the call ended within the step bound"
)
ASSUME = ["bound: 300 000 loop iterations (20 000 to 60 000 for estimators that need fewer) for at most 80 observations (the largest count of regular runs is recorded in the evidence)", "exceptions are allowed answers for degenerate data"]
REQUIRE = {"ended": 800, "results": 500, "refused": 30}
CHUNK = 4
LIMIT = 300_000
# these need fewer (at most 2700 on regular runs), and an endless loop may have ever longer iterations
LIMITS = {"FastMCD": 20_000, "FastMCD(0.75)": 20_000, "FastMCD(partitions)": 20_000, "KendallTau": 30_000, "DDC": 20_000, "OGK": 20_000, "ROBPCA": 60_000, "ROBPCA(0.6, no final MCD)": 30_000, "FastLTSRegression": 20_000, "Qn": 20_000}
FAMILIES = ("const", "dups", "majority", "ints", "huge", "tiny", "round", "far", "few", "collinear", "nearcollinear", "onehot", "offset", "bigoffset", "two values", "spikes", "grid", "sorted")
# these are ordinary data in another form: every estimator must take them
ORDINARY = {"huge": (), "round": (), "grid": ("RobustPowerTransformer(boxcox)",), "offset": ("MMRegression", "MMRegression(LTS)"), "tiny": ("CellMCD", "CellMCD(no missing)"), "sorted": ("KendallTau",)}
NAMES = [n for n in zoo.names() if n not in ("DataCleaner", "inverse_submatrix", "mahalanobis_distance", "truncated_covariance", "covariance_to_correlation")]


def cases(tier):
    q = tier == "quick"
    return [{"kind": "hostile", "e": e, "f": f, "i": r} for e in NAMES for f in FAMILIES for r in range(2 if q else 40)]


def hostile(rng, a, fam):
    a = np.array(a, dtype=float)
    flat = a.ndim == 1
    if flat:
        a = a[:, None]
    n, p = a.shape
    with np.errstate(invalid="ignore"):
        if fam == "const":
            a[:, 0] = 3
        elif fam == "dups":
            a = a[rng.integers(0, max(3, n // 4), n)]
        elif fam == "majority":
            a[: n // 2 + 2] = a[0]
        elif fam == "ints":
            a = rng.integers(0, 4, (n, p)).astype(float)
        elif fam == "huge":
            a = a * 1e9
        elif fam == "tiny":
            a = a * 1e-9
        elif fam == "round":
            a = np.round(a, 1)
        elif fam == "collinear" and p > 1:
            a[:, -1] = a[:, 0] * 2
        elif fam == "nearcollinear" and p > 1:
            a[:, -1] = a[:, 0] * 2 + 1e-10 * a[:, -1]
        elif fam == "far":
            a[: n // 3] += 10.0 ** int(rng.integers(6, 13))
        elif fam == "few":
            a = a[: p + 2 + int(rng.integers(0, 4))]
        elif fam == "onehot":
            a[:, 0] = rng.integers(0, 2, n)
        elif fam == "offset":
            a = a + 1e6
        elif fam == "bigoffset":
            a = a + 10.0 ** int(rng.integers(7, 13))
        elif fam == "two values":
            a = rng.choice([-1.0, 2.5], (n, p))
        elif fam == "spikes":
            a = np.where(rng.random((n, p)) < 0.4, 0.0, a)
        elif fam == "grid":
            a = np.round(a * 3) / 3 * np.ones((1, p))
        elif fam == "sorted":
            a = np.sort(a, axis=0)
    return a[:, 0] if flat else a


def run(case, mon):
    rng, fam = mon.rng, case["f"]
    e = zoo.get(case["e"])
    args = e.data(rng)
    new = []
    for k, a in enumerate(args):
        if isinstance(a, pd.DataFrame):
            b = pd.DataFrame(hostile(rng, a.to_numpy(), fam), columns=a.columns)
        elif k == 0:
            b = hostile(rng, a, fam)
            if "boxcox" in e.name:
                b = np.abs(b)
        else:
            b = a[: len(new[0])]
            if case["i"] % 4 == 1 and e.group == "regression":
                b = hostile(rng, b, fam)[: len(new[0])]
            elif case["i"] % 4 == 2 and e.group == "regression":
                b = np.full(len(new[0]), 2.0)
        new.append(b)
    new = tuple(new)
    if len({len(b) for b in new}) > 1:
        new = tuple(b[: min(len(b) for b in new)] for b in new)
    mon.input(*new)
    limit = LIMITS.get(e.name, LIMIT)
    PROBE.budget = limit
    PROBE.jumps = 0
    try:
        est = e.fit(e.make(), new)
        out = e.use(est, new)
    except StepBudget as ex:
        mon.fail("does not end", estimator=e.name, family=fam, where=str(ex))
    except Exception as ex:
        mon.ok(str(ex) != "" or isinstance(ex, (ValueError, np.linalg.LinAlgError)), "an error without a message", estimator=e.name, family=fam, error=type(ex).__name__)
        mon.ok(fam not in ORDINARY or e.name in ORDINARY[fam], "refuses ordinary data", estimator=e.name, family=fam, error=f"{type(ex).__name__}: {ex}")
        mon.seen("refused")
        mon.seen("ended")
        mon.state(e.name, fam, type(ex).__name__)
        return
    mon.seen("ended")
    mon.seen("results")
    bad = [k for k, v in out.items() if k not in ("residuals", "impute_nan") and v is not None and not isinstance(v, (str, tuple)) and np.asarray(v).dtype.kind == "f" and np.isnan(np.asarray(v)).any()]
    if e.name.startswith("RobustScaler") and np.any(np.asarray(est.scales_) == 0):
        bad = []  # 0 / 0: columns without a scale have no scaled values
    mon.ok(not bad, "NaN in the results of a fit that reported no error", estimator=e.name, family=fam, keys=bad)
    mon.ok(PROBE.jumps <= limit, "steps")
    mon.state(e.name, fam)
    mon.note(estimator=e.name, family=fam, steps=PROBE.jumps)
