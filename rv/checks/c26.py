"""C26: a fit depends on its data and parameters only, not on the history of the instance or on other instances."""
import copy
import pickle

import numpy as np
import pandas as pd

from rv import zoo
from rv.core import StepBudget

RULE = (
    "random histories per estimator: fits on data of other sizes, failed fits, applications, other instances (sharing parameter objects) in between, copies and pickles; the last fit "
    "must give exactly the results of a fresh estimator. 'chosen': parameters that fit chooses itself. Non-trivial: results after a history were compared"
)
ASSUME = ["estimators with a seed, or deterministic"]
REQUIRE = {"parameters changed": 15, "results kept": 200, "history": 60, "failed fit": 20, "other instance": 40, "copy": 60, "pickle": 40, "clone": 20, "applied to other data": 20}
CHUNK = 3
NAMES = [n for n in zoo.names() if n not in ("adjusted_boxplot", "l1median", "stahel_donoho", "stahel_donoho(3 points)", "wrapping_transformation", "wrapping_transformation(raw)",
                                             "weighted_median", "inverse_submatrix", "mahalanobis_distance", "truncated_covariance", "covariance_to_correlation")]
CHOSEN = ("ROBPCA", "PCALocantore", "RobustPowerTransformer(auto)")


def cases(tier):
    q = tier == "quick"
    return [{"kind": "history", "e": e, "i": r} for e in NAMES for r in range(6 if q else 80)] + [{"kind": "chosen", "e": e, "i": r} for e in CHOSEN for r in range(4 if q else 60)]


def spoil(rng, args):
    """Arguments that fit is likely to refuse."""
    out = []
    for a in args:
        if isinstance(a, pd.DataFrame):
            b = a.astype(object)
            b.iloc[:, 0] = "text"
            out.append(b)
        else:
            b = np.array(a, dtype=float)[: int(rng.integers(2, 6))]
            b[...] = np.nan
            out.append(b)
    return tuple(out)


def apply_only(e, est, args):
    """Methods that use the fit on other data: must not change it."""
    X = args[0]
    for name in ("transform", "predict", "project", "impute", "mahalanobis", "inverse_transform"):
        f = getattr(est, name, None)
        if f is None:
            continue
        try:
            f(X)
        except Exception:
            pass


def same_array(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (np.array_equal(a, b, equal_nan=True) if a.dtype.kind == "f" else bool(np.all(a == b)))


def switches(rng, e, est, goal):
    """Switched on/off parameters with which the data can be fitted and used."""
    if not hasattr(est, "get_params"):
        return {}
    flags = [k for k, v in est.get_params(deep=False).items() if isinstance(v, bool)]
    for _ in range(2):
        out = {k: not getattr(est, k) for k in flags if rng.random() < 0.6}
        try:
            e.use(e.fit(e.make().set_params(**out), goal), goal)
            return out
        except StepBudget:
            raise
        except Exception:
            continue
    return {}


def history(case, mon):
    from sklearn.base import clone

    rng, i = mon.rng, case["i"]
    e = zoo.get(case["e"])
    goal = e.data(rng)
    mon.input(*[a for a in goal if isinstance(a, np.ndarray)])
    est, other = e.make(), e.make()
    switched = switches(rng, e, est, goal) if i % 2 else {}
    build = lambda: e.make().set_params(**switched) if switched else e.make()
    want = e.use(e.fit(build(), goal), goal)
    trace = []
    for step in range(int(rng.integers(1, 5))):
        op = str(rng.choice(["fit", "fit", "fail", "apply", "other", "share"]))
        trace.append(op)
        past = e.data(rng)
        if op == "fit":
            e.fit(est, past)
            if rng.random() < 0.5:
                e.use(est, past)
        elif op == "fail":
            try:
                e.fit(est, spoil(rng, past))
            except StepBudget:
                raise
            except Exception:
                mon.seen("failed fit")
        elif op == "apply":
            apply_only(e, est, past)
        elif op == "other":
            e.fit(other, past)
            mon.seen("other instance")
        else:
            # an instance with the very same parameter objects
            if hasattr(est, "get_params"):
                e.fit(type(est)(**est.get_params(deep=False)), past)
                mon.seen("other instance")
    if switched:
        if not trace.count("fit"):
            e.fit(est, e.data(rng))
        est.set_params(**switched)
        trace.append(tuple(switched))
        mon.seen("parameters changed")
    e.fit(est, goal)
    got = e.use(est, goal)
    mon.ok(not zoo.differing(want, got), "the fit depends on the history of the instance", estimator=e.name, trace=trace, keys=zoo.differing(want, got))
    # other fits do not reach into this one
    past = e.data(rng)
    e.fit(other, past)
    if hasattr(est, "get_params"):
        twin = clone(est)
        e.fit(twin, past)
        e.fit(type(est)(**est.get_params(deep=False)), past)
    got = e.use(est, goal)
    mon.ok(not zoo.differing(want, got), "fitting another instance changes this one", estimator=e.name, keys=zoo.differing(want, got))
    apply_only(e, est, past)
    got = e.use(est, goal)
    mon.ok(not zoo.differing(want, got), "applying the estimator to other data changes it", estimator=e.name, keys=zoo.differing(want, got))
    mon.seen("applied to other data")
    # what the user took from a fit stays as it is when the instance is fitted again
    taken = {k: v for k, v in vars(est).items() if not k.startswith("_") and isinstance(v, (np.ndarray, pd.DataFrame, pd.Series))}
    taken.update({"result " + k: v for k, v in e.use(est, goal).items() if isinstance(v, (np.ndarray, pd.DataFrame, pd.Series))})
    before = {k: v.copy() for k, v in taken.items()}
    again = copy.deepcopy(est)
    mine = {k: vars(again).get(k, v) for k, v in taken.items()}
    e.fit(again, e.data(rng))
    for k, v in list(taken.items()) + [(k, v) for k, v in mine.items()]:
        mon.ok(np.array_equal(np.asarray(v, dtype=object), np.asarray(before[k], dtype=object)) or same_array(v, before[k]), "a result taken from a fit is changed by the next fit", estimator=e.name, result=k)
    mon.seen("results kept", len(mine))
    cop = copy.deepcopy(est)
    mon.ok(not zoo.differing(want, e.use(cop, goal)), "a copy of the fitted estimator gives other results", estimator=e.name)
    e.fit(cop, past)
    mon.ok(not zoo.differing(want, e.use(est, goal)), "fitting a copy changes the original", estimator=e.name)
    mon.seen("copy")
    loaded = pickle.loads(pickle.dumps(est))
    mon.ok(not zoo.differing(want, e.use(loaded, goal)), "the fitted estimator does not survive pickling", estimator=e.name, keys=zoo.differing(want, e.use(loaded, goal)))
    mon.seen("pickle")
    if hasattr(est, "get_params"):
        fresh = clone(est)
        mon.ok(not zoo.differing(want, e.use(e.fit(fresh, goal), goal)), "a clone fitted to the same data gives other results", estimator=e.name)
        mon.seen("clone")
    mon.seen("history")
    mon.state(e.name, tuple(trace))
    mon.note(estimator=e.name, trace=trace)


def chosen(case, mon):
    """Parameters left to the fit: a second fit must choose again."""
    import robpy.pca as pca
    from robpy.preprocessing import RobustPowerTransformer

    rng, name = mon.rng, case["e"]
    if name.startswith("Robust"):
        a = np.exp(rng.standard_normal(40)) if case["i"] % 2 else rng.standard_normal(40)
        b = np.exp(rng.normal(2.0, 0.4, 50))
        make = lambda **kw: RobustPowerTransformer(**{"method": "auto", **kw})
        use = lambda t, x: {"transform": t.transform(x), "inverse": t.inverse_transform(t.transform(x))}
        stale = lambda t: {"method": t.method}
        key = "refit-method-auto"
    else:
        n, p = 50, 5
        q = lambda d: np.linalg.qr(rng.standard_normal((p, p)))[0] * np.sqrt(d)
        a = rng.standard_normal((n, p)) @ q(np.array([9, 1e-2, 1e-2, 1e-2, 1e-2])).T
        b = rng.standard_normal((n, p)) @ q(np.array([9, 8, 7, 0.01, 0.01])).T
        cls = getattr(pca, name)
        base = {"random_seed": 1} if name == "ROBPCA" else {}
        make = lambda **kw: cls(**{**base, **kw})
        use = lambda t, x: {"scores": np.asarray(t.transform(x)), "components": t.components_}
        stale = lambda t: {"n_components": int(t.n_components)}
        key = "refit-n_components-none"
    mon.input(a, b)
    want = use(make().fit(b), b)
    est = make().fit(a)
    first = stale(est)
    got = use(est.fit(b), b)
    bad = zoo.differing(want, got)
    if bad:
        # exactly the recorded deviation: the choice of the first fit is kept
        kept = use(make(**first).fit(b), b)
        if not zoo.differing(kept, got):
            mon.known_finding(f"{key}:{name}", f"{name}: a second fit keeps the {'/'.join(first)} the first fit chose")
            mon.seen("kept choice")
            return
    mon.ok(not bad, "a second fit does not choose again", estimator=name, keys=bad, first=first)
    mon.seen("chosen")


def run(case, mon):
    (history if case["kind"] == "history" else chosen)(case, mon)
