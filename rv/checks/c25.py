"""C25: fitting and applying has no side effect, and does not depend on how the numbers are stored."""
import copy
import inspect
import logging
import os
import random
import sys
import warnings

import numpy as np
import pandas as pd

from rv import zoo
from rv.core import Skip

RULE = (
    "every estimator and function of robpy. 'pure': inputs, parameters, random generators and settings before and after, inputs overwritten after the fit, results overwritten between calls; "
    "'readonly': inputs that cannot be written; 'layout': other memory orders, strides, integers, frames, compared with the plain array; 'storage': unsigned, small and wide integer types and another byte order, compared with the same numbers as floats. Non-trivial: results were compared"
)
ASSUME = ["another memory order may change the order of summation: compared with a tolerance, and with slightly perturbed data where the estimator is discontinuous"]
REQUIRE = {"pure": 39, "readonly": 39, "layout": 60, "storage": 40, "integers": 20, "frame": 15, "argument overwritten": 39}
CHUNK = 3


def cases(tier):
    q = tier == "quick"
    out = []
    for e in zoo.names():
        out += [{"kind": k, "e": e, "i": r} for k in ("pure", "readonly") for r in range(2 if q else 50)]
        out += [{"kind": "layout", "e": e, "i": r} for r in range(3 if q else 90)]
        out += [{"kind": "storage", "e": e, "i": r} for r in range(4 if q else 35)]
    return out


def snap(a):
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return a.copy(deep=True)
    return np.array(a, copy=True, order="K") if isinstance(a, np.ndarray) else copy.deepcopy(a)


def untouched(a, b):
    if isinstance(a, (pd.DataFrame, pd.Series)):
        same = a.equals(b) and a.index.equals(b.index)
        if isinstance(a, pd.DataFrame):
            same = same and a.columns.equals(b.columns) and (a.dtypes == b.dtypes).all()
        return bool(same)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    return a == b


def params_repr(est):
    """Values of all parameters, nested estimators included (addresses removed)."""
    out = {}
    get = getattr(est, "get_params", None)
    known = inspect.signature(type(est).__init__).parameters
    source = get(deep=False) if get else {k: v for k, v in vars(est).items() if k in known}
    for k, v in source.items():
        if hasattr(v, "get_params") or (hasattr(v, "fit") and not isinstance(v, type)):
            out[k] = (type(v).__name__, params_repr(v), sorted(n for n in vars(v) if n.endswith("_") and not n.startswith("_")))
        elif isinstance(v, np.ndarray):
            out[k] = v.tolist()
        elif callable(v):
            out[k] = getattr(v, "__qualname__", type(v).__name__)
        elif type(v).__module__ == "builtins":
            out[k] = repr(v)
        else:
            out[k] = type(v).__name__
    return out


def settings():
    """Settings that belong to the application: root logger, printing, pandas options, plot style, backend, environment, directory."""
    import matplotlib
    import sklearn

    root = logging.getLogger()
    return {
        "root logger": (root.level, [id(h) for h in root.handlers], root.disabled, logging.root.manager.disable),
        "numpy printing": repr(np.get_printoptions()),
        "pandas": repr([(k, pd.get_option(k)) for k in ("display.max_rows", "display.precision", "mode.chained_assignment", "mode.copy_on_write")]),
        "matplotlib": hash(repr(sorted((k, repr(v)) for k, v in matplotlib.rcParams.items() if not k.startswith("_")))),
        "sklearn": repr(sorted(sklearn.get_config().items())),
        "environment": hash(repr(sorted(os.environ.items()))),
        "directory": os.getcwd(),
        "recursion": sys.getrecursionlimit(),
    }


def alternatives(e, mon, args, ref_rng):
    """Results on data changed by rounding errors only."""
    for eps in (1e-13, 1e-11, 1e-9, 1e-8):
        for _ in range(3):
            moved = []
            for a in args:
                if isinstance(a, pd.DataFrame):
                    b = a.copy()
                    num = b.select_dtypes("number").columns
                    b[num] = b[num].astype(float) * (1 + eps * ref_rng.standard_normal(b[num].shape))
                    moved.append(b)
                elif isinstance(a, np.ndarray) and a.dtype.kind == "f":
                    moved.append(a * (1 + eps * ref_rng.standard_normal(a.shape)))
                else:
                    moved.append(a)
            est = e.fit(e.make(), tuple(moved))
            yield e.use(est, tuple(moved))


def close_results(u, v, rtol=1e-6):
    bad = []
    for k in sorted(set(u) | set(v)):
        if k not in u or k not in v:
            bad.append(k)
            continue
        a, b = u[k], v[k]
        if isinstance(a, (str, tuple, type(None))):
            if a != b:
                bad.append(k)
            continue
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            bad.append(k)
            continue
        scale = np.nanmax(np.abs(np.where(np.isfinite(a), a, np.nan))) if a.size and np.any(np.isfinite(a)) else 0.0
        if not np.allclose(a, b, rtol=rtol, atol=rtol * scale, equal_nan=True):
            bad.append(k)
    return bad


def run(case, mon):
    import matplotlib.pyplot as plt

    rng, i = mon.rng, case["i"]
    e = zoo.get(case["e"])
    args = e.data(rng)
    mon.input(*[a for a in args if isinstance(a, np.ndarray)])
    clean = tuple(snap(a) for a in args)
    if case["kind"] == "pure":
        est = e.make()
        p0, g0, r0, s0, w0 = params_repr(est), np.random.get_state(), random.getstate(), np.geterr(), list(warnings.filters)
        outside = settings()
        figs = len(plt.get_fignums())
        if not isinstance(est, zoo.Call):
            mon.ok(e.fit(est, args) is est, "fit must return the estimator", estimator=e.name)
        else:
            e.fit(est, args)
        u = e.use(est, args)
        mon.ok(all(untouched(a, b) for a, b in zip(args, clean)), "an input was changed", estimator=e.name)
        mon.ok(params_repr(est) == p0, "a parameter was changed", estimator=e.name, before=p0, after=params_repr(est))
        g1 = np.random.get_state()
        mon.ok(g0[0] == g1[0] and np.array_equal(g0[1], g1[1]) and g0[2:] == g1[2:], "the global random generator of numpy was used", estimator=e.name)
        mon.ok(random.getstate() == r0, "the random generator of Python was used", estimator=e.name)
        mon.ok(np.geterr() == s0, "the floating-point error settings were changed", estimator=e.name)
        mon.ok(len(warnings.filters) == len(w0), "the warning filters were changed", estimator=e.name)
        mon.ok(settings() == outside, "settings of the process were changed", estimator=e.name, before=outside, after=settings())
        mon.ok(len(plt.get_fignums()) == figs, "a figure was left open", estimator=e.name)
        keep = {k: snap(v) if isinstance(v, np.ndarray) else v for k, v in u.items()}
        # results of methods are new arrays
        again = e.use(est, args)
        mon.ok(not zoo.differing(keep, again), "a second call gives another result", estimator=e.name, keys=zoo.differing(keep, again))
        for k, v in again.items():
            if k in ("transform", "inverse", "scores", "project", "predict", "impute", "impute_nan", "cells", "rows", "value", "mahalanobis") and isinstance(v, np.ndarray) and v.ndim:
                mon.ok(not any(isinstance(a, np.ndarray) and np.shares_memory(a, v) for a in args), "a result shares memory with the input", estimator=e.name, key=k)
                if v.flags.writeable:
                    v[...] = 7
        third = e.use(est, tuple(snap(a) for a in clean))
        mon.ok(not zoo.differing(keep, third), "overwriting a result changes later results", estimator=e.name, keys=zoo.differing(keep, third))
        # the fitted estimator does not depend on the argument any more
        for a in args:
            if isinstance(a, np.ndarray):
                a[...] = 0 if a.dtype.kind in "iu" else 1e9
            elif isinstance(a, pd.DataFrame):
                a.iloc[:, 0] = 1e9
        last = e.use(est, clean)
        mon.ok(not zoo.differing(keep, last), "overwriting the argument after the fit changes the results", estimator=e.name, keys=zoo.differing(keep, last))
        mon.seen("argument overwritten")
        mon.seen("pure")
    elif case["kind"] == "readonly":
        base = e.use(e.fit(e.make(), clean), clean)
        for a in args:
            if isinstance(a, np.ndarray):
                a.flags.writeable = False
            elif isinstance(a, pd.DataFrame):
                for block in a._mgr.arrays:
                    if isinstance(block, np.ndarray):
                        block.flags.writeable = False
        try:
            est = e.fit(e.make(), args)
            u = e.use(est, args)
        except ValueError as ex:
            if "read-only" in str(ex) or "readonly" in str(ex) or "not writeable" in str(ex):
                mon.fail("a read-only input is written to", estimator=e.name, error=str(ex))
            raise
        mon.ok(not zoo.differing(base, u), "read-only input gives another result", estimator=e.name, keys=zoo.differing(base, u))
        # the state of the global generators does not matter
        np.random.seed(i)
        random.seed(i)
        v = e.use(e.fit(e.make(), args), args)
        mon.ok(not zoo.differing(base, v), "the result depends on the global random generator", estimator=e.name, keys=zoo.differing(base, v))
        mon.seen("readonly")
    else:
        if case["kind"] == "storage":
            types = ("u1", "i1", "i2", "u2", "u4", "u8", ">f8")
            how = types[(i * 2 + int(rng.integers(2))) % 7 if i < 4 else i % 7]
        else:
            how = ["fortran", "strided", "reversed", "integers", "frame", "float-object-free"][i % 6] if i >= 3 else ["fortran", "integers", "frame"][i]
        if case["kind"] == "storage":
            # the same numbers, in types in which differences, sums or powers of them can overflow
            if how != ">f8" and not (e.ints and all(isinstance(a, np.ndarray) and not np.isnan(a).any() for a in clean)):
                raise Skip("no integers here")
            plain, other = [], []
            for a in clean:
                if isinstance(a, np.ndarray) and how != ">f8":
                    dev = a - np.median(a, axis=0)
                    z = np.clip(dev / np.median(np.abs(dev), axis=0), -8, 8)
                    a = {"u1": np.clip(z * 30, -125, 125) + 128, "i1": np.clip(z * 30, -127, 127), "i2": z * 3800, "u2": z * 3800 + 32000}.get(how, z * 100 + 1000)
                    a = np.round(a)
                plain.append(a)
                other.append(a.astype(how) if isinstance(a, np.ndarray) and a.dtype.kind == "f" else a)
            clean, other = tuple(plain), tuple(other)
            mon.seen("storage")
        elif how == "integers" and e.ints:
            ints = []
            for a in clean:
                if isinstance(a, np.ndarray) and not np.isnan(a).any():
                    dev = a - np.median(a, axis=0)
                    s = np.median(np.abs(dev), axis=0)
                    ints.append(np.round(np.clip(dev / s, -40, 40) * 70).astype(np.int64))
                elif isinstance(a, np.ndarray):
                    raise Skip("missing values have no integers")
                else:
                    raise Skip("frames in C24")
            clean = tuple(a.astype(float) for a in ints)
            other = tuple(a.astype(np.int32) if i % 2 else a for a in ints)
            mon.seen("integers")
        elif how == "frame" and e.frames:
            other = []
            for j, a in enumerate(clean):
                if j in e.frames and isinstance(a, np.ndarray):
                    n = len(a)
                    index = rng.permutation(n) if i % 2 else [f"r{k}" for k in range(n)]
                    a = pd.Series(a, index=index) if a.ndim == 1 else pd.DataFrame(a, index=index, columns=[f"v{k}" for k in range(a.shape[1])])
                elif isinstance(a, pd.DataFrame):
                    a = pd.DataFrame(np.asfortranarray(a.to_numpy()), index=rng.permutation(len(a)), columns=a.columns)
                other.append(a)
            other = tuple(other)
            mon.seen("frame")
        else:
            def view(a):
                if not isinstance(a, np.ndarray):
                    if isinstance(a, pd.DataFrame):
                        return pd.concat([a[[c]] for c in a.columns], axis=1)
                    return a
                if how == "fortran" and a.ndim == 2:
                    return np.asfortranarray(a)
                if how == "reversed":
                    return np.ascontiguousarray(a[::-1])[::-1]
                big = np.full(tuple(2 * s + 1 for s in a.shape), -1 if a.dtype.kind in "iu" else 1e7, dtype=a.dtype)
                big[tuple(slice(1, None, 2) for _ in a.shape)] = a
                return big[tuple(slice(1, None, 2) for _ in a.shape)]

            other = tuple(view(a) for a in clean)
        base = e.use(e.fit(e.make(), clean), clean)
        try:
            got = e.use(e.fit(e.make(), other), other)
        except ValueError as ex:
            if how == ">f8" and "endian" in str(ex):
                raise Skip("other byte orders are refused")
            raise
        bad = close_results(base, got)
        if bad:
            for v in alternatives(e, mon, clean, rng):
                if not close_results(v, got, rtol=1e-5):
                    bad = []
                    mon.seen("rounding matters")
                    break
        mon.ok(not bad, "the result depends on how the numbers are stored", estimator=e.name, how=how, keys=bad, got={k: np.ravel(np.asarray(got[k]))[:4] for k in bad[:2] if k in got}, want={k: np.ravel(np.asarray(base[k]))[:4] for k in bad[:2] if k in base})
        mon.seen("layout")
        mon.state(e.name, how)
    mon.state(case["kind"], e.name)
    mon.note(estimator=e.name)
