"""C33: estimators follow scikit-learn's parameter protocol and work in its tools."""
import inspect

import numpy as np
import pandas as pd

from rv import gen, zoo
from rv.checks.c25 import params_repr

RULE = (
    "'params': random parameter values per class through the constructor, set_params, clone and refits; exact comparison. 'used': per parameter two values that must differ on one of 40 data sets. 'tools': pipelines, cross-validation, grid search, column transformers, output names and scores against the same steps done by hand. "
    "Non-trivial: results were compared"
)
ASSUME = ["univariate estimators and DDC have no get_params: their constructors only"]
REQUIRE = {"get_params": 60, "set_params": 60, "parameter matters": 40, "pipeline": 15, "cross-validation": 3, "grid search": 3, "fit_transform": 12, "score": 8, "names": 8, "used": 60}
CHUNK = 3
TOOLS = ("pipeline-regression", "pipeline-pca", "pipeline-cleaner", "cross-validation", "grid", "columns", "fit_transform", "score", "names")


def cases(tier):
    q = tier == "quick"
    out = [{"kind": "params", "c": c, "i": r} for c in GRID for r in range(6 if q else 90)]
    out += [{"kind": "used", "c": c, "p": k, "i": r} for c in USED for k in USED[c] for r in range(1 if q else 8)]
    return out + [{"kind": k, "i": r} for k in TOOLS for r in range(5 if q else 70)]


def _uni(name, **kw):
    def make():
        import robpy.univariate as uni

        return getattr(uni, name)(**kw)

    return make


def _rho(name, c):
    def make():
        import robpy.utils.rho as r

        return getattr(r, name)(c)

    return make


def _reg(name, **kw):
    def make():
        import robpy.regression as r

        return getattr(r, name)(**kw)

    return make


# values; callables are made first. The first value of each is given by most users
GRID = {
    "FastMCD": dict(alpha=[None, 0.6, 0.75, 0.9, 1.0, 1], n_initial_subsets=[20, 35], n_initial_c_steps=[1, 2, 3], n_best_subsets=[3, 10], correct_covariance=[True, False], reweighting=[True, False], random_seed=[1, 2, 3], n_partitions=[None, 2], tolerance=[1e-8, 1e-4], store_precision=[True, False], verbosity=[30, 40]),
    "DetMCD": dict(alpha=[None, 0.6, 0.75, 0.9], correct_covariance=[True, False], reweighting=[True, False], tolerance=[1e-8, 1e-4], verbosity=[30, 40]),
    "OGK": dict(n_iterations=[1, 2, 3], reweighting=[True, False], reweighting_beta=[0.9, 0.75], store_precision=[True, False]),
    "WrappingCovariance": dict(b=[1.5, 1.2], c=[4.0, 3.5], store_precision=[True, False]),
    "KendallTau": dict(),
    "CellMCD": dict(alpha=[0.75, 0.85], quantile=[0.99, 0.95], crit=[1e-4, 1e-2], max_c_steps=[100, 3], min_eigenvalue=[1e-4, 0.3], verbosity=[30, 40]),
    "ROBPCA": dict(n_components=[1, 2, 3], alpha=[0.75, 0.6, 0.9], final_MCD_step=[True, False], random_seed=[1, 2], k_min_var_explained=[0.8, 0.5, 1], verbosity=[30]),
    "PCALocantore": dict(n_components=[1, 2, 3], k_min_var_explained=[0.8, 0.5]),
    "FastLTSRegression": dict(alpha=[0.5, 0.75, 0.9], n_initial_subsets=[25, 40], n_initial_c_steps=[1, 2], n_best_models=[2, 10], reweighting=[True, False], random_state=[42, 1], tolerance=[1e-15, 1e-3]),
    "SRegression": dict(rho=[_rho("TukeyBisquare", 1.547), _rho("TukeyBisquare", 2.0)], n_initial_subsets=[15, 30], n_initial_i_steps=[1, 2], n_best_subsets=[2, 5], max_scale_iterations=[2, 40], b=[0.1995, 0.15], fit_intercept=[True, False], relative_tolerance=[1e-7, 1e-3], random_state=[101, 5]),
    "MMRegression": dict(initial_estimator=[_reg("SRegression", n_initial_subsets=15), _reg("FastLTSRegression", n_initial_subsets=25)], rho=[_rho("TukeyBisquare", 3.44), _rho("Huber", 1.345)], max_iterations=[500, 2], epsilon=[1e-7, 1e-1]),
    "RobustScaler": dict(scale_estimator=[_uni("UnivariateMCD"), _uni("Tau"), _uni("Qn")], with_centering=[True, False], with_scaling=[True, False]),
    "RobustPowerTransformer": dict(method=["yeojohnson", "boxcox"], standardize=[True, False], lambda_range=[(-4.0, 6.0), (-2.0, 3.0)], quantile=[0.99, 0.8], nsteps=[2, 0, 4]),
    "DataCleaner": dict(max_missing_frac_cols=[0.5, 0.1], max_missing_frac_rows=[0.5, 0.1], min_unique_values=[3, 5], min_abs_scale=[1e-12, 1.0], clean_na_first=["automatic", "rows", "columns"], min_n_rows=[3, 10]),
    "Qn": dict(consistency_correction=[True, False], finite_correction=[True, False]),
    "Tau": dict(c1=[4.5, 3.0], c2=[3.0, 2.0], consistency_correction=[True, False]),
    "UnivariateMCD": dict(alpha=[None, 0.7, 0.9], consistency_correction=[True, False]),
    "DDC": dict(chi2_quantile=[0.99, 0.9], min_correlation=[0.5, 0.2], scale_estimator=[_uni("CellwiseOneStepM"), _uni("UnivariateMCD")]),
}


# parameter: (other parameters, value, other value) with which the two must differ on some data
USED = {
    "FastMCD": dict(
        alpha=({}, None, 0.9), n_initial_subsets=({}, 1, 30), n_initial_c_steps=(dict(n_initial_subsets=4, n_best_subsets=1), 1, 4), n_best_subsets=(dict(n_initial_subsets=12, n_initial_c_steps=1), 1, 12),
        n_partitions=(dict(n_initial_subsets=4), 1, 2), tolerance=(dict(n_initial_subsets=2, n_initial_c_steps=1), 1e-8, 1e9), correct_covariance=({}, True, False), reweighting=({}, True, False),
        random_seed=(dict(n_initial_subsets=1), 1, 2), store_precision=({}, True, False),
    ),
    "DetMCD": dict(alpha=({}, None, 0.9), correct_covariance=({}, True, False), reweighting=({}, True, False), tolerance=({}, 1e-8, 1e9)),
    "OGK": dict(n_iterations=({}, 1, 2), reweighting=({}, True, False), reweighting_beta=(dict(reweighting=True), 0.9, 0.7), store_precision=({}, True, False)),
    "WrappingCovariance": dict(b=({}, 1.5, 1.2), c=({}, 4.0, 3.0), q1=({}, 1.540793, 1.4), q2=({}, 0.8622731, 0.8), store_precision=({}, True, False)),
    "CellMCD": dict(alpha=({}, 0.6, 1.0), quantile=({}, 0.99, 0.9), crit=({}, 1e-6, 10.0), max_c_steps=(dict(crit=1e-6), 1, 100), min_eigenvalue=({}, 1e-4, 0.6)),
    "ROBPCA": dict(n_components=({}, 1, 2), alpha=(dict(n_components=2), 0.5, 0.9), final_MCD_step=(dict(n_components=2), True, False), random_seed=(dict(n_components=2), 1, 2), k_min_var_explained=({}, 0.3, 1.0)),
    "PCALocantore": dict(n_components=({}, 1, 2), k_min_var_explained=({}, 0.3, 0.99)),
    "FastLTSRegression": dict(
        alpha=({}, 0.5, 0.9), n_initial_subsets=({}, 1, 30), n_initial_c_steps=(dict(n_initial_subsets=6, n_best_models=1), 1, 5), n_best_models=(dict(n_initial_subsets=12, n_initial_c_steps=1), 1, 12),
        reweighting=({}, True, False), random_state=(dict(n_initial_subsets=1), 42, 4242), tolerance=(dict(n_initial_subsets=2, n_initial_c_steps=1), 1e-15, 1e9),
    ),
    "SRegression": dict(
        rho=({}, _rho("TukeyBisquare", 1.547), _rho("TukeyBisquare", 2.5)), n_initial_subsets=(dict(n_initial_i_steps=1), 1, 20), n_initial_i_steps=(dict(n_initial_subsets=6, n_best_subsets=1), 1, 4),
        n_best_subsets=(dict(n_initial_subsets=12, n_initial_i_steps=1), 1, 12), max_scale_iterations=({}, 1, 40), b=({}, 0.1995, 0.15), fit_intercept=({}, True, False), relative_tolerance=(dict(n_initial_subsets=5), 1e-7, 0.5),
        random_state=(dict(n_initial_subsets=1, n_initial_i_steps=1), 101, 4101), scale_tolerance=(dict(max_scale_iterations=40), 1e-12, 1e9), max_i_steps=(dict(n_initial_subsets=5), 1, 1000),
    ),
    "MMRegression": dict(
        initial_estimator=({}, _reg("SRegression", n_initial_subsets=15), _reg("FastLTSRegression", n_initial_subsets=25)), rho=({}, _rho("TukeyBisquare", 3.44), _rho("TukeyBisquare", 2.0)),
        max_iterations=({}, 1, 500), epsilon=({}, 1e-9, 1e9),
    ),
    "RobustScaler": dict(scale_estimator=({}, _uni("UnivariateMCD"), _uni("Tau")), with_centering=({}, True, False), with_scaling=({}, True, False)),
    "RobustPowerTransformer": dict(method=({}, "yeojohnson", "boxcox"), standardize=({}, True, False), lambda_range=({}, (-4.0, 6.0), (-4.0, 5.0)), quantile=({}, 0.99, 0.7), nsteps=(dict(quantile=0.9), 1, 4)),
    "DataCleaner": dict(
        max_missing_frac_cols=({}, 0.95, 0.01), max_missing_frac_rows=({}, 0.95, 0.01), min_unique_values=({}, 3, 40), min_abs_scale=({}, 1e-12, 1e9), clean_na_first=(dict(max_missing_frac_rows=0.25, max_missing_frac_cols=0.25), "rows", "columns"),
        min_n_rows=({}, 3, 10**6),
    ),
    "Qn": dict(consistency_correction=({}, True, False), finite_correction=({}, True, False)),
    "Tau": dict(c1=({}, 4.5, 2.0), c2=({}, 3.0, 2.0), consistency_correction=({}, True, False)),
    "UnivariateMCD": dict(alpha=({}, None, 0.9), consistency_correction=({}, True, False)),
    "DDC": dict(chi2_quantile=({}, 0.99, 0.8), min_correlation=({}, 0.05, 0.95), scale_estimator=({}, _uni("CellwiseOneStepM"), _uni("UnivariateMCD"))),
}


def hard(rng, cls, e):
    """Data on which the way to a solution matters."""
    args = list(e.data(rng))
    if cls in ("FastMCD", "DetMCD", "ROBPCA", "OGK", "PCALocantore", "WrappingCovariance"):
        args[0] = np.vstack([rng.standard_normal((30, 4)) + m for m in (0, 3, -3 * np.eye(4)[0])]) * [1, 2, 3, 4]
    elif cls == "CellMCD":
        args[0] = gen.multi(rng, "gauss", 80, 4) + np.where(rng.random((80, 4)) < 0.1, 2.5, 0.0)
        args[0][3, 1] = 20.0
    elif cls in ("FastLTSRegression", "SRegression", "MMRegression"):
        args[0] = rng.standard_normal((60, 3))
        args[1] = args[0].sum(axis=1) * np.repeat([1, -1, 5], 20) + rng.standard_normal(60) * 0.5 + 1
    elif cls == "DataCleaner":
        d = pd.DataFrame(rng.standard_normal((40, 6)), columns=list("abcdef"))
        d = d.mask(rng.random(d.shape) < np.linspace(0, 0.5, 6))
        args[0] = d
    return tuple(args)


def find(cls):
    import robpy.covariance as cov
    import robpy.pca as pca
    import robpy.preprocessing as pre
    import robpy.regression as reg
    import robpy.univariate as uni
    from robpy.outliers import DDC

    if cls == "DDC":
        return DDC
    return next(getattr(m, cls) for m in (cov, pca, pre, reg, uni) if hasattr(m, cls))


def params(case, mon):
    from sklearn.base import clone

    rng, cls = mon.rng, case["c"]
    e = zoo.get({"RobustPowerTransformer": "RobustPowerTransformer(boxcox)"}.get(cls, cls))
    C = find(cls)
    args = e.data(rng)
    mon.input(*[a for a in args if isinstance(a, np.ndarray)])
    chosen, copies = {}, {}
    for k, vals in GRID[cls].items():
        if rng.random() < 0.5 or cls in ("FastMCD", "SRegression", "FastLTSRegression") and k == "n_initial_subsets" or k in ("random_seed", "n_components", "initial_estimator"):
            v = vals[int(rng.integers(len(vals)))]
            chosen[k] = v() if callable(v) else v
            copies[k] = v() if callable(v) else v
    has = hasattr(C, "get_params")
    sig = inspect.signature(C.__init__).parameters
    a = C(**chosen)

    def results(est):
        try:
            return e.use(e.fit(est, args), args)
        except Exception as ex:
            return {"error": type(ex).__name__}

    if has:
        got = a.get_params(deep=False)
        mon.ok(set(got) == {k for k in sig if k != "self"}, "get_params names exactly the parameters of the constructor", cls=cls, got=sorted(got))
        for k, v in got.items():
            if k in chosen:
                mon.ok(v is chosen[k] or (v == chosen[k] and type(v) is type(chosen[k])), "a parameter is not kept as given", cls=cls, name=k, got=v, given=chosen[k])
            else:
                d = sig[k].default
                mon.ok(v is d or type(v) is type(d) and (v == d or not isinstance(d, (int, float, str, tuple, bool, type(None)))), "a default is not the documented one", cls=cls, name=k, got=v, default=d)
        mon.seen("get_params")
        mon.ok(cls in repr(a), "repr", got=repr(a)[:100])
    want = results(a)
    if has:
        # the same parameters by other ways
        b = C()
        mon.ok(b.set_params(**copies) is b, "set_params returns the estimator")
        mon.ok(not zoo.differing(want, results(b)), "set_params and the constructor differ", cls=cls, params=sorted(chosen), keys=zoo.differing(want, results(b)))
        mon.seen("set_params")
        c = clone(C(**chosen))
        mon.ok(params_repr(c) == params_repr(C(**chosen)), "a clone has other parameters", cls=cls)
        mon.ok(not zoo.differing(want, results(c)), "a clone gives other results", cls=cls)
        # a fitted instance, set to other parameters and back
        other = {}
        for k, vals in GRID[cls].items():
            v = vals[int(rng.integers(len(vals)))]
            other[k] = v() if callable(v) else v
        full = {k: v for k, v in C(**chosen).get_params(deep=False).items() if k in other}
        a.set_params(**other)
        u = results(a)
        v = results(C(**other))
        mon.ok(not zoo.differing(v, u), "parameters set after a fit are not used as in the constructor", cls=cls, keys=zoo.differing(v, u), other=sorted(other))
        a.set_params(**full)
        again = results(a)
        mon.ok(not zoo.differing(want, again), "parameters set back do not give the first results", cls=cls, keys=zoo.differing(want, again))
        if zoo.differing(u, want):
            mon.seen("parameter matters")
    else:
        b = C(**copies)
        mon.ok(not zoo.differing(want, results(b)), "equal parameters give equal results", cls=cls)
    mon.seen("error" if "error" in want else "params")
    mon.state(cls, tuple(sorted(chosen)))
    mon.note(cls=cls, params={k: v for k, v in chosen.items() if isinstance(v, (int, float, str, bool, tuple))})


def used(case, mon):
    """Two values of a parameter that users give for different results do give them on some data."""
    cls, k = case["c"], case["p"]
    e = zoo.get({"RobustPowerTransformer": "RobustPowerTransformer(boxcox)"}.get(cls, cls))
    C = find(cls)
    base, v1, v2 = USED[cls][k]

    def results(args, v):
        est = C(**base, **{k: v() if callable(v) else v})
        try:
            return e.use(e.fit(est, args), args)
        except Exception as ex:
            return {"error": type(ex).__name__}

    for trial in range(40):
        args = hard(mon.rng, cls, e)
        if trial == 0:
            mon.input(*[a for a in args if isinstance(a, np.ndarray)])
        diff = zoo.differing(results(args, v1), results(args, v2))
        if diff:
            mon.seen("used")
            mon.state(cls, k)
            mon.note(cls=cls, parameter=k, trials=trial + 1, keys=sorted(diff))
            return
    mon.fail("a parameter is not used: two values give the same results on all data sets", cls=cls, parameter=k, values=[repr(v1), repr(v2)])


def tools(case, mon):
    from sklearn.base import clone
    from sklearn.compose import ColumnTransformer
    from sklearn.metrics import r2_score
    from sklearn.model_selection import GridSearchCV, KFold, cross_val_predict, cross_val_score
    from sklearn.pipeline import Pipeline

    from robpy.pca import PCALocantore, ROBPCA
    from robpy.preprocessing import DataCleaner, RobustScaler
    from robpy.regression import FastLTSRegression, MMRegression, SRegression

    rng, i, kind = mon.rng, case["i"], case["kind"]
    n, p = int(rng.integers(40, 70)), int(rng.integers(2, 4))
    X, y, *_ = gen.reg(rng, ("normal", "vertical", "t3")[i % 3], n, p)
    Z = gen.multi(rng, ("gauss", "t3")[i % 2], n, 5)
    new = rng.standard_normal((7, p))
    mon.input(X, y, Z)
    makers = (lambda: FastLTSRegression(n_initial_subsets=30), lambda: SRegression(n_initial_subsets=15), lambda: MMRegression(initial_estimator=SRegression(n_initial_subsets=15)))
    make = makers[i % 3]
    flat = lambda v: np.asarray(v).ravel()
    if kind == "pipeline-regression":
        pipe = Pipeline([("scale", RobustScaler()), ("fit", make())]).fit(X, y)
        s = RobustScaler().fit(X)
        m = make().fit(s.transform(X), y)
        mon.close(flat(pipe.predict(new)), flat(m.predict(s.transform(new))), "pipeline and steps by hand", rtol=1e-12)
        mon.seen("pipeline")
    elif kind == "pipeline-pca":
        pca = (lambda: PCALocantore(n_components=2)) if i % 2 else (lambda: ROBPCA(n_components=2, random_seed=3))
        pipe = Pipeline([("scale", RobustScaler()), ("pca", pca())]).fit(Z)
        s = RobustScaler().fit(Z)
        q = pca().fit(s.transform(Z))
        mon.close(pipe.transform(Z[:9]), q.transform(s.transform(Z[:9])), "pipeline and steps by hand", rtol=1e-12)
        both = Pipeline([("pca", pca()), ("reg", FastLTSRegression(n_initial_subsets=30))]).fit(Z, y)
        q = pca().fit(Z)
        mon.close(flat(both.predict(Z[:9])), flat(FastLTSRegression(n_initial_subsets=30).fit(q.transform(Z), y).predict(q.transform(Z[:9]))), "regression on scores", rtol=1e-9)
        mon.seen("pipeline")
    elif kind == "pipeline-cleaner":
        d = pd.DataFrame(Z, columns=list("abcde"))
        d["text"] = "x"
        d.loc[: n // 2 + 5, "b"] = np.nan
        pipe = Pipeline([("clean", DataCleaner()), ("scale", RobustScaler())]).fit(d)
        c = DataCleaner().fit(d)
        clean = c.transform(d)
        s = RobustScaler().fit(clean)
        mon.ok(list(clean.columns) == list("acde"), "cleaned columns", got=list(clean.columns))
        mon.close(np.asarray(pipe.transform(d)), np.asarray(s.transform(clean)), "pipeline and steps by hand", rtol=1e-12)
        mon.seen("pipeline")
    elif kind == "cross-validation":
        cv = KFold(4)
        got = flat(cross_val_predict(make(), X, y, cv=cv))
        want = np.empty(n)
        scores = []
        for tr, te in cv.split(X):
            m = make().fit(X[tr], y[tr])
            want[te] = flat(m.predict(X[te]))
            scores.append(r2_score(y[te], want[te]))
        mon.close(got, want, "cross_val_predict and the loop by hand", rtol=1e-12)
        mon.close(cross_val_score(make(), X, y, cv=cv), scores, "cross_val_score and the loop by hand", rtol=1e-9, atol=1e-12)
        mon.seen("cross-validation")
    elif kind == "grid":
        cv = KFold(3)
        alphas = [0.5, 0.75, 0.95]
        g = GridSearchCV(Pipeline([("s", RobustScaler()), ("r", FastLTSRegression(n_initial_subsets=20))]), {"r__alpha": alphas}, cv=cv).fit(X, y)
        want = []
        for a in alphas:
            want.append(np.mean([cross_val_score(Pipeline([("s", RobustScaler()), ("r", FastLTSRegression(n_initial_subsets=20, alpha=a))]), X, y, cv=cv)]))
        mon.close(g.cv_results_["mean_test_score"], want, "grid search over alpha", rtol=1e-9, atol=1e-12)
        mon.ok(g.best_estimator_.get_params()["r__alpha"] == g.best_params_["r__alpha"], "best parameter")
        mon.seen("grid search")
    elif kind == "columns":
        d = pd.DataFrame(Z, columns=list("abcde"))
        ct = ColumnTransformer([("one", RobustScaler(), ["a", "c"]), ("two", PCALocantore(n_components=1), ["b", "d", "e"])]).fit(d)
        got = ct.transform(d)
        want = np.column_stack([RobustScaler().fit(d[["a", "c"]]).transform(d[["a", "c"]]), PCALocantore(n_components=1).fit(d[["b", "d", "e"]].to_numpy()).transform(d[["b", "d", "e"]].to_numpy())])
        mon.close(np.asarray(got), want, "column transformer and steps by hand", rtol=1e-9, atol=1e-12)
        mon.seen("pipeline")
    elif kind == "fit_transform":
        for make in (RobustScaler, lambda: PCALocantore(n_components=2), lambda: ROBPCA(n_components=2, random_seed=2)):
            t = make()
            got = np.asarray(t.fit_transform(Z))
            u = make().fit(Z)
            mon.close(got, np.asarray(u.transform(Z)), "fit_transform and fit, transform", rtol=1e-9, atol=1e-10, cls=type(t).__name__)
            mon.close(np.asarray(t.transform(Z)), got, "transform after fit_transform", rtol=1e-9, atol=1e-10)
            mon.ok(not [k for k in params_repr(clone(t)) if params_repr(clone(t))[k] != params_repr(make())[k]], "clone after a fit")
            mon.seen("fit_transform")
    elif kind == "names":
        names = [f"{rng.choice(list('pqrst'))}{j}" for j in rng.permutation(5)]
        d = pd.DataFrame(Z, columns=names, index=rng.permutation(n) + 3)
        q = int(rng.integers(1, 5))
        for make, want in (
            (lambda: RobustScaler(with_scaling=bool(i % 2)), names),
            (lambda: PCALocantore(n_components=q), [f"pcalocantore{j}" for j in range(q)]),
            (lambda: ROBPCA(n_components=q, random_seed=2, final_MCD_step=bool(i % 2)), [f"robpca{j}" for j in range(q)]),
        ):
            t = make().fit(d)
            mon.ok(list(t.get_feature_names_out()) == want, "names of the output features", got=list(t.get_feature_names_out()), want=want)
            u = make().set_output(transform="pandas")
            out = u.fit_transform(d)
            mon.ok(isinstance(out, pd.DataFrame) and list(out.columns) == want and out.index.equals(d.index), "a frame was asked for as output", want=want, got=list(getattr(out, "columns", [])))
            mon.close(out.to_numpy(), np.asarray(t.transform(d)), "values of the frame", rtol=1e-12)
            mon.seen("names")
        s = RobustScaler().fit(d)
        mon.ok(list(s.fit(Z[:, :3]).get_feature_names_out()) == ["x0", "x1", "x2"], "names after a fit to an array", got=list(s.get_feature_names_out()))
        ct = ColumnTransformer([("one", RobustScaler(), [names[3], names[0]]), ("two", PCALocantore(n_components=1), names[1:3])]).fit(d)
        mon.ok(list(ct.get_feature_names_out()) == [f"one__{names[3]}", f"one__{names[0]}", "two__pcalocantore0"], "names of the column transformer", got=list(ct.get_feature_names_out()))
        pipe = Pipeline([("s", RobustScaler()), ("p", PCALocantore(n_components=q))]).set_output(transform="pandas").fit(d)
        mon.ok(list(pipe.get_feature_names_out()) == [f"pcalocantore{j}" for j in range(q)] and list(pipe.transform(d[:4]).columns) == list(pipe.get_feature_names_out()), "names of the pipeline")
        if p == 2:
            flatscaler = RobustScaler().fit(Z[:, 0])
            mon.ok(list(flatscaler.get_feature_names_out()) == ["x0"], "name of one-dimensional data")
    else:
        for make in makers:
            m = make().fit(X, y)
            mon.close(m.score(X, y), r2_score(y, flat(m.predict(X))), "score is the coefficient of determination of predict", rtol=1e-12, atol=1e-12)
            w = rng.uniform(0.1, 2, n)
            mon.close(m.score(X, y, sample_weight=w), r2_score(y, flat(m.predict(X)), sample_weight=w), "weighted score", rtol=1e-12, atol=1e-12)
            mon.seen("score")
    mon.state(kind, i % 3)


def run(case, mon):
    {"params": params, "used": used}.get(case["kind"], tools)(case, mon)
