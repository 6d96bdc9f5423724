"""C34: the diagnostic plots draw the fitted quantities, thresholds, labels and colours they document."""
import numpy as np
import pandas as pd
from scipy.stats import chi2

from rv import gen, ref
from rv.checks.c10 import contaminate
from rv.core import Skip

RULE = (
    "'distances': distance_distance_plot of every covariance estimator; 'cells': the five cell_MCD_plot types with random variables, quantiles, names and missing cells; 'cellmap': random zooms, colour limits, annotations, "
    "missing cells and new data. Artists are read back from the figures. Non-trivial: artists were compared"
)
ASSUME = ["cellmap's own colour map needs a limit above 2.5, the bound of its neutral colour"]
REQUIRE = {"distances": 15, "cells": 50, "named": 200, "not named": 500, "ellipse": 8, "cellmap": 15, "coloured": 500, "annotated": 150, "zoom": 12}
CHUNK = 6
TYPES = ("indexplot", "residuals_vs_variable", "residuals_vs_predictions", "variable_vs_predictions", "bivariate")
MAKERS = ("FastMCD", "DetMCD", "OGK", "KendallTau", "WrappingCovariance", "CellMCD")


def cases(tier):
    q = tier == "quick"
    out = [{"kind": "distances", "i": r} for r in range(30 if q else 600)]
    out += [{"kind": "cells", "i": r} for r in range(16 if q else 240)]
    out += [{"kind": "cellmap", "i": r} for r in range(36 if q else 400)]
    return out


def points(ax):
    return np.asarray(np.ma.filled(np.ma.asarray(ax.collections[0].get_offsets()).astype(float), np.nan))


def lines(ax):
    """Horizontal and vertical lines across the axes, sloped lines (point, slope), curves."""
    h, v, s, c = [], [], [], []
    for ln in ax.lines:
        if type(ln).__name__ == "AxLine" or type(ln).__name__ == "_AxLine":
            s.append((ln._xy1, ln._slope) if hasattr(ln, "_xy1") else None)
            continue
        d = np.asarray(ln.get_xydata(), dtype=float)
        if len(d) > 2:
            c.append(d)
        elif d[0, 1] == d[1, 1] and d[0, 0] != d[1, 0]:
            h.append(float(d[0, 1]))
        else:
            v.append(float(d[0, 0]))
    return sorted(h), sorted(v), s, c


def names_drawn(ax):
    return sorted((t.get_text(), *[round(float(u), 9) for u in t.get_position()]) for t in ax.texts)


def diagonal(mon, s):
    mon.ok(len(s) == 1, "one identity line", got=len(s))
    if s[0] is not None:
        (x, y), slope = s[0]
        mon.ok(slope == 1 and abs(x - y) <= 1e-12 * max(1, abs(x)), "the line of equality", got=s[0])


def distances(case, mon):
    import matplotlib.pyplot as plt

    import robpy.covariance as cov

    rng, i = mon.rng, case["i"]
    name = MAKERS[i % len(MAKERS)]
    n, p = int(rng.integers(30, 60)), int(rng.integers(1, 5))
    X = gen.multi(rng, ("gauss", "t3", "cluster")[i % 3] if name != "CellMCD" else "gauss", n, p) * 10.0 ** rng.integers(-2, 3, p)
    mon.input(X)
    est = cov.FastMCD(random_seed=1) if name == "FastMCD" else getattr(cov, name)()
    mon.raises(Exception, lambda: type(est)().distance_distance_plot(), "plot before fit")
    try:
        est.fit(gen.frame(rng, X, "plain") if i % 2 else X)
    except ValueError:
        raise Skip("refused")
    kw = {}
    perc = 0.975
    if rng.random() < 0.6:
        perc = kw["chi2_percentile"] = float(rng.choice([0.9, 0.99, 0.5]))
    if rng.random() < 0.5:
        kw["figsize"] = (5, 3)
    before = plt.get_fignums()
    fig = est.distance_distance_plot(**kw)
    mon.ok(len(plt.get_fignums()) == len(before) + 1 and fig.number not in before, "one new figure is returned")
    mon.ok(tuple(fig.get_size_inches()) == kw.get("figsize", (4, 4)), "figure size")
    ax = fig.axes[0]
    rd = np.sqrt(ref.mahal2(X, est.location_, est.covariance_))
    md = np.sqrt(ref.mahal2(X, X.mean(axis=0), np.cov(X.T).reshape(p, p)))
    got = points(ax)
    mon.close(got[:, 0], md, "classical distances against", rtol=1e-6, atol=1e-8, estimator=name)
    mon.close(got[:, 1], rd, "robust distances", rtol=1e-6, atol=1e-8, estimator=name)
    h, v, s, c = lines(ax)
    t = np.sqrt(chi2.ppf(perc, p))
    mon.close(h, [t], "horizontal threshold", rtol=1e-9)
    mon.close(v, [t], "vertical threshold", rtol=1e-9)
    diagonal(mon, s)
    mon.ok("obust" in ax.get_ylabel() and "Non-robust" in ax.get_xlabel() and "Non" not in ax.get_ylabel(), "labels", x=ax.get_xlabel(), y=ax.get_ylabel())
    mon.seen("distances")
    mon.state("distances", name, p, perc)


def thresholds(x, cut):
    loc, sc, margin = ref.one_step_wrapping(x[~np.isnan(x)])
    return loc - cut * sc, loc + cut * sc


def cells(case, mon):
    import matplotlib.pyplot as plt

    from robpy.covariance import CellMCD

    rng, i = mon.rng, case["i"]
    n, p = int(rng.integers(50, 80)), int(rng.integers(2, 5))
    X = gen.multi(rng, "gauss", n, p)
    for _ in range(int(rng.integers(2, 9))):
        X[rng.integers(n), rng.integers(p)] += float(rng.choice([-1, 1])) * rng.uniform(3, 9) * X.std()
    nans = i % 2 == 1
    if nans:
        for _ in range(6):
            X[rng.integers(n), rng.integers(p)] = np.nan
    X = X * 10.0 ** rng.integers(-2, 3, p) + rng.integers(-3, 4, p)
    mon.input(X)
    quantile = float(rng.choice([0.99, 0.95, 0.9]))
    try:
        est = CellMCD(quantile=quantile).fit(X)
    except ValueError:
        raise Skip("refused")
    mon.raises(Exception, lambda: CellMCD().cell_MCD_plot(0), "plot before fit")
    base = np.sqrt(chi2.ppf(quantile, 1))
    for t in TYPES:
        j = int(rng.integers(p))
        k = int((j + 1 + rng.integers(p - 1)) % p)
        kw = {"plottype": t}
        if rng.random() < 0.7:
            kw["variable_name"] = "height"
        names = None
        if rng.random() < 0.8:
            names = [f"case {a}" for a in rng.permutation(n)]
            kw["row_names"] = list(names) if rng.random() < 0.7 else pd.Index(names)
        aq = None
        if rng.random() < 0.5:
            aq = kw["annotation_quantile"] = float(rng.choice([0.8, 0.975, 0.999]))
        if t == "bivariate":
            kw["second_variable"] = k
            if rng.random() < 0.5:
                kw["second_variable_name"] = "weight"
        if rng.random() < 0.3:
            kw["figsize"] = (6, 4)
        x_before = X.copy()
        fig = est.cell_MCD_plot(j, **kw)
        mon.ok(np.array_equal(X, x_before, equal_nan=True), "the data are unchanged")
        mon.ok(tuple(fig.get_size_inches()) == kw.get("figsize", (8, 8)), "figure size")
        ax = fig.axes[0]
        x = {"indexplot": np.arange(n, dtype=float), "residuals_vs_variable": X[:, j], "bivariate": X[:, j]}.get(t, est.predictions[:, j])
        y = {"variable_vs_predictions": X[:, j], "bivariate": X[:, k]}.get(t, est.residuals[:, j])
        got = points(ax)
        both = ~(np.isnan(x) | np.isnan(y))
        shown = ~np.isnan(got).any(axis=1)
        mon.ok(len(got) == n and np.array_equal(shown, both), "points shown are those with both values", plottype=t)
        mon.close(got[both], np.column_stack([x, y])[both], "drawn points", rtol=1e-12, plottype=t)
        h, v, s, c = lines(ax)
        scale = max(np.nanmax(np.abs(x)), 1e-300)
        yscale = max(np.nanmax(np.abs(y)), 1e-300)

        def limits(u, cut):
            return thresholds(u, cut)

        hw = (-base, base) if t in TYPES[:3] else limits(y, base)
        vw = () if t == "indexplot" else limits(x, base)
        mon.close(h, hw, "horizontal thresholds", rtol=1e-6, atol=1e-8 * yscale, plottype=t)
        mon.ok(len(v) == len(vw), "number of vertical thresholds", plottype=t)
        if len(vw):
            mon.close(v, vw, "vertical thresholds", rtol=1e-6, atol=1e-8 * scale, plottype=t)
        if t == "variable_vs_predictions":
            diagonal(mon, s)
        else:
            mon.ok(not s, "no line of equality")
        if t == "bivariate":
            ix = np.ix_([j, k], [j, k])
            mon.ok(len(c) == 1, "one ellipse")
            d2 = ref.mahal2(c[0], est.location_[[j, k]], est.covariance_[ix])
            mon.close(d2, np.full(len(d2), chi2.ppf(quantile, 2)), "the ellipse is not the tolerance ellipse", rtol=1e-6)
            ang = np.unwrap(np.arctan2(*(np.linalg.solve(np.linalg.cholesky(est.covariance_[ix]), (c[0] - est.location_[[j, k]]).T)[::-1])))
            mon.ok(abs(abs(ang[-1] - ang[0]) - 2 * np.pi) < 1e-6, "the ellipse is closed")
            mon.seen("ellipse")
        else:
            mon.ok(not c, "no ellipse")
        # names of the outlying points
        texts = [(q.get_text(), q.get_position()) for q in ax.texts]
        if names is None:
            mon.ok(not texts, "names drawn without row names", got=texts[:3])
        else:
            cut = base if aq is None else np.sqrt(chi2.ppf(aq, 1))
            if t == "bivariate":
                d2 = ref.mahal2(np.column_stack([x, y]), est.location_[[j, k]], est.covariance_[np.ix_([j, k], [j, k])])
                q = chi2.ppf(quantile if aq is None else aq, 2)
                far = d2 > q
                sure = ~(np.abs(d2 - q) < 1e-6 * q)
            else:
                hl = (-cut, cut) if t in TYPES[:3] else limits(y, cut)
                vl = (-np.inf, np.inf) if t == "indexplot" else limits(x, cut)
                far = (y < hl[0]) | (y > hl[1]) | (x < vl[0]) | (x > vl[1])
                sure = np.ones(n, bool)
                for u, lim, sc in ((y, hl, yscale), (x, vl, scale)):
                    for e in lim:
                        sure &= ~(np.abs(u - e) < 1e-7 * sc)
            drawn = {a: b for a, b in texts}
            mon.ok(len(drawn) == len(texts), "a name is drawn twice")
            for r in range(n):
                if not both[r] or not sure[r]:
                    continue
                mon.ok((names[r] in drawn) == bool(far[r]), "named points are those beyond the annotation thresholds", plottype=t, row=r, x=x[r], y=y[r], named=names[r] in drawn)
                mon.seen("named" if far[r] else "not named")
                if far[r]:
                    mon.close(drawn[names[r]], (x[r], y[r]), "a name stands at another point", rtol=1e-9, atol=1e-12)
            mon.ok(set(drawn) <= set(names), "unknown names")
        vn, sn = kw.get("variable_name", "variable"), kw.get("second_variable_name", "second variable")
        xl, yl = ax.get_xlabel(), ax.get_ylabel()
        mon.ok((vn in xl) == (t != "indexplot") and ((sn if t == "bivariate" else vn) in yl), "axis labels", x=xl, y=yl, plottype=t)
        mon.ok(("prediction" in xl) == (t in TYPES[2:4]) and ("residual" in yl) == (t in TYPES[:3]), "axis labels", x=xl, y=yl, plottype=t)
        plt.close(fig)
        mon.seen("cells")
        mon.state(t, quantile, aq, nans, names is None)
    n0 = plt.get_fignums()
    mon.raises(ValueError, lambda: est.cell_MCD_plot(0, plottype="bivariate"), "bivariate without a second variable")
    del n0


def cellmap(case, mon):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba

    from robpy.outliers import DDC

    rng, i = mon.rng, case["i"]
    n, p = int(rng.integers(25, 40)), int(rng.integers(3, 6))
    X = gen.multi(rng, "gauss", n, p)
    for _ in range(int(rng.integers(3, 10))):
        X[rng.integers(n), rng.integers(p)] += float(rng.choice([-1, 1])) * rng.uniform(3, 20) * X.std()
    if i % 3 == 1:
        for _ in range(5):
            X[rng.integers(n), rng.integers(p)] = np.nan
    mon.input(X)
    style = i % 4
    cols = list("abcdefgh")[:p] if style != 2 else list(range(10, 10 + p))
    index = {0: pd.RangeIndex(n), 1: pd.Index([f"r{a}" for a in rng.permutation(n)]), 2: pd.Index(rng.permutation(n)), 3: pd.RangeIndex(n)}[style]
    d = pd.DataFrame(X, columns=cols, index=index)
    est = DDC().fit(d)
    res = est.standardized_residuals_
    kw = {}
    if rng.random() < 0.4:  # residuals given by the caller, for other data
        d = pd.DataFrame(X[::-1] * 2 + 1, columns=cols, index=index)
        res = rng.standard_normal((n, p)) * 4
        kw["standardized_residuals"] = res.copy()
    vmax = float(np.sqrt(chi2.ppf(0.999, 1)))
    if rng.random() < 0.5:
        vmax = kw["vmax_clip"] = float(rng.choice([2.6, 3.0, 5.0, 8.0]))
    rows, columns = np.arange(n), np.arange(p)
    if rng.random() < 0.6:
        if rng.random() < 0.5:
            a, b = sorted(rng.choice(n, 2, replace=False))
            kw["row_zoom"] = (int(a), int(b))
            rows = rows[a:b]
        else:
            rows = rng.permutation(n)[: int(rng.integers(2, 8))]
            kw["row_zoom"] = index[rows]
        mon.seen("zoom")
    if rng.random() < 0.5:
        if rng.random() < 0.5:
            a, b = sorted(rng.choice(p, 2, replace=False))
            kw["col_zoom"] = (int(a), int(b))
            columns = columns[a:b]
        else:
            columns = rng.permutation(p)[: int(rng.integers(1, p))]
            kw["col_zoom"] = d.columns[columns]
        mon.seen("zoom")
    annotate = bool(rng.random() < 0.5)
    fmt = ".1f"
    if annotate:
        kw["annotate"] = True
        if rng.random() < 0.5:
            fmt = kw["fmt"] = ".3f"
    custom = True
    if rng.random() < 0.25:
        kw["cmap"] = "coolwarm"
        custom = False
    if rng.random() < 0.3:
        kw["figsize"] = (6, 6)
    keep, rkeep = d.copy(), est.standardized_residuals_.copy()
    ax = est.cellmap(d, **kw)
    mon.ok(keep.equals(d) and np.array_equal(rkeep, est.standardized_residuals_, equal_nan=True), "data and residuals are unchanged")
    fig = ax.figure
    mon.ok(tuple(fig.get_size_inches()) == kw.get("figsize", (7, 10)), "figure size")
    mesh = ax.collections[0]
    got = np.ma.filled(np.ma.asarray(mesh.get_array()).astype(float), np.nan).reshape(len(rows), len(columns))
    want = np.asarray(res)[np.ix_(rows, columns)]
    mon.ok(np.array_equal(np.isnan(got), np.isnan(want)), "empty cells are the missing residuals")
    mon.close(got[~np.isnan(want)], want[~np.isnan(want)], "a cell shows another residual", rtol=1e-12)
    mon.ok(mesh.get_clim() == (-vmax, vmax), "colour limits", got=mesh.get_clim(), want=vmax)
    mon.ok(ax.yaxis_inverted(), "first row at the top")
    fig.canvas.draw()
    colours = mesh.get_facecolors().reshape(len(rows), len(columns), 4)
    if custom:
        for r in range(len(rows)):
            for c in range(len(columns)):
                v = want[r, c]
                if np.isnan(v):
                    continue
                col = colours[r, c]
                tol = 0.02
                if v > vmax:
                    ok = np.allclose(col, to_rgba("#ec2123"), atol=tol)
                elif v < -vmax:
                    ok = np.allclose(col, to_rgba("#4652a3"), atol=tol)
                elif abs(v) < 2.5 - vmax / 100:
                    ok = np.allclose(col, to_rgba("#f7f286"), atol=tol)
                else:
                    ok = True
                mon.ok(ok, "colour of a cell: blue for low, neutral within 2.5, red for high", residual=v, colour=col[:3], vmax=vmax)
                mon.seen("coloured")
                mon.seen("clipped", abs(v) > vmax)
    lab = [t.get_text() for t in ax.get_yticklabels()]
    if len(lab) == len(rows):
        mon.ok(lab == [str(index[r]) for r in rows], "row labels", got=lab[:4])
    xlab = [t.get_text() for t in ax.get_xticklabels()]
    if len(xlab) == len(columns):
        mon.ok(xlab == [str(cols[c]) for c in columns], "column labels", got=xlab)
    if annotate:
        texts = {tuple(np.round(t.get_position(), 6)): t.get_text() for t in ax.texts}
        for r in range(len(rows)):
            for c in range(len(columns)):
                v = d.to_numpy()[rows[r], columns[c]]
                if np.isnan(want[r, c]):
                    mon.ok((c + 0.5, r + 0.5) not in texts, "an empty cell is annotated")
                    continue
                mon.ok(texts.get((c + 0.5, r + 0.5)) == format(v, fmt), "a cell is annotated with its original value", row=int(rows[r]), column=int(columns[c]), got=texts.get((c + 0.5, r + 0.5)), want=format(v, fmt))
                mon.seen("annotated")
    else:
        mon.ok(not ax.texts, "annotations were not asked for")
    mon.seen("cellmap")
    mon.state("cellmap", style, tuple(sorted(kw)))


def run(case, mon):
    import matplotlib.pyplot as plt

    plt.close("all")
    try:
        {"distances": distances, "cells": cells, "cellmap": cellmap}[case["kind"]](case, mon)
    finally:
        plt.close("all")
