"""C31: the adjusted boxplot has the fences of Hubert and Vandervieren, and draws what it returns."""
import numpy as np
import pandas as pd

from rv import gen
from rv.core import Skip

RULE = (
    "samples of all families (skewed both ways, symmetric, ties, integers, outliers, constant), one to five variables, arrays, series and frames; the medcouple by its definition over all pairs; the artists of the axes are read back. "
    "Non-trivial: boxes and artists were compared"
)
ASSUME = ["at least four observations", "the kernel of the medcouple at ties with the median is the sign of the rank difference"]
REQUIRE = {"box": 300, "drawn": 80, "right skewed": 60, "left skewed": 60, "fence clipped to the data": 60, "fliers": 100, "labels": 25}
CHUNK = 10


def cases(tier):
    q = tier == "quick"
    out = []
    for k, n in (("boxes", 160), ("drawn", 100), ("equivariance", 40)):
        out += [{"kind": k, "i": r} for r in range(n if q else n * 40)]
    return out


def medcouple(x):
    """Definition: median of the kernel over all pairs x_i <= median <= x_j."""
    s = np.sort(np.asarray(x, dtype=float))
    n = len(s)
    m = np.median(s)
    z = s - m
    low, up = z[z <= 0], z[z >= 0]
    vals = []
    ties = int(np.sum(z == 0))
    # positions among the ties: the lower sample ends with them, the upper one begins with them
    for a, l in enumerate(low):
        for b, u in enumerate(up):
            if u == 0 and l == 0:
                i, j = a - (len(low) - ties), b  # 0-based among the ties
                vals.append(float(np.sign(j - (ties - 1 - i))))
            else:
                vals.append((u + l) / (u - l))
    return float(np.median(vals))


def box(x):
    x = np.asarray(x, dtype=float)
    s = np.sort(x)
    n = len(s)

    def quantile(q):
        h = (n - 1) * q
        k = int(np.floor(h))
        return s[k] + (h - k) * (s[min(k + 1, n - 1)] - s[k])

    q1, med, q3 = quantile(0.25), quantile(0.5), quantile(0.75)
    mc = medcouple(x)
    a, b = (-4, 3) if mc >= 0 else (-3, 4)
    lo, up = q1 - 1.5 * np.exp(a * mc) * (q3 - q1), q3 + 1.5 * np.exp(b * mc) * (q3 - q1)
    return dict(median=med, q1=q1, q3=q3, lower_whisker=max(lo, s[0]), upper_whisker=min(up, s[-1]), mc=mc, fences=(lo, up))


def data(rng, i, n, p):
    cols = []
    for j in range(p):
        fam = ("skew", "lognormal", "contaminated", "integer", "rounded", "normal", "ties", "t2", "two_scales", "uniform")[int(rng.integers(10))]
        if fam == "skew":
            c = -np.exp(rng.standard_normal(n))
        else:
            c = gen.uni(rng, fam, n)
        cols.append(c * 10.0 ** int(rng.integers(-3, 4)) + float(rng.integers(-3, 4)))
    return np.column_stack(cols)


def compare(mon, boxes, X):
    mon.ok(isinstance(boxes, list) and len(boxes) == X.shape[1], "one box per variable", got=len(boxes))
    wants = []
    for j, b in enumerate(boxes):
        w = box(X[:, j])
        wants.append(w)
        spread = np.ptp(X[:, j]) + np.max(np.abs(X[:, j]))
        for k in ("median", "q1", "q3", "lower_whisker", "upper_whisker"):
            mon.close(getattr(b, k), w[k], k, rtol=1e-9, atol=1e-10 * spread, column=j, medcouple=w["mc"], n=len(X))
        mon.seen("box")
        mon.seen("right skewed" if w["mc"] > 0.05 else "left skewed" if w["mc"] < -0.05 else "symmetric")
        if w["fences"][0] < X[:, j].min() or w["fences"][1] > X[:, j].max():
            mon.seen("fence clipped to the data")
    return wants


def artists(ax, pos, vert=True):
    """Whiskers, caps, median and fliers drawn around one position."""
    out = {"v": [], "h": [], "fliers": None, "box": []}
    for line in ax.lines:
        x, y = (np.asarray(v, dtype=float) for v in line.get_data())
        if not vert:
            x, y = y, x
        if line.get_linestyle() in ("None", "none", "", " "):
            if len(x) == 0 or np.all(x == pos):
                if len(x) or out["fliers"] is None:
                    out["fliers"] = np.sort(y) if len(x) else out["fliers"]
            continue
        if len(x) == 0 or np.max(np.abs(x - pos)) > 0.5:
            continue
        if len(x) == 2 and x[0] == x[1]:
            out["v"].append(tuple(sorted(y)))
        elif len(x) == 2:
            out["h"].append(float(y[0]))
        else:
            out["box"].append((float(np.min(y)), float(np.max(y))))
    if out["fliers"] is None:
        out["fliers"] = np.zeros(0)
    return out


def run(case, mon):
    import matplotlib.pyplot as plt

    from robpy.univariate import adjusted_boxplot

    rng, i, kind = mon.rng, case["i"], case["kind"]
    n = int(rng.choice([4, 5, 6, 7, 10, 25, 40]))
    p = int(rng.integers(1, 5))
    X = data(rng, i, n, p)
    mon.input(X)
    mon.state(kind, n, p)
    if kind == "boxes":
        if i % 6 == 5:
            X[:, 0] = 2.5
        arg = X
        if i % 4 == 1:
            arg = pd.DataFrame(X, columns=[f"v{j}" for j in range(p)], index=rng.permutation(n))
        elif i % 4 == 2:
            X = X[:, :1]
            arg = X[:, 0]
        elif i % 4 == 3:
            X = X[:, :1]
            arg = pd.Series(X[:, 0], name="s", index=rng.permutation(n))
        figs = plt.get_fignums()
        boxes = adjusted_boxplot(arg, plot=False)
        mon.ok(plt.get_fignums() == figs, "plot=False draws a figure")
        compare(mon, boxes, X)
        mon.note(n=n, p=p)
    elif kind == "equivariance":
        a, c = float(10 ** rng.uniform(-2, 2)), float(rng.normal() * 10)
        base = adjusted_boxplot(X, plot=False)
        if any(abs(medcouple(X[:, j])) < 1e-9 for j in range(p)):
            raise Skip("the sign of a zero medcouple")
        pos, neg = adjusted_boxplot(a * X + c, plot=False), adjusted_boxplot(-X, plot=False)
        perm = adjusted_boxplot(X[rng.permutation(n)], plot=False)
        for j, (b, u, v, w) in enumerate(zip(base, pos, neg, perm)):
            s = 1e-7 * (np.max(np.abs(X[:, j])) + abs(c) / a)
            for k, m in (("median", "median"), ("q1", "q3"), ("q3", "q1"), ("lower_whisker", "upper_whisker"), ("upper_whisker", "lower_whisker")):
                mon.close((getattr(u, k) - c) / a, getattr(b, k), "shifted and scaled: " + k, rtol=1e-7, atol=s)
                mon.close(-getattr(v, m), getattr(b, k), "reflected: " + k, rtol=1e-7, atol=s)
                mon.close(getattr(w, k), getattr(b, k), "reordered: " + k, rtol=1e-9, atol=s)
        mon.seen("equivariance")
    else:
        labels = [str(j) for j in range(p)]
        arg = X
        if i % 3 == 1:
            labels = [f"name {j}" for j in range(p)]
            arg = pd.DataFrame(X, columns=labels)
        elif i % 3 == 2:
            X = X[:, :1]
            labels, arg = ["the name"], pd.Series(X[:, 0], name="the name")
        own = bool(i % 2)
        vert = i % 5 != 0
        kw = {} if vert else {"vert": False}
        ax = plt.subplots()[1] if own else None
        before = len(plt.get_fignums())
        boxes = adjusted_boxplot(arg, ax=ax, figsize=(5, 3), **kw)
        wants = compare(mon, boxes, X)
        if own:
            mon.ok(len(plt.get_fignums()) == before, "a new figure although axes were given")
        else:
            mon.ok(len(plt.get_fignums()) == before + 1, "one new figure")
            ax = plt.gcf().axes[0]
            mon.ok(tuple(plt.gcf().get_size_inches()) == (5, 3), "figsize")
        ticks = ax.get_xticklabels() if vert else ax.get_yticklabels()
        mon.ok([t.get_text() for t in ticks] == labels, "labels of the boxes", got=[t.get_text() for t in ticks], want=labels)
        mon.seen("labels")
        for j, (b, w) in enumerate(zip(boxes, wants)):
            x = X[:, j]
            art = artists(ax, j + 1, vert)
            tol = 1e-9 * (np.ptp(x) + np.max(np.abs(x)))
            near = lambda u, v: abs(u - v) <= tol
            mon.ok(len(art["v"]) == 2, "two whiskers", got=art["v"])
            for end, q in ((b.lower_whisker, b.q1), (b.upper_whisker, b.q3)):
                lo, hi = min(end, q), max(end, q)
                mon.ok(any(near(a, lo) and near(c, hi) for a, c in art["v"]), "a whisker is not drawn from the quartile to its end", want=(lo, hi), got=art["v"])
                mon.ok(any(near(h, end) for h in art["h"]), "cap", want=end, got=art["h"])
            mon.ok(any(near(h, b.median) for h in art["h"]), "median line", want=b.median, got=art["h"])
            mon.ok(any(near(lo, b.q1) and near(hi, b.q3) for lo, hi in art["box"]), "box from the first to the third quartile", got=art["box"])
            want = np.sort(x[(x < b.lower_whisker) | (x > b.upper_whisker)])
            mon.close(art["fliers"], want, "fliers: the observations outside the whiskers", rtol=1e-12, column=j)
            if len(want):
                mon.seen("fliers", len(want))
        mon.seen("drawn")
        plt.close("all")
