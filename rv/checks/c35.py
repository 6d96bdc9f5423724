"""C35: adjusted settings and replaced values are announced, and verbosity changes the messages only."""
import contextlib
import io
import logging
import re
import warnings

import numpy as np
import pandas as pd

from rv import gen
from rv.core import Skip

RULE = (
    "'levels': one fit at each level from DEBUG to CRITICAL with captured streams, log records and warnings; 'adjusted': settings of alpha "
    "around the smallest admissible subset size, as fractions and as counts; 'replaced': values on both sides of the range of a power "
    "transformation; 'cleaner': the counts in the messages; 'repeated': many instances, the same fit. Non-trivial: messages and their absence "
    "were both judged"
)
ASSUME = ["an announcement is a UserWarning or a log record of level WARNING or above that names the value used"]
REQUIRE = {"levels": 25, "silent fit": 25, "talkative fit": 10, "adjusted": 60, "not adjusted": 60, "values replaced": 10, "no value replaced": 10, "cleaner": 10, "repeated": 4}
CHUNK = 6


def cases(tier):
    q = tier == "quick"
    out = []
    for k, n in (("levels", 35), ("adjusted", 180), ("replaced", 40), ("cleaner", 12), ("repeated", 6)):
        out += [{"kind": k, "i": r} for r in range(n if q else n * 20)]
    return out


class Heard:
    def __init__(self):
        self.records, self.warnings, self.out, self.err = [], [], io.StringIO(), io.StringIO()

    def announcements(self):
        a = [r.getMessage() for r in self.records if r.levelno >= logging.WARNING]
        return a + [str(w.message) for w in self.warnings if w.category is UserWarning]

    def lines(self):
        # progress bars rewrite their line
        text = re.split(r"[\r\n]", self.out.getvalue() + "\n" + self.err.getvalue())
        return [t for t in text if t.strip() and not re.search(r"\d+%\||it/s|it\]|\?it|s/it", t)]


@contextlib.contextmanager
def listen(root_level=logging.WARNING, root=True):
    """Streams, log records and warnings of the block. With root=False the records are those written to the streams."""
    h = Heard()

    class Ear(logging.Handler):
        def emit(self, record):
            h.records.append(record)

    logger, ear = logging.getLogger(), Ear()
    old, handlers, disabled = logger.level, list(logger.handlers), logging.root.manager.disable
    try:
        logging.disable(logging.NOTSET)
        logger.handlers[:] = [ear] if root else []
        logger.setLevel(root_level)
        with contextlib.redirect_stdout(h.out), contextlib.redirect_stderr(h.err), warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            yield h
            h.warnings = list(w)
    finally:
        logger.handlers[:] = handlers
        logger.setLevel(old)
        logging.disable(disabled)


LEVELS = (logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL)


def talkers():
    from robpy.covariance import CellMCD, DetMCD, FastMCD
    from robpy.outliers import DDC
    from robpy.pca import ROBPCA
    from robpy.regression import FastLTSRegression, SRegression

    lin = lambda m: (np.ravel(m.model.coef_), np.ravel(m.model.intercept_), m.scale)
    cov = lambda m: (m.location_, m.covariance_)
    return [
        ("FastMCD", lambda v, X, y: FastMCD(verbosity=v, random_seed=3).fit(X), cov),
        ("DetMCD", lambda v, X, y: DetMCD(verbosity=v).fit(X), cov),
        ("CellMCD", lambda v, X, y: CellMCD(verbosity=v).fit(X), cov),
        ("ROBPCA", lambda v, X, y: ROBPCA(verbosity=v, alpha=0.8, random_seed=3).fit(X), lambda m: (m.location_, np.abs(m.components_), m.explained_variance_)),
        ("FastLTS", lambda v, X, y: FastLTSRegression(n_initial_subsets=30, alpha=0.8).fit(X, y, verbosity=v), lin),
        ("S", lambda v, X, y: SRegression(n_initial_subsets=20).fit(X, y, verbosity=v), lambda m: (m.predict(X0[0]), m.scale)),
        ("DDC", lambda v, X, y: DDC().fit(pd.DataFrame(X), verbose=v <= logging.INFO), lambda m: (m.location_, m.scale_, m.standardized_residuals_)),
    ]


X0 = [None]


def run(case, mon):
    rng, i = mon.rng, case["i"]
    kind = case["kind"]
    if kind == "levels":
        name, make, use = talkers()[i % 7]
        p = int(rng.integers(2, 5)) if name != "DDC" else int(rng.integers(2, 16))
        n = int(rng.integers(12 * p + 10, 15 * p + 25))
        X = gen.multi(rng, ["gauss", "t3"][i % 2], n, p)
        if name == "CellMCD":
            X = gen.multi(rng, "gauss", n, p)
        y = X @ rng.standard_normal(p) + 0.3 * rng.standard_normal(n)
        mon.input(X)
        X0[0] = X
        first, counts = None, []
        for v in LEVELS:
            with listen() as h:
                try:
                    m = make(v, X.copy(), y.copy())
                except ValueError as e:
                    if "marginal" in str(e):
                        raise Skip("too many marginal outliers")
                    raise
            res = [np.asarray(r, dtype=float) for r in use(m)]
            if first is None:
                first = res
            for a, b in zip(first, res):
                mon.close(b, a, "the fit depends on the verbosity", rtol=1e-9, atol=1e-9 * (1 + np.nanmax(np.abs(a))), estimator=name, level=v)
            low = [r for r in h.records if r.levelno < v]
            if name != "DDC":
                mon.ok(not low, "record below the chosen level", estimator=name, level=v, record=low[:1] and low[0].getMessage())
            counts.append(len(h.records) + len(h.lines()))
            if v > logging.INFO:
                text = h.out.getvalue() + h.err.getvalue()
                mon.ok(not text.strip(), "output of a fit that has nothing to announce", estimator=name, level=v, text=text[:200])
                mon.ok(not h.announcements(), "announcement without adjustment", estimator=name, level=v, text=h.announcements()[:1])
                mon.seen("silent fit")
            elif counts[-1]:
                mon.seen("talkative fit")
        mon.ok(all(a >= b for a, b in zip(counts, counts[1:])), "a higher level says more", estimator=name, counts=counts)
        if name in ("FastMCD", "FastLTS", "S", "DDC"):
            mon.ok(counts[0] > 0, "nothing is said at the lowest level", estimator=name)
        mon.seen("levels")
        mon.state(name, p)
        mon.note(estimator=name, n=n, p=p, messages=counts)
        return
    if kind == "adjusted":
        adjusted(rng, i, mon)
        return
    if kind == "replaced":
        from robpy.preprocessing import RobustPowerTransformer

        method = ["boxcox", "yeojohnson"][i % 2]
        n = int(rng.integers(30, 80))
        # lambda far from 1 has a bounded range
        z = rng.standard_normal(n)
        x = np.exp(z) if method == "boxcox" else (np.sinh(1.5 * z) + 1 if i % 4 == 1 else -np.exp(z))
        x = x * 10.0 ** rng.uniform(-1, 1)
        if method == "boxcox":
            x = x ** rng.choice([-0.4, 0.3, 2.0])
        mon.input(x)
        t = RobustPowerTransformer(method=method, standardize=bool(rng.integers(2))).fit(x.copy())
        z = t.transform(x.copy())
        lam = float(t.lambda_rew)
        a, b = (float(t.location_post), float(t.scale_post)) if t.standardize else (0.0, 1.0)
        lo = hi = None
        if method == "boxcox":
            lo, hi = (-1 / lam, None) if lam > 0 else (None, -1 / lam)
        elif lam > 2:
            lo = -1 / (lam - 2)
        elif lam < 0:
            hi = -1 / lam
        for side in (-1, 1):
            w = z.copy()
            k = int(rng.integers(n))
            edge = lo if side < 0 else hi
            far = (edge if edge is not None else 0) + side * abs(edge if edge is not None else 1) * float(rng.choice([0.01, 1, 50]))
            w[k] = (far - a) / b
            inside = z.copy()
            for data, out in ((w, edge is not None), (inside, False)):
                u = data * b + a
                if any(e is not None and np.min(np.abs(u - e)) < 1e-9 * (1 + abs(e)) for e in (lo, hi)):
                    raise Skip("value on the bound")
                out = (lo is not None and u.min() < lo) or (hi is not None and u.max() > hi)
                with listen(logging.INFO) as h, np.errstate(all="ignore"):
                    t.inverse_transform(data.copy())
                said = [r.getMessage() for r in h.records]
                mon.ok(bool(said) == bool(out), "replaced values and messages do not agree", replaced=bool(out), said=said[:2], method=method, lam=lam)
                if out:
                    new = 0.95 * (lo if lo is not None and u.min() < lo else hi)
                    mon.ok(named(said, new), "the message does not name the replacement", said=said, value=new)
                    mon.seen("values replaced")
                else:
                    mon.seen("no value replaced")
        mon.note(method=method, lam=lam)
        return
    if kind == "cleaner":
        from robpy.preprocessing import DataCleaner

        n, p = int(rng.integers(12, 60)), int(rng.integers(3, 8))
        X = pd.DataFrame(rng.standard_normal((n, p)), columns=[f"v{j}" for j in range(p)])
        X.iloc[:, 0] = 1.0 if i % 2 else X.iloc[:, 0]
        X.iloc[: int(rng.integers(0, 4)), 1:] = np.nan
        mon.input(X.to_numpy())
        with listen(logging.INFO) as h:
            Y = DataCleaner().fit(X).transform(X)
        said = [r.getMessage() for r in h.records]
        got = [[int(s) for s in re.findall(r"\b\d+\b", m)] for m in said]
        mon.ok([n, p] in got and list(Y.shape) in got, "the counts in the messages are not those of the data", said=said, before=(n, p), after=Y.shape)
        with listen(logging.WARNING) as h:
            DataCleaner().fit(X).transform(X)
        mon.ok(not h.records and not (h.out.getvalue() + h.err.getvalue()).strip(), "cleaner talks at level WARNING")
        mon.seen("cleaner")
        mon.note(n=n, p=p, said=len(said))
        return
    # repeated: as many lines from the last of several instances as from the first
    from robpy.covariance import FastMCD
    from robpy.pca import ROBPCA

    X = gen.multi(rng, "gauss", 40, 3)
    mon.input(X)
    make = (lambda: FastMCD(verbosity=logging.DEBUG, alpha=0.75)) if i % 2 else (lambda: ROBPCA(alpha=0.5, n_components=2))
    lines = []
    with listen(root=False) as h:  # one pair of streams, as in a process
        for _ in range(5):
            before = len(h.lines())
            make().fit(X)
            lines.append(h.lines()[before:])
    mon.ok(len(lines[0]) > 0, "nothing written")
    mon.ok(all(len(l) == len(lines[0]) for l in lines), "messages are written several times", lines=[len(l) for l in lines])
    mon.seen("repeated")
    mon.note(lines=len(lines[0]))


def named(said, value):
    nums = [float(s) for t in said for s in re.findall(r"-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?", t)]
    return any(abs(x - value) <= 1e-9 * max(1.0, abs(value)) for x in nums)


def adjusted(rng, i, mon):
    from robpy.covariance import CellMCD, DetMCD, FastMCD
    from robpy.pca import ROBPCA
    from robpy.regression import FastLTSRegression
    from robpy.univariate import UnivariateMCD

    name = ["FastMCD", "DetMCD", "UnivariateMCD", "CellMCD", "ROBPCA", "FastLTS"][i % 6]
    p = int(rng.integers(2, 6))
    n = int(rng.integers(12 * p, 16 * p)) + int(rng.integers(10, 30))
    X = gen.multi(rng, "gauss", n, p)
    y = X @ rng.standard_normal(p) + rng.standard_normal(n)
    small = (n + p + 1) // 2
    frac = [0.5, 0.5 + 0.5 / n, (small - 0.5) / n, (small + 0.5) / n, 0.75, 0.9][int(rng.integers(6))]
    count = bool(rng.integers(2))
    mon.input(X)
    used = None  # the value used if the setting was adjusted
    if name in ("FastMCD", "DetMCD"):
        alpha = int(rng.choice([-(-n // 2), small - 1, small, small + 1, n - 2])) if count else frac
        if alpha < n / 2 and count:
            raise Skip("below n/2")
        h = alpha if count else int(alpha * n)
        used = small if h < small else None
        make = {"FastMCD": lambda: FastMCD(alpha=alpha, n_initial_subsets=20), "DetMCD": lambda: DetMCD(alpha=alpha)}[name]
        fit = lambda: make().fit(X)
    elif name == "UnivariateMCD":
        x = X[:, 0]
        small = n // 2 + 1
        alpha = int(rng.choice([-(-n // 2), small, small + 1, n - 2])) if count else [0.5, (small - 0.5) / n, (small + 0.5) / n, 0.75][int(rng.integers(4))]
        h = alpha if count else int(alpha * n)
        used = small if h < small else None
        fit = lambda: UnivariateMCD(alpha=alpha).fit(x)
    elif name == "CellMCD":
        small = (n // 2 + 1.0) / n
        alpha = float(rng.choice([0.5, small - 1e-3, small + 1e-3, 0.75]))
        if alpha < 0.5:
            raise Skip("below a half")
        used = small if alpha < small else None
        fit = lambda: CellMCD(alpha=alpha).fit(X)
    elif name == "ROBPCA":
        k = int(rng.integers(1, p + 1)) if count else None
        small = (n + (k if count else 10) + 1) // 2
        alpha = [0.5, (small - 0.5) / n, (small + 0.5) / n, 0.75][int(rng.integers(4))]
        used = small if int(alpha * n) < small else None
        fit = lambda: ROBPCA(alpha=alpha, n_components=k).fit(X)
    else:
        alpha = frac
        used = small if int(alpha * n) < small else None
        fit = lambda: FastLTSRegression(alpha=alpha, n_initial_subsets=10).fit(X, y, verbosity=logging.WARNING)
    with listen() as h:
        try:
            fit()
        except ValueError as e:
            if "marginal" in str(e):
                raise Skip("too many marginal outliers")
            raise
    said = h.announcements()
    if used is None:
        mon.ok(not said, "announcement without adjustment", estimator=name, alpha=alpha, n=n, p=p, said=said[:2])
        mon.seen("not adjusted")
    else:
        mon.ok(said, "setting adjusted without announcement", estimator=name, alpha=alpha, n=n, p=p, used=used)
        mon.ok(named(said, used), "the announcement does not name the value used", estimator=name, alpha=alpha, used=used, said=said[:2])
        mon.seen("adjusted")
    mon.state(name, used is None, count)
    mon.note(estimator=name, n=n, p=p, alpha=alpha, used=used, said=len(said))
