"""C24: DataCleaner drops exactly the columns and rows its options name, reports them, and leaves the rest untouched."""
import numpy as np
import pandas as pd

from rv.core import Skip

RULE = (
    "data frames of generated columns (numbers of several types, strings, categories, dates, booleans, discrete, constant, row numbers, missing, infinite) under "
    "random options; fit on one frame, transform it and others; result and report judged against a model in plain Python. Non-trivial: a column or row was dropped"
)
ASSUME = ["unique column names", "missing fractions count row-number columns too (skipped where that matters)"]
REQUIRE = {"frames": 200, "columns dropped": 400, "rows dropped": 100, "second frame": 100, "non-numeric": 50, "bad scale": 20, "row numbers": 20, "missing columns": 50}
CHUNK = 20
KINDS = ("float", "float", "float", "int", "float32", "Int64", "nan", "nan", "manynan", "inf", "string", "mixed", "category", "date", "duration", "zoned", "bool", "discrete", "constant", "nearconstant", "rownumber", "objectnumber", "stringdtype", "allnan", "spike", "infconstant")


def cases(tier):
    return [{"kind": "clean", "i": r} for r in range(400 if tier == "quick" else 8000)]


def column(rng, kind, n):
    """(column, plain values with None for missing, numeric?)"""
    x = np.round(rng.standard_normal(n) * 10.0 ** rng.integers(-3, 4), 6) + 0.1234567
    hole = lambda p: rng.random(n) < p
    if kind in ("nan", "manynan"):
        x[hole(0.2 if kind == "nan" else rng.uniform(0.4, 0.8))] = np.nan
    elif kind == "inf":
        m = hole(0.3)
        x[m] = rng.choice([np.inf, -np.inf, np.nan], m.sum())
    elif kind == "int":
        return pd.array(rng.integers(-50, 50, n)), None, True
    elif kind == "float32":
        return x.astype(np.float32), None, True
    elif kind == "Int64":
        return pd.array([None if h else int(v) for h, v in zip(hole(0.3), rng.integers(0, 60, n))], dtype="Int64"), None, True
    elif kind == "string":
        return np.array(["s0"] + [None if h else f"s{v}" for h, v in zip(hole(0.2), rng.integers(0, 9, n - 1))], dtype=object), None, False
    elif kind == "stringdtype":
        return pd.array(["s0"] + [None if h else f"s{v}" for h, v in zip(hole(0.2), rng.integers(0, 9, n - 1))], dtype="string"), None, False
    elif kind == "mixed":
        v = x.astype(object)
        v[rng.integers(n)] = "n/a"
        return v, None, False
    elif kind == "category":
        return pd.Categorical([f"c{v}" for v in rng.integers(0, 6, n)]), None, False
    elif kind == "date":
        return pd.to_datetime("2020-01-01") + pd.to_timedelta(rng.integers(0, 500, n), "D"), None, False
    elif kind == "duration":
        return pd.to_timedelta(rng.integers(0, 500, n), "h"), None, False
    elif kind == "zoned":
        return pd.to_datetime("2020-01-01").tz_localize("Europe/Brussels") + pd.to_timedelta(rng.integers(0, 500, n), "h"), None, False
    elif kind == "bool":
        return rng.random(n) < 0.5, None, True
    elif kind == "discrete":
        x = rng.integers(0, rng.integers(1, 7), n).astype(float)
        x[hole(0.1)] = np.nan
    elif kind == "constant":
        x[:] = 3.5
    elif kind == "nearconstant":
        x[: n // 2 + 1] = 1.0
        x = x[rng.permutation(n)]
    elif kind == "rownumber":
        x = np.arange(n) if rng.random() < 0.5 else np.arange(n, dtype=float)
        if rng.random() < 0.2:
            x = x + 1
    elif kind == "objectnumber":
        v = x.astype(object)
        v[hole(0.2)] = None
        return v, None, True
    elif kind == "allnan":
        x[:] = np.nan
    elif kind == "infconstant":
        # constant for most of the finite values, for the minority of all values
        x[: int(0.42 * n)] = 1.25
        x[int(0.42 * n) : int(0.42 * n) + n // 4 + 1] = np.inf if rng.random() < 0.5 else -np.inf
        x = x[rng.permutation(n)]
    elif kind == "spike":
        # zeros and ones that count in the scale
        x = np.where(rng.random(n) < 0.65, 0.0, rng.integers(1, 9, n).astype(float))
    return x, None, True


def plain(col):
    out = []
    for v in col:
        if v is None or v is pd.NA or v is pd.NaT or (isinstance(v, (float, np.floating)) and not np.isfinite(v)):
            out.append(None)
        elif isinstance(v, (bool, np.bool_)):
            out.append(bool(v))
        elif isinstance(v, (int, float, np.integer, np.floating)):
            out.append(float(v))
        else:
            out.append(v)
    return out


def frame(rng, kinds, n):
    data, numeric = {}, {}
    for j, k in enumerate(kinds):
        c, _, num = column(rng, k, n)
        name = j if len(kinds) % 3 == 0 else f"{k}{j}"
        data[name], numeric[name] = c, num
    index = [None, np.arange(n)[::-1], [f"r{v}" for v in range(n)], np.zeros(n, int), np.arange(n) + 0.5][int(rng.integers(5))]
    df = pd.DataFrame(data, index=index)
    # the values as they are in the frame, not as generated
    return df, numeric


def model_fit(df, numeric, opt):
    """Lists of columns by reason, from the values."""
    non, disc, bad = [], [], []
    for c in df.columns:
        v = [u for u in plain(df[c].array) if u is not None]
        if not numeric[c]:
            non.append(c)
        if len(set(v)) <= opt["min_unique_values"]:
            disc.append(c)
        if c in non or c in disc:
            continue
        v = [float(u) for u in v]
        med = np.median(v)
        mad = np.median(np.abs(np.array(v) - med))
        if abs(mad - opt["min_abs_scale"]) < 1e-9 * opt["min_abs_scale"]:
            raise Skip("scale at the threshold")
        if mad <= opt["min_abs_scale"]:
            bad.append(c)
    return non, disc, bad


def model_transform(df, fitted, opt):
    non, disc, bad = fitted
    n, p = df.shape
    rown = [c for c in df.columns if all(isinstance(v, float) and v == r for r, v in enumerate(plain(df[c].array)))]
    for c in df.columns:
        v = plain(df[c].array)
        if None in v and str(df[c].dtype) == "Int64" and all(u is None or u == r for r, u in enumerate(v)):
            raise Skip("nullable integers with missing values that otherwise are row numbers")
    use = [c for c in df.columns if c not in non + disc + bad]
    miss = {c: np.array([v is None for v in plain(df[c].array)], bool) for c in use}
    first = opt["clean_na_first"]
    if first == "automatic":
        first = "columns" if p >= 5 * n else "rows"
    rows, cols = np.zeros(n, bool), []

    def by_row():
        keep = [c for c in use if c not in cols]
        count = sum((miss[c].astype(int) for c in keep), np.zeros(n, int))
        return count / len(keep) >= opt["max_missing_frac_rows"] if keep else np.zeros(n, bool)

    def by_col():
        k = int((~rows).sum())
        return [c for c in use if k and miss[c][~rows].sum() / k >= opt["max_missing_frac_cols"]]

    if first == "columns":
        cols = by_col()
        rows = by_row()
    else:
        rows = by_row()
        cols = by_col()
    return rown, cols, rows


def run(case, mon):
    from sklearn.exceptions import NotFittedError

    from robpy.preprocessing import DataCleaner

    rng, i = mon.rng, case["i"]
    wide = i % 7 == 3
    n = int(rng.integers(3, 5)) if wide else int(rng.integers(4, 40))
    p = (5 * n + int(rng.integers(-1, 2)) if rng.random() < 0.6 else int(rng.integers(14, 30))) if wide else int(rng.integers(2, 12))
    kinds = ["float"] + [KINDS[int(rng.integers(len(KINDS)))] for _ in range(p - 1)]
    opt = dict(max_missing_frac_cols=0.5, max_missing_frac_rows=0.5, min_unique_values=3, min_abs_scale=1e-12, clean_na_first="automatic", min_n_rows=3)
    kw = {}
    if i % 2:
        kw["max_missing_frac_cols"] = float(rng.choice([0.25, 0.5, 0.75, 0.125, 1.0]))
    if i % 3:
        kw["max_missing_frac_rows"] = float(rng.choice([0.25, 0.5, 0.75, 0.125, 1.0]))
    if i % 5 > 2 or wide:
        kw["min_unique_values"] = int(rng.choice([1, 2, 3, 5]))
    if i % 4 == 1:
        kw["min_abs_scale"] = float(rng.choice([0.0, 0.01, 1.0, 1e-6]))
    if i % 3 == 1:
        kw["clean_na_first"] = str(rng.choice(["rows", "columns"]))
    if i % 6 == 5:
        kw["min_n_rows"] = int(rng.integers(1, 12))
    opt.update(kw)
    df, numeric = frame(rng, kinds, n)
    mon.input(df[df.columns[0]].to_numpy(dtype=float), np.array([hash(k) % 997 for k in kinds]))
    fitted = model_fit(df, numeric, opt)
    cl = DataCleaner(**kw)
    mon.raises(NotFittedError, lambda: cl.dropped_columns, "dropped_columns before the fit")
    mon.raises(NotFittedError, lambda: cl.dropped_rows, "dropped_rows before the fit")
    keep = df.copy(deep=True)
    mon.ok(cl.fit(df) is cl, "fit must return the cleaner")
    mon.ok(keep.equals(df) and (keep.dtypes == df.dtypes).all(), "fit changed its input")
    frames = [df]
    if i % 2 == 0:
        m = int(rng.integers(max(opt["min_n_rows"], 3), 30))
        other, _ = frame(rng, kinds, m)
        for c in other.columns:
            if not numeric[c]:
                continue
        frames += [other, df]
        mon.seen("second frame")
    dropped = 0
    for d in frames:
        if len(d) < opt["min_n_rows"]:
            mon.raises(ValueError, lambda: cl.transform(d), "too few rows")
            mon.seen("too few rows")
            continue
        rown, cols, rows = model_transform(d, fitted, opt)
        non, disc, bad = fitted
        before = d.copy(deep=True)
        out = cl.transform(d)
        mon.ok(before.equals(d) and before.index.equals(d.index) and (before.dtypes == d.dtypes).all(), "transform changed its input")
        rep = cl.dropped_columns
        mon.ok(sorted(map(str, rep)) == ["cols_bad_scale", "cols_discrete", "cols_missings", "cols_rownumbers", "non_numeric_cols"], "keys of dropped_columns", got=sorted(rep))
        for key, want in (("non_numeric_cols", non), ("cols_discrete", disc), ("cols_bad_scale", bad), ("cols_rownumbers", rown)):
            mon.ok(sorted(map(str, rep[key])) == sorted(map(str, want)), f"dropped_columns[{key}]", got=rep[key], want=want, kinds=kinds, **kw)
        ambiguous = any(c not in non + disc + bad for c in rown)
        if ambiguous:
            # judged by the report itself below
            mon.seen("row numbers count as a column")
        mon.ok(sorted(map(str, rep["cols_missings"])) == sorted(map(str, cols)) or ambiguous, "dropped_columns[cols_missings]", got=rep["cols_missings"], want=cols, **kw)
        mon.ok(list(cl.dropped_rows["rows_missings"]) == list(d.index[rows]) or ambiguous, "dropped_rows", got=cl.dropped_rows, want=list(d.index[rows]), **kw)
        if not ambiguous:
            gone = set(non + disc + bad + rown + cols)
            left = [c for c in d.columns if c not in gone]
            mon.ok(list(out.columns) == left, "columns of the result", got=list(out.columns), want=left, **kw)
            mon.ok(list(out.index) == list(d.index[~rows]), "rows of the result", got=list(out.index), want=list(d.index[~rows]), **kw)
            for c in left:
                want = [v for v, r in zip(plain(d[c].array), rows) if not r]
                mon.ok(plain(out[c].array) == want, "values of the result", column=c)
                mon.ok(not any(isinstance(v, float) and np.isinf(v) for v in out[c].array if v is not pd.NA and v is not None), "infinite values must become missing")
        mon.ok(not set(out.columns) & set(rown), "a row-number column stays")
        dropped += d.shape[1] - out.shape[1] + len(d) - len(out)
        mon.seen("columns dropped", d.shape[1] - out.shape[1])
        mon.seen("rows dropped", len(d) - len(out))
        mon.seen("non-numeric", len(non))
        mon.seen("bad scale", len(bad))
        mon.seen("row numbers", len(rown))
        mon.seen("missing columns", len(cols))
    mon.seen("frames")
    if i % 8 == 0:
        mon.raises(ValueError, lambda: DataCleaner(clean_na_first="both").fit_transform(df if len(df) > 3 else pd.concat([df, df])), "unknown clean_na_first")
    if i % 4 == 2 and len(df) >= opt["min_n_rows"] and not any({u for u in plain(df[c].array) if isinstance(u, float)} >= {float(r) for r in range(n)} for c in df.columns):  # no row numbers in any order
        # the order of rows and columns does not matter
        perm, cperm = rng.permutation(n), rng.permutation(p)
        shuffled = df.iloc[perm, cperm]
        a, b = cl.fit(df).transform(df), DataCleaner(**kw).fit(shuffled).transform(shuffled)
        mon.ok(sorted(map(str, a.columns)) == sorted(map(str, b.columns)) and sorted(map(str, a.index)) == sorted(map(str, b.index)), "order of rows or columns matters", a=list(a.columns), b=list(b.columns))
    mon.state(tuple(sorted(set(kinds))), tuple(sorted(kw)))
    mon.note(n=n, p=p, dropped=dropped, **kw)
