"""C32: the bundled data sets are the published data, in the form their documentation gives, and work with the estimators."""
import csv
import hashlib
import os

import numpy as np
import pandas as pd

from rv import core

RULE = (
    "every loader, as array and frame, in random call histories with results overwritten in between, from other working directories and locales of the process; compared with an independent parse of the bundled files, "
    "documented shapes and published values; the workflows of the loader documentation are run. Non-trivial: a loaded set was compared"
)
ASSUME = ["the published values are checked in the places listed here (telephone, stars and animals completely through sums and known outliers)"]
REQUIRE = {"loaded": 60, "overwritten": 40, "workflow": 12}
CHUNK = 4
MIN_NONTRIVIAL = 5
SHAPES = {"telephone": (24, 2), "stars": (47, 2), "animals": (28, 2), "topgear": (297, 32), "glass": (180, 750)}


# fingerprints of the published values (names, numbers to 12 digits, texts)
PRINTS = {"telephone": "a7332438f4ff5e6542672c7d", "stars": "d8eec0269c95c3fe118552eb", "animals": "fcc2235a47183b6702fbf193", "topgear": "8ce6fe475a404ec79729810b", "glass": "8e5c81aa08b8a91add2824fb"}


def fingerprint(d):
    h = hashlib.sha256()
    for c in d.columns:
        h.update(str(c).encode())
        for v in d[c]:
            h.update(("NA" if pd.isna(v) else v if isinstance(v, str) else f"{float(v):.12g}").encode() + b";")
    return h.hexdigest()[:24]


def cases(tier):
    q = tier == "quick"
    return [{"kind": "load", "i": r} for r in range(20 if q else 200)] + [{"kind": "known", "i": r} for r in range(5)] + [{"kind": "workflow", "i": r} for r in range(12 if q else 60)]


def parse(path):
    with open(path, newline="", encoding="utf-8") as f:
        rows = list(csv.reader(f))
    return rows[0], rows[1:]


def check(mon, b, name, as_frame):
    mon.ok(np.shape(b.data) == SHAPES[name], "documented shape", name=name, got=np.shape(b.data))
    mon.ok(isinstance(b.data, pd.DataFrame) == as_frame and (as_frame or isinstance(b.data, np.ndarray)), "as_frame decides the container", name=name)
    mon.ok(len(b.feature_names) == SHAPES[name][1] and len(set(b.feature_names)) == len(b.feature_names), "feature names")
    if as_frame:
        mon.ok(list(b.data.columns) == list(b.feature_names), "columns are the feature names", name=name)
    mon.ok(isinstance(b.DESCR, str) and len(b.DESCR) > 50, "description")
    path = os.path.join(str(b.data_folder), b.filename)
    mon.ok(os.path.exists(path) and os.path.abspath(path).startswith(core.PKG), "filename points to the file", path=path)
    head, rows = parse(path)
    mon.ok(len(rows) == SHAPES[name][0], "all rows of the file")
    at = [head.index(c) for c in b.feature_names]
    values = b.data.to_numpy() if as_frame else b.data
    for r, row in enumerate(rows):
        for c, k in enumerate(at):
            cell, got = row[k], values[r, c]
            if cell in ("", "NA", "NaN", "nan"):
                good = pd.isna(got)
            elif isinstance(got, str):
                good = got == cell
            elif isinstance(got, (bool, np.bool_)):
                good = str(bool(got)).lower() == cell.lower()
            else:
                good = abs(float(got) - float(cell)) <= 1e-12 * abs(float(cell))
            if not good:
                mon.fail("a value differs from the file", name=name, row=r, column=b.feature_names[c], got=got, file=cell)
    mon.evaluations += 1
    if name != "topgear":
        mon.ok(np.issubdtype(np.asarray(values).dtype, np.number), "numeric array", name=name)
    mon.seen("loaded")
    mon.state(name, as_frame)


def run(case, mon):
    import robpy.datasets as ds

    rng, i = mon.rng, case["i"]
    mon.input(rng.integers(0, 1 << 30, 4))
    load = {n: getattr(ds, f"load_{n}") for n in SHAPES}
    if case["kind"] == "load":
        old = os.getcwd()
        os.chdir("/")
        try:
            for name in rng.choice(list(SHAPES), 4, p=[0.23, 0.23, 0.23, 0.23, 0.08]):
                as_frame = bool(rng.integers(2))
                b = load[name](as_frame=as_frame) if rng.random() < 0.7 or as_frame else load[name]()
                check(mon, b, name, as_frame)
                # what the caller does to one result does not reach the next
                if as_frame:
                    b.data.iloc[:, 0] = b.data.iloc[0, 0]
                    b.data.drop(columns=b.data.columns[-1], inplace=True)
                elif b.data.dtype != object:
                    b.data[...] = -1
                b.feature_names.append("extra")
                b["DESCR"] = ""
                mon.seen("overwritten")
                if name != "glass":
                    check(mon, load[name](as_frame=as_frame), name, as_frame)
        finally:
            os.chdir(old)
    elif case["kind"] == "known":
        name = list(SHAPES)[i]
        b = load[name](as_frame=True)
        d = b.data
        if name == "telephone":
            # Rousseeuw and Leroy (1987), table 1 of chapter 2
            calls = [0.44, 0.47, 0.47, 0.59, 0.66, 0.73, 0.81, 0.88, 1.06, 1.20, 1.35, 1.49, 1.61, 2.12, 11.90, 12.40, 14.20, 15.90, 18.20, 21.20, 4.30, 2.40, 2.70, 2.90]
            scale = d["Calls"].iloc[0] / 0.44
            mon.close(d["Calls"].to_numpy() / scale, calls, "published numbers of calls", atol=0.011)
            mon.close(d["Year"].to_numpy() - d["Year"].iloc[0], np.arange(24), "years")
        elif name == "stars":
            mon.close([d.Te.sum(), d.light.sum(), d.Te.min(), d.light.max()], [202.57, 235.57, 3.48, 6.29], "published stars", atol=0.011)
            giants = d[d.Te < 3.6]
            mon.ok(len(giants) == 4 and set(giants.index) == {10, 19, 29, 33}, "the four giant stars", got=list(giants.index))
        elif name == "animals":
            heavy = d[d.body > 9000]
            mon.ok(len(heavy) == 3 and heavy.body.max() == 87000 and set(np.round(heavy.brain, 1)) == {50.0, 70.0, 154.5}, "the three dinosaurs", got=heavy.to_numpy())
            mon.ok(d.brain.max() == 5712 and float(d.body[d.brain == 5712].iloc[0]) == 6654, "African elephant")
        elif name == "topgear":
            mon.ok(set(b.categorical_features) <= set(b.feature_names), "categorical features are features")
            num = [c for c in b.feature_names if pd.api.types.is_numeric_dtype(d[c])]
            mon.ok(not set(num) & set(b.categorical_features), "numeric columns are not listed as categorical", both=sorted(set(num) & set(b.categorical_features)))
            mon.ok(set(num) | set(b.categorical_features) == set(b.feature_names), "the other columns are numeric")
        else:
            mon.ok(list(d.columns) == [f"V{j}" for j in range(1, 751)] and not d.isna().any().any(), "glass")
        mon.ok(fingerprint(d) == PRINTS[name], "a value differs from the published data", name=name, got=fingerprint(d))
        mon.note(name=name)
    else:
        k = i % 6
        if k == 0:
            from robpy.regression import MMRegression

            b = ds.load_telephone()
            m = MMRegression().fit(b.data[:, 0], b.data[:, 1])
            slope = float(m.predict(b.data[1:2, :1])[0] - m.predict(b.data[:1, :1])[0])
            unit = b.data[0, 1] / 0.44
            mon.ok(0.09 < slope / unit < 0.14, "telephone: the slope of the regular years", slope=slope / unit)
        elif k == 1:
            from robpy.covariance import DetMCD, FastMCD

            b = ds.load_stars()
            est = FastMCD(random_seed=i).fit(b.data) if i % 2 else DetMCD().fit(b.data)
            md = est.mahalanobis(b.data)
            mon.ok(set(np.argsort(md)[-4:]) == {10, 19, 29, 33}, "stars: the giants are the most outlying", got=np.argsort(md)[-6:])
            mon.ok(np.corrcoef(b.data.T)[0, 1] < 0 < est.covariance_[0, 1], "stars: the robust correlation is positive")
        elif k == 2:
            from robpy.covariance import FastMCD

            b = ds.load_animals()
            est = FastMCD(random_seed=i).fit(np.log(b.data))
            md = est.mahalanobis(np.log(b.data))
            dinos = set(np.flatnonzero(b.data[:, 0] > 9000))
            mon.ok(dinos <= set(np.argsort(md)[-5:]), "animals: the dinosaurs are outlying", got=np.argsort(md)[-5:])
        elif k == 3:
            from robpy.regression import FastLTSRegression

            b = ds.load_topgear(as_frame=True)
            d = b.data.dropna(subset=["Cylinders", "Torque", "TopSpeed", "Price"])
            m = FastLTSRegression().fit(d[["Cylinders", "Torque", "TopSpeed"]], d["Price"])
            r = d["Price"].to_numpy() - np.ravel(m.predict(d[["Cylinders", "Torque", "TopSpeed"]]))
            mon.ok(np.all(np.isfinite(r)) and d["Price"].to_numpy()[np.argmax(np.abs(r))] > 5e5, "topgear: the supercars do not fit", scale=m.scale)
        elif k == 4:
            from robpy.outliers import DDC
            from robpy.preprocessing import DataCleaner

            b = ds.load_topgear(as_frame=True)
            c = DataCleaner().fit(b.data)
            clean = c.transform(b.data)
            mon.ok(set(b.categorical_features) <= set(c.dropped_columns["non_numeric_cols"]), "topgear: categorical columns are dropped")
            mon.ok("Verdict" in clean.columns and "Price" in clean.columns, "topgear: numeric columns stay", got=list(clean.columns))
            for col in ("Price", "Displacement", "BHP", "Torque", "TopSpeed"):
                clean[col] = np.log(clean[col])
            cells, _ = DDC().fit(clean).predict(clean)
            named = dict(zip(b.data["Model"], b.data.index))
            cell = pd.DataFrame(np.asarray(cells), index=clean.index, columns=clean.columns)
            # known cellwise outliers of this data set (Rousseeuw and Van den Bossche, 2018)
            if named["Peugeot 107" if "Peugeot 107" in named else "107"] in cell.index:
                mon.ok(bool(cell.loc[named["107"], "Weight"]), "topgear: the weight of the Peugeot 107 is an outlying cell")
        else:
            from robpy.pca import ROBPCA

            b = ds.load_glass()
            X = b.data[:, 13:313]
            est = ROBPCA(n_components=3, random_seed=i).fit(X)
            T = est.transform(X)
            mon.ok(T.shape == (180, 3) and np.all(np.isfinite(T)), "glass: finite scores")
            mon.close(est.components_.T @ est.components_, np.eye(3), "glass: orthonormal components", atol=1e-8)
        mon.seen("workflow")
        mon.state("workflow", k)
