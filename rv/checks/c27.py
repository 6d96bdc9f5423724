"""C27: estimators used from several threads at once give the results of one after the other."""
import sys
import threading
import time

import numpy as np

from rv import zoo
from rv.core import PROBE, StepBudget, Violated

RULE = (
    "each case starts 2 to 6 threads behind a barrier. 'fit': every thread fits and uses its own instance (equal or different classes; shared read-only data; shared parameter objects); "
    "'apply': all threads apply one fitted instance to their own data. The thread switch interval is 1 microsecond and threads are made to yield at random lines of robpy. "
    "Oracle: exactly the results of the same calls one after the other. Non-trivial: threads really alternated inside robpy"
)
ASSUME = [
    "schedules are those of the Python scheduler under forced yields (CPython with the global interpreter lock); drawing figures is outside (matplotlib is not thread-safe)",
    "one instance is not fitted by two threads at once, and DataCleaner (whose transform records what it dropped) is not shared",
]
REQUIRE = {"fit": 30, "apply": 25, "shared parameters": 8, "switches inside robpy": 2000, "results compared": 150}
CHUNK = 2
CASE_SECONDS = 200
APPLY = ("RobustScaler", "RobustScaler(Qn)", "RobustPowerTransformer", "RobustPowerTransformer(boxcox)", "ROBPCA", "PCALocantore", "FastLTSRegression", "SRegression", "MMRegression", "DDC", "FastMCD", "DetMCD", "OneStepWrapping")


def cases(tier):
    q = tier == "quick"
    names = zoo.names()
    out = [{"kind": "fit", "mix": [n], "i": r} for n in names for r in range(1 if q else 14)]
    out += [{"kind": "fit", "mix": None, "i": r} for r in range(12 if q else 300)]
    out += [{"kind": "apply", "mix": [n], "i": r} for n in APPLY for r in range(2 if q else 30)]
    return out


class Sched:
    """Yields at random lines of robpy and records which thread ran."""

    def __init__(self, rng, density):
        self.draws = rng.random(1 << 14) < density
        self.k = 0
        self.last = None
        self.switches = 0
        self.points = set()

    def __call__(self, code, line):
        me = threading.get_ident()
        if me != self.last:
            if self.last is not None:
                self.switches += 1
                self.points.add((code.co_qualname, line))
            self.last = me
        self.k += 1
        if self.draws[self.k & 0x3FFF]:
            time.sleep(0)


def together(jobs, sched):
    """Runs the jobs in threads; list of ("ok", result) or ("error", exception)."""
    out = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def work(j):
        gate.wait()
        try:
            out[j] = ("ok", jobs[j]())
        except BaseException as ex:
            out[j] = ("error", ex)

    ts = [threading.Thread(target=work, args=(j,), daemon=True) for j in range(len(jobs))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    PROBE.set_line_hook(sched)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
        PROBE.set_line_hook(None)
    return out


def params_of(est):
    return est.get_params(deep=False)


def run(case, mon):
    rng, i = mon.rng, case["i"]
    names = case["mix"]
    k = int(rng.integers(2, 6))
    if names is None:
        pool = zoo.names()
        names = [pool[int(j)] for j in rng.integers(0, len(pool), k)]
    E = [zoo.get(n) for n in names]
    E = [E[j % len(E)] for j in range(k)]
    sched = Sched(rng, (0.02, 0.1, 0.3)[i % 3])
    if case["kind"] == "fit":
        same = len(set(names)) == 1
        args = []
        for j, e in enumerate(E):
            a = args[0] if same and j and rng.random() < 0.5 else e.data(rng)
            args.append(a)
        share = same and rng.random() < 0.6
        mon.input(*[a for a in args[0] if isinstance(a, np.ndarray)])
        want = [e.use(e.fit(e.make(), a), a) for e, a in zip(E, args)]
        ests = [e.make() for e in E]
        if share and hasattr(type(ests[0]), "_get_param_names"):
            ests = [type(ests[0])(**params_of(ests[0])) for _ in ests]
            mon.seen("shared parameters")
        jobs = [lambda e=e, s=s, a=a: e.use(e.fit(s, a), a) for e, s, a in zip(E, ests, args)]
    else:
        e = E[0]
        train = e.data(rng)
        mon.input(*[a for a in train if isinstance(a, np.ndarray)])
        est = e.fit(e.make(), train)
        want = []
        args = []
        for j in range(k):
            while True:
                a = e.data(rng, len(train[0]) if e.name == "DDC" else None)
                if np.shape(a[0])[1:] == np.shape(train[0])[1:]:
                    break
            args.append(a)
        reps = 6
        want = [e.use(est, a) for a in args]

        def apply(a):
            got = [e.use(est, a) for _ in range(reps)]
            for g in got[1:]:
                if zoo.differing(got[0], g):
                    raise Violated("repeated calls of one thread differ: " + str(zoo.differing(got[0], g)))
            return got[0]

        jobs = [lambda a=a: apply(a) for a in args]
    got = together(jobs, sched)
    for e, w, (status, g) in zip(E, want, got):
        if status == "error":
            if isinstance(g, (StepBudget, Violated)):
                raise g
            mon.fail("an exception in one of several threads", estimator=e.name, error=f"{type(g).__name__}: {g}")
        bad = zoo.differing(w, g)
        mon.ok(not bad, "results with several threads differ from those one after the other", estimator=e.name, keys=bad, threads=names)
        mon.seen("results compared")
    if case["kind"] == "apply":
        bad = [zoo.differing(w, e.use(est, a)) for w, a in zip(want, args)]
        mon.ok(not any(bad), "applying in several threads changes the instance", estimator=e.name, keys=bad)
    mon.seen(case["kind"])
    mon.seen("switches inside robpy", sched.switches)
    mon.seen("line events", sched.k)
    for pt in sched.points:
        mon.state(*pt)
    mon.note(names=names, threads=k, switches=sched.switches, switch_points=len(sched.points))
