"""Runner, monitors and evidence for the runtime checks.

A check module (rv/checks/cNN.py) offers
    RULE   how its cases are made and what makes one non-trivial
    ASSUME list of assumptions
    cases(tier) -> list of dicts {"kind": str, "i": int, ...}   (JSON-serialisable)
    run(case, mon)                                              executes the real code, the oracle watches
"""
from __future__ import annotations

import concurrent.futures as cf
import concurrent.futures.process
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter

import numpy as np

REPO = os.environ.get("RV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = os.path.join(REPO, "robpy") + os.sep


class Violated(Exception):
    """The oracle contradicts what it observed."""


class Skip(Exception):
    """The generated case is outside the quantified domain (counted, never a pass)."""


class StepBudget(BaseException):
    """More loop iterations inside robpy than the case allows."""


class Inconclusive(BaseException):
    """The monitor could not do its work (watchdog, memory)."""


# ------------------------------------------------------------------ instrumentation
class Probe:
    """sys.monitoring tool: which robpy functions ran, and how many loop jumps they made."""

    TOOL = 4

    def __init__(self):
        self.functions = set()
        self.jumps = 0
        self.budget = None
        self.on = False
        self.line_hook = None
        self.jump_hook = None

    def start(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "rv")
        ev = m.events
        m.register_callback(self.TOOL, ev.PY_START, self._py_start)
        m.register_callback(self.TOOL, ev.JUMP, self._jump)
        m.register_callback(self.TOOL, ev.LINE, self._line)
        m.set_events(self.TOOL, ev.PY_START)
        self.on = True

    def _py_start(self, code, offset):
        m = sys.monitoring
        if code.co_filename.startswith(PKG):
            self.functions.add(code.co_filename[len(PKG) :] + ":" + code.co_qualname)
            events = m.events.JUMP
            if self.line_hook is not None:
                events |= m.events.LINE
            if m.get_local_events(self.TOOL, code) != events:
                m.set_local_events(self.TOOL, code, events)
        return m.DISABLE

    def set_line_hook(self, hook):
        self.line_hook = hook
        sys.monitoring.restart_events()

    def _line(self, code, line):
        if self.line_hook is not None:
            self.line_hook(code, line)

    def _jump(self, code, offset, dest):
        self.jumps += 1
        if self.budget is not None and self.jumps > self.budget:
            self.budget = None
            raise StepBudget(f"more than {self.jumps - 1} loop iterations, now in {code.co_qualname}")


PROBE = Probe()


# ------------------------------------------------------------------ monitor API
def _short(v):
    if isinstance(v, np.ndarray):
        s = np.array2string(v.ravel()[:8], precision=17, separator=",")
        return f"array{v.shape}{s}"
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        v = v.item()
    r = repr(v)
    return r if len(r) < 400 else r[:400] + "..."


class Mon:
    def __init__(self, case, seed, prop):
        self.case = case
        self.prop = prop
        key = json.dumps(case, sort_keys=True, default=str)
        self.rng = np.random.default_rng([seed & 0x7FFFFFFF, zlib.crc32(key.encode())])
        self.evaluations = 0
        self.events = Counter()
        self.states = set()
        self.inputs = []
        self.known = []
        self.sample = {}

    # -- observations
    def seen(self, what, n=1):
        self.events[what] += int(n)

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def input(self, *arrays):
        h = hashlib.blake2b(digest_size=8)
        for a in arrays:
            if hasattr(a, "to_numpy"):
                a = a.to_numpy()
            a = np.asarray(a)
            h.update(str((a.shape, a.dtype.str)).encode())
            h.update(a.astype(str).tobytes() if a.dtype == object else np.ascontiguousarray(a).tobytes())
        self.inputs.append(h.hexdigest())

    def note(self, **kw):
        for k, v in kw.items():
            self.sample[k] = _short(v)

    # -- oracle
    def fail(self, what, **detail):
        raise Violated(what + "".join(f"; {k}={_short(v)}" for k, v in detail.items()))

    def ok(self, cond, what, **detail):
        self.evaluations += 1
        if not bool(cond):
            self.fail(what, **detail)

    def close(self, got, want, what, rtol=1e-8, atol=0.0, **detail):
        """Element-wise |got - want| <= atol + rtol * |want|; NaN equals NaN only."""
        self.evaluations += 1
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.fail(what + ": shape", got=got.shape, want=want.shape, **detail)
        both_nan = np.isnan(got) & np.isnan(want)
        with np.errstate(all="ignore"):
            good = both_nan | (got == want) | (np.abs(got - want) <= atol + rtol * np.abs(want))
        if not np.all(good):
            bad = np.argwhere(~good)
            k = tuple(bad[0])
            self.fail(
                what,
                n_bad=len(bad),
                first=k,
                got=float(got[k]),
                want=float(want[k]),
                **detail,
            )

    def same(self, got, want, what, **detail):
        """Exactly equal arrays (NaN equals NaN)."""
        self.evaluations += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(what + ": shape", got=got.shape, want=want.shape, **detail)
        eq = got == want
        if got.dtype.kind == "f" and want.dtype.kind == "f":
            eq = eq | (np.isnan(got) & np.isnan(want))
        if not np.all(eq):
            k = tuple(np.argwhere(~np.asarray(eq))[0])
            self.fail(what, n_bad=int(np.sum(~np.asarray(eq))), first=k, got=got[k], want=want[k], **detail)

    def raises(self, exc, fn, what):
        self.evaluations += 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:  # noqa
            self.fail(what + ": other exception", got=type(e).__name__ + ": " + str(e)[:200])
        self.fail(what + ": no exception", got=r)

    def known_finding(self, key, text):
        """The case reproduced a defect that known_findings.txt may list."""
        self.known.append((key, text))


# ------------------------------------------------------------------ known findings
def load_known():
    """{property: {key: text}} of the findings that are recorded, not repaired."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"^finding: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m:
                out.setdefault(m[1], {})[m[2]] = m[3]
    return out


# ------------------------------------------------------------------ worker
_ctx = {}
DEFAULT_BUDGET = 30_000_000
CASE_SECONDS = 240


def _alarm(signum, frame):
    raise Inconclusive("wall-clock watchdog")


def init_worker(pool=True):
    warnings.simplefilter("ignore")
    if pool:
        sys.stderr = open(os.devnull, "w")  # progress bars
    logging.disable(logging.CRITICAL)
    import matplotlib.pyplot as plt  # noqa

    if not PROBE.on:
        PROBE.start()


def run_case(case):
    mod, seed, prop = _ctx["mod"], _ctx["seed"], _ctx["prop"]
    mon = Mon(case, seed, prop)
    PROBE.jumps = 0
    PROBE.budget = getattr(mod, "BUDGET", DEFAULT_BUDGET)
    PROBE.functions = set()
    sys.monitoring.restart_events()
    res = {"case": case, "status": "ok", "msg": ""}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, "CASE_SECONDS", CASE_SECONDS))
    t0 = time.monotonic()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(case, mon)
    except Violated as e:
        res.update(status="violation", msg=str(e))
    except Skip as e:
        res.update(status="skip", msg=str(e))
    except StepBudget as e:
        res.update(status="violation", msg=f"does not end: {e}")
    except Inconclusive as e:
        res.update(status="inconclusive", msg=str(e))
    except MemoryError:
        res.update(status="inconclusive", msg="MemoryError")
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        # the code under test failed on an input of its domain, or its output lacks the documented form
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-3:])
        res.update(status="violation", msg=f"exception {type(e).__name__}: {str(e)[:300]} at {where}")
    finally:
        signal.alarm(0)
        PROBE.budget = None
        try:
            import matplotlib.pyplot as plt

            plt.close("all")
        except Exception:
            pass
    res.update(
        evaluations=mon.evaluations,
        events=dict(mon.events),
        states=sorted(mon.states),
        inputs=mon.inputs,
        known=mon.known,
        sample=mon.sample,
        jumps=PROBE.jumps,
        functions=sorted(PROBE.functions),
        wall=time.monotonic() - t0,
    )
    return res


def run_chunk(cases):
    return [run_case(c) for c in cases]


# ------------------------------------------------------------------ main
def execute(prop, tier, seed, only=None):
    sys.path.insert(0, REPO)
    import robpy  # noqa

    if not os.path.abspath(robpy.__file__).startswith(PKG):
        print(f"rv: robpy was imported from {robpy.__file__}, not from {REPO}", file=sys.stderr)
        return None, None
    mod = importlib.import_module(f"rv.checks.{prop.lower()}")
    _ctx.update(mod=mod, seed=seed, prop=prop)
    cases = [only] if only is not None else list(mod.cases(tier))
    for name in getattr(mod, "PRELOAD", ()):  # import before forking
        importlib.import_module(name)
    results = []
    workers = 1 if only is not None else min(int(os.environ.get("RV_WORKERS", "8")), len(cases))
    if workers == 1:
        init_worker(False)
        results = [run_case(c) for c in cases]
    else:
        chunk = getattr(mod, "CHUNK", 1)
        parts = [cases[i : i + chunk] for i in range(0, len(cases), chunk)]
        with cf.ProcessPoolExecutor(
            workers, mp_context=mp.get_context("fork"), initializer=init_worker
        ) as ex:
            for part in ex.map(run_chunk, parts):
                results.extend(part)
    return mod, results


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if len(argv) > 2 and argv[1] == "replay":
        rec = json.load(open(argv[2]))
        tier, seed, only = rec["tier"], rec["seed"], rec["case"]
    t0 = time.monotonic()
    try:
        mod, results = execute(prop, tier, seed, only)
    except cf.process.BrokenProcessPool as e:
        print(f"rv: a worker died: {e}", file=sys.stderr)
        return 2
    if results is None:
        return 2
    wall = time.monotonic() - t0

    known_listed = load_known().get(prop, {})
    violations, inconclusive, known_hit = [], [], {}
    for r in results:
        if r["status"] == "violation":
            violations.append(r)
        elif r["status"] == "inconclusive":
            inconclusive.append(r)
        for key, text in r["known"]:
            if key in known_listed:
                known_hit.setdefault(key, text)
            else:
                violations.append(dict(r, msg=text))
    events, states, functions = Counter(), set(), set()
    for r in results:
        events.update(r["events"])
        states.update(r["states"])
        functions.update(r["functions"])
    evaluations = len([r for r in results if r["status"] != "skip"])
    nontrivial = {
        tuple(r["inputs"]) or json.dumps(r["case"], sort_keys=True)
        for r in results
        if r["evaluations"] > 0 and r["status"] != "skip"
    }
    slow = sorted(results, key=lambda r: -r["wall"])[:3]
    samples = []
    by_kind = {}
    for r in results:
        by_kind.setdefault(r["case"].get("kind", ""), []).append(r)
    for kind, rs in sorted(by_kind.items()):
        r = next((r for r in rs if r["evaluations"]), rs[0])
        samples.append(
            {"case": r["case"], "status": r["status"], "assertions": r["evaluations"], "observed": r["sample"], "events": r["events"]}
        )
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples[:20],
            "oracle_assertions": int(sum(r["evaluations"] for r in results)),
            "cases_by_kind": {k: len(v) for k, v in sorted(by_kind.items())},
            "skipped_outside_domain": len([r for r in results if r["status"] == "skip"]),
            "monitor_events": dict(sorted(events.items())),
            "distinct_states_seen": len(states),
            "robpy_functions_reached": sorted(functions),
            "robpy_loop_jumps": int(sum(r["jumps"] for r in results)),
            "max_loop_jumps_in_a_case": int(max(r["jumps"] for r in results)),
            "known_findings_reproduced": sorted(known_hit),
            "slowest_cases_s": [[r["case"], round(r["wall"], 2)] for r in slow],
        },
        "assumptions": list(getattr(mod, "ASSUME", [])),
        "wall_s": round(wall, 3),
        "violations": len(violations),
    }
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")

    for key, text in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={prop} {key} {text}")
    print(
        f"{prop} {tier} seed={seed}: {evaluations} cases, {len(nontrivial)} distinct, "
        f"{ev['coverage']['oracle_assertions']} assertions, {len(states)} states, "
        f"{len(violations)} violations, {len(inconclusive)} inconclusive, {wall:.1f}s"
    )
    if violations:
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for n, r in enumerate(violations[:5]):
            path = os.path.join(rdir, f"{prop}-{tier}-{seed}-{n}.json")
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": prop,
                        "tier": tier,
                        "seed": seed,
                        "case": r["case"],
                        "message": r["msg"],
                        "how": f"cd {VERIF} && ./run {prop} replay {path}",
                    },
                    f,
                    indent=1,
                    default=str,
                )
            print(f"  case {json.dumps(r['case'], default=str)}: {r['msg']}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if inconclusive:
        for r in inconclusive[:5]:
            print(f"rv: inconclusive case {r['case']}: {r['msg']}", file=sys.stderr)
        return 2
    if only is None and (len(nontrivial) < getattr(mod, "MIN_NONTRIVIAL", 10)):
        print(f"rv: only {len(nontrivial)} non-trivial cases were observed", file=sys.stderr)
        return 2
    for what, least in getattr(mod, "REQUIRE", {}).items():
        if only is None and events.get(what, 0) < least:
            print(f"rv: monitor event {what!r} seen {events.get(what, 0)} < {least} times", file=sys.stderr)
            return 2
    return 0
