"""Scenario execution, confirmation, minimisation.  One scenario = one explicit JSON object = one
exactly repeatable execution, run in a forked child of a process that has only imported bcause."""
import copy
import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

from . import kernel
from .kernel import Kernel

_now = kernel._real_monotonic
REPO = kernel.REPO


class Violation(Exception):
    def __init__(self, kind, msg, **detail):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg, self.detail = kind, msg, detail


class Inconclusive(Exception):
    """the simulator lost control of something; says nothing about the property"""


class Ctx:
    def __init__(self, sc):
        self.sc = sc
        self._h = hashlib.sha256()
        self.faults = {}
        self.stats = {}
        self.cover = set()
        self.simtime = 0.0
        self.trace = None
        self.outcome = None
        self.nontrivial = False
        self._pipe = None
        self.events = []

    def log(self, *items):
        self._h.update(repr(items).encode())
        if len(self.events) < 400:
            self.events.append(repr(items)[:300])

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def cov(self, *sig):
        self.cover.add(hashlib.sha1(repr(sig).encode()).hexdigest()[:12])

    def violate(self, kind, msg, **detail):
        raise Violation(kind, msg, **detail)

    def check(self, cond, kind, msg, **detail):
        if not cond:
            raise Violation(kind, msg, **detail)

    def must(self, what, fn, *a, **k):
        """run an operation that has to succeed"""
        try:
            return fn(*a, **k)
        except (Violation, Inconclusive, kernel.SimStop):
            raise
        except Exception as e:
            raise Violation("exception", f"{what} raised {type(e).__name__}: {str(e)[:200]}", tb=short_tb(e))

    def kernel(self, sched=None, faults=(), budget=3_000_000, monitor=True, **k):
        if monitor:
            kernel.enable_monitoring()
        return _KernelScope(self, Kernel(sched, faults, budget=budget, on_fatal=self._fatal, **k))

    def absorb(self, kn):
        self.simtime += kn.now
        self.stat("steps", kn.step)
        self.stat("switches", kn.switches)
        self.stat("threads", len(kn.threads))
        for f in kn.fired:
            self.fault(f["kind"] + ":" + str(f.get("exc", "")) if f.get("exc") else f["kind"])
            self.log("fired", sorted((a, b) for a, b in f.items() if a != "where"))
        if len(kn.threads) > 1:
            self.cov("path", kn.path)
        if kn.trace:
            self.trace = kn.trace if self.trace is None else self.trace
        self.log("kernel", kn.step, kn.path, kn.switches)

    def _fatal(self, kind, msg, kn):
        """deadlock / livelock: report from whichever thread noticed and end the process"""
        self.absorb(kn)
        self.report("violation", kind=kind, msg=msg, detail={})
        os._exit(0)

    def report(self, status, kind="", msg="", detail=None):
        r = dict(status=status, kind=kind, msg=str(msg)[:2000], detail=jsonable(detail or {}), hash=self._h.hexdigest()[:16],
                 stats=self.stats, faults=self.faults, cover=sorted(self.cover), simtime=self.simtime,
                 outcome=jsonable(self.outcome), nontrivial=bool(self.nontrivial), trace=self.trace,
                 events=self.events if status == "violation" else [])
        data = json.dumps(r).encode()
        if self._pipe is None:
            self.result = r
            return
        off = 0
        while off < len(data):
            off += os.write(self._pipe, data[off:])
        os.close(self._pipe)


class _KernelScope:
    def __init__(self, ctx, kn):
        self.ctx, self.kn = ctx, kn

    def __enter__(self):
        return self.kn.__enter__()

    def __exit__(self, *a):
        self.kn.__exit__(*a)
        self.ctx.absorb(self.kn)
        return False


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


def short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    return [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb][-14:]


def from_repo(e):
    """does the exception come out of bcause code (anywhere in its traceback)?"""
    while e is not None:
        for f in traceback.extract_tb(e.__traceback__):
            if f.filename.startswith(kernel.PKG):
                return True
        e = e.__cause__ or e.__context__
    return False


def load_check(cid):
    return importlib.import_module(f"dst.checks.{cid.lower()}")


def preload():
    """what every worker imports once, before forking"""
    kernel.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import numpy, pandas, networkx, scipy.optimize, scipy.special, joblib, matplotlib  # noqa
        import pkgutil
        import bcause
        assert os.path.realpath(bcause.__file__).startswith(os.path.realpath(REPO)), bcause.__file__
        for m in pkgutil.walk_packages(bcause.__path__, "bcause."):
            importlib.import_module(m.name)
    # warm lazily imported pieces so that no import happens inside a simulated run
    import joblib._parallel_backends, multiprocessing.pool, multiprocessing.dummy, tempfile, shutil, uuid, csv  # noqa
    try:
        joblib.Parallel(n_jobs=2, backend="threading")(joblib.delayed(abs)(i) for i in range(2))
    except Exception:
        pass
    # pgmpy's BIF grammar builds its words from all of Unicode, which costs a second per file; our names are ASCII
    import string
    from pyparsing.unicode import pyparsing_unicode as pu
    pu._intern = {"alphas": string.ascii_letters, "nums": string.digits, "alphanums": string.ascii_letters + string.digits}
    kernel.install_late()
    kernel.prepare_codes()
    import logging
    logging.getLogger().addHandler(logging.NullHandler())
    logging.getLogger().setLevel(logging.ERROR)
    warnings.simplefilter("ignore")
    import gc
    gc.collect()
    gc.freeze()


def run_here(cid, sc):
    """execute one scenario in this process (a fresh fork); returns the Ctx after reporting"""
    mod = load_check(cid)
    ctx = Ctx(sc)
    return mod, ctx


def child_main(cid, sc, pipe, scratch=None):
    import gc
    gc.disable()
    ctx = Ctx(sc)
    ctx._pipe = pipe
    ctx.scratch = scratch
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get("DST_STDERR"):
        os.dup2(devnull, 2)
    code = 0
    try:
        import numpy as np
        random.seed(12345)
        np.random.seed(12345)
        mod = load_check(cid)
        mod.execute(sc, ctx)
        ctx.report("ok")
    except Violation as v:
        ctx.report("violation", v.kind, v.msg, v.detail)
    except Inconclusive as e:
        ctx.report("inconclusive", "inconclusive", str(e))
    except kernel.SimStop:
        ctx.report("error", "simstop", "simulation stopped")
    except BaseException as e:
        if from_repo(e) and not isinstance(e, (KeyboardInterrupt, SystemExit)):
            ctx.report("violation", "exception", f"legitimate call raised {type(e).__name__}: {str(e)[:300]}",
                       {"tb": short_tb(e)})
        else:
            ctx.report("error", "harness", "".join(traceback.format_exception(e))[-1800:])
    finally:
        os._exit(code)


def scratch_base():
    if os.environ.get("DST_SCRATCH"):
        return os.environ["DST_SCRATCH"]
    b = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return b


def run_forked(cid, sc, timeout=120.0):
    """run a scenario in a forked child; returns its result dict.  Checks that ask for it get a scratch
    directory of their own, which is removed afterwards"""
    if getattr(load_check(cid), "SCRATCH", False):
        import shutil
        import tempfile
        d = tempfile.mkdtemp(prefix="dst-", dir=scratch_base())
        try:
            return _run_forked(cid, sc, timeout, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _run_forked(cid, sc, timeout, None)


def _run_forked(cid, sc, timeout, scratch):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setsid()
            child_main(cid, sc, w, scratch)
        finally:
            os._exit(97)
    os.close(w)
    buf = bytearray()
    end = _now() + timeout
    timed_out = False
    while True:
        left = end - _now()
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            timed_out = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    try:
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    os.waitpid(pid, 0)
    if timed_out:
        return dict(status="timeout", kind="timeout", msg=f"no answer within {timeout:.0f}s of real time", hash="", stats={},
                    faults={}, cover=[], simtime=0.0, outcome=None, nontrivial=False, trace=None, detail={}, events=[])
    try:
        return json.loads(bytes(buf))
    except ValueError:
        return dict(status="died", kind="died", msg="the process died without an answer", hash="", stats={}, faults={},
                    cover=[], simtime=0.0, outcome=None, nontrivial=False, trace=None, detail={}, events=[])


def scenario_rng(cid, seed, i):
    return random.Random(f"{cid}:{seed}:{i}")


def gen_scenario(cid, seed, i, tier):
    mod = load_check(cid)
    sc = mod.gen(scenario_rng(cid, seed, i), i, tier)
    return json.loads(json.dumps(sc))


# ------------------------------------------------------------------------------------ minimisation

def _get(sc, path):
    o = sc
    for k in path:
        o = o[k]
    return o


def _set(sc, path, val):
    o = sc
    for k in path[:-1]:
        o = o[k]
    o[path[-1]] = val


def same(res, ref):
    return res["status"] == "violation" and res["kind"] == ref["kind"]


def outcome_diff(x, y, path="", tol=1e-6):
    """where two outcomes differ (numbers: by more than tol, or the "tol" an enclosing dictionary states), or None"""
    if isinstance(x, float) or isinstance(y, float):
        if not (isinstance(x, (int, float)) and isinstance(y, (int, float))):
            return f"{path}: {x!r} vs {y!r}"[:300]
        if x != x and y != y:
            return None
        return None if abs(x - y) <= tol else f"{path}: {x!r} vs {y!r}"
    if type(x) is not type(y):
        return f"{path}: {x!r} vs {y!r}"[:300]
    if isinstance(x, dict):
        if list(x) != list(y):
            return f"{path}: keys {list(x)} vs {list(y)}"[:300]
        tol = x.get("tol", tol) if isinstance(x.get("tol", 0.0), float) else tol
        for k in x:
            d = outcome_diff(x[k], y[k], f"{path}/{k}", tol)
            if d:
                return d
        return None
    if isinstance(x, (list, tuple)):
        if len(x) != len(y):
            return f"{path}: length {len(x)} vs {len(y)}"
        for i, (a, b) in enumerate(zip(x, y)):
            d = outcome_diff(a, b, f"{path}[{i}]", tol)
            if d:
                return d
        return None
    return None if x == y else f"{path}: {x!r} vs {y!r}"[:300]


def minimise(cid, sc, res, budget_s=60.0, log=None, runner=None):
    """greedy/ddmin over the lists the check names, then the check's own simplifications"""
    mod = load_check(cid)
    end = _now() + budget_s
    best, best_res, tries = copy.deepcopy(sc), res, 0

    def attempt(cand):
        nonlocal best, best_res, tries
        if _now() > end:
            return False
        tries += 1
        r = (runner or run_forked)(cid, cand, 60.0)
        if same(r, res):
            best, best_res = cand, r
            return True
        return False

    # 1. explicit schedule
    if isinstance(best.get("sched"), dict) and best["sched"].get("mode") in ("random", "pct") and res.get("trace"):
        c = copy.deepcopy(best)
        c["sched"] = {"mode": "list", "switches": res["trace"]}
        attempt(c)
    elif isinstance(best.get("sched"), dict) and best["sched"].get("mode") in ("random", "pct"):
        c = copy.deepcopy(best)
        c["sched"] = {"mode": "list", "switches": []}
        attempt(c)

    paths = [list(p) for p in getattr(mod, "SHRINK", [])]
    if isinstance(best.get("sched"), dict) and best["sched"].get("mode") == "list":
        paths.append(["sched", "switches"])

    def ddmin(path):
        try:
            items = _get(best, path)
        except (KeyError, IndexError, TypeError):
            return
        if not isinstance(items, list):
            return
        # all at once, then halves, quarters, ...
        if items:
            c = copy.deepcopy(best)
            _set(c, path, [])
            if attempt(c):
                return
        n = 2
        while _now() < end:
            items = _get(best, path)
            if len(items) < 1:
                return
            size = max(1, len(items) // n)
            done = False
            i = 0
            while i < len(items) and _now() < end:
                c = copy.deepcopy(best)
                _set(c, path, items[:i] + items[i + size:])
                if attempt(c):
                    items = _get(best, path)
                    done = True
                else:
                    i += size
            if not done:
                if size == 1:
                    return
                n = min(len(items), n * 2)

    progress = True
    while progress and _now() < end:
        before = json.dumps(best, sort_keys=True)
        for p in paths:
            ddmin(p)
        simp = getattr(mod, "simplify", None)
        if simp:
            for cand in simp(copy.deepcopy(best)):
                if _now() > end:
                    break
                attempt(json.loads(json.dumps(cand)))
        progress = json.dumps(best, sort_keys=True) != before
    return best, best_res, tries
