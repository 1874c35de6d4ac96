"""Shared pieces of the checks: fingerprints of inputs and process state, data, queries."""
import hashlib
import itertools
import os
import sys

from . import ref as R
from . import spec as S

VTYPES = ("numpy", "numpy1d", "list", "treedict")


# ---------------------------------------------------------------------------- fingerprints

def model_fp(m):
    """content of a model as seen through its public interface"""
    g = m.graph
    fs = []
    for v in m.variables:
        f = m.factors[v]
        if f is None:
            fs.append((v, None))
            continue
        fs.append((v, type(f).__name__, tuple(f.variables), tuple(sorted(f.right_vars)),
                   tuple((k, tuple(d)) for k, d in f.domain.items()), tuple(_num(x) for x in f.values_list)))
    return (tuple(g.nodes), tuple(sorted(g.edges)), tuple(fs),
            tuple((k, None if d is None else tuple(d)) for k, d in m.domains.items()),
            tuple(getattr(m, "endogenous", ())), tuple(getattr(m, "exogenous", ())))


def _num(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return str(x)


def df_fp(df):
    return (tuple(map(str, df.columns)), tuple(df.index), tuple(str(t) for t in df.dtypes),
            tuple(tuple(repr(x) for x in row) for row in df.itertuples(index=False)))


def rng_fp():
    import random
    import numpy as np
    s = np.random.get_state()
    return (hashlib.sha1(s[1].tobytes()).hexdigest(), s[2], s[3], s[4],
            hashlib.sha1(repr(random.getstate()).encode()).hexdigest())


def process_fp():
    """process-wide state that library calls must leave alone"""
    import logging
    import warnings
    import numpy as np
    from bcause.factors.values.store import DataStore
    import bcause.factors.values as vals
    out = {
        "warnings.filters": [str(f) for f in warnings.filters],
        "warnings.showwarning": id(warnings.showwarning),
        "warnings._showwarnmsg_impl": id(warnings._showwarnmsg_impl),
        "numpy.errstate": sorted(np.geterr().items()),
        "numpy.errcall": repr(np.geterrcall()),
        "numpy.printoptions": repr(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        "default store": DataStore.DEFAULT_STORE,
        "store classes' default": [getattr(c, "DEFAULT_STORE", None) for c in vals.store_dict.values()],
        "recursion limit": sys.getrecursionlimit(),
        "cwd": os.getcwd(),
        "stdout": id(sys.stdout), "stderr": id(sys.stderr),
        "environ": hashlib.sha1(repr(sorted(os.environ.items())).encode()).hexdigest(),
        "logging": (logging.getLogger().level, logging.root.manager.disable, len(logging.getLogger().handlers)),
        "sys.path": list(sys.path),
        "hooks": (id(sys.excepthook), id(sys.settrace), sys.gettrace() is None, sys.getprofile() is None,
                  sys.getswitchinterval()),
    }
    import decimal
    import gc
    import locale
    import signal
    import socket
    import tempfile
    import threading
    import pandas as pd
    import pandas._config.config as pc
    cfg = getattr(pc, "_global_config", None)
    out["pandas options"] = repr(cfg) if cfg else repr([pd.get_option(o) for o in ("mode.chained_assignment", "display.max_rows", "display.width")])
    out["loggers"] = sorted((n, x.level, x.disabled, x.propagate, len(x.handlers)) for n, x in list(logging.root.manager.loggerDict.items())
                            if isinstance(x, logging.Logger) and (x.level or x.disabled or not x.propagate or x.handlers))
    out["runtime"] = (locale.setlocale(locale.LC_ALL), gc.isenabled(), gc.get_threshold(), repr(decimal.getcontext()), socket.getdefaulttimeout(), tempfile.tempdir,
                      id(threading.excepthook), id(sys.unraisablehook), sys.get_int_max_str_digits(), signal.getsignal(signal.SIGTERM) is signal.SIG_DFL)
    return out


def fp_diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return [k for k in a if a[k] != b.get(k)] + [k for k in b if k not in a]
    return [] if a == b else ["content"]


KEPT = None                     # arguments handed over by the callers that look at them again afterwards


def keep(x):
    if KEPT is not None:
        KEPT.append((x, repr(x)))
    return x


def kept_changes():
    """the caller's arguments that are no longer what was handed over"""
    return [f"{b} -> {a!r}" for a, b in KEPT if repr(a) != b]


# ---------------------------------------------------------------------------- data

def sample_rows(rng, spec, n, variables=None):
    """n complete records drawn with rng from the reference model -> list of rows (states)"""
    ref = R.Ref(spec)
    order = topo(spec)
    rows = []
    variables = variables or list(spec["nodes"])
    for _ in range(n):
        val = {}
        for v in order:
            t = ref.tables[v]
            for p in spec["pa"][v]:
                t = t[val[p]]
            x = rng.random() * float(sum(t))
            acc = 0.0
            k = None
            for i, pr in enumerate(t):
                acc += float(pr)
                if pr > 0 and x < acc:
                    k = i
                    break
            if k is None:
                k = max(i for i, pr in enumerate(t) if pr > 0)
            val[v] = k
        rows.append([spec["dom"][v][val[v]] for v in variables])
    return rows


def topo(spec):
    out, todo = [], list(spec["nodes"])
    while todo:
        for v in todo:
            if all(p in out for p in spec["pa"][v]):
                out.append(v)
                todo.remove(v)
                break
        else:
            raise RuntimeError("cycle")
    return out


def frame(cols, rows):
    import pandas as pd
    return pd.DataFrame([list(r) for r in rows], columns=list(cols))


def counts_of(cols, rows, variables):
    idx = [cols.index(v) for v in variables]
    out = {}
    for r in rows:
        k = tuple(r[i] for i in idx)
        out[k] = out.get(k, 0) + 1
    return out


# ---------------------------------------------------------------------------- heuristics

HEUR = ("default", "MIN_SIZE", "MIN_FILL", "MIN_WEIGHT", "enum:MIN_SIZE", "enum:MIN_FILL", "enum:MIN_WEIGHT", "custom:reverse", "custom:sorted")


def heuristic(name):
    from bcause.inference import ordering as O
    if name == "default":
        return None
    if name.startswith("custom:"):
        if name.endswith("reverse"):
            def h(dag, to_remove, varsizes=None, **k):
                return list(to_remove)[::-1]
        else:
            def h(dag, to_remove, varsizes=None, **k):
                return sorted(to_remove)
        return h
    n = name.split(":")[-1]
    if name.startswith("enum:"):
        for m in O.Heuristic:
            if m.name.upper().startswith(n):
                return m
        return list(O.Heuristic)[0]
    for k, f in O.heuristic_functions.items():
        if str(k).upper().startswith(n):
            return f
    return None


# ---------------------------------------------------------------------------- answers

def compare_factor(ctx, f, variables, dom, expected, what, tol=R.TOL, kind="wrong-answer"):
    """f (a precise factor) must be the function `expected` over `variables`"""
    got = set(f.variables)
    ctx.check(got == set(variables), "wrong-variables", f"{what}: answer over {sorted(got)}, expected {sorted(variables)}")
    for v in variables:
        ctx.check(set(map(repr, f.domain[v])) == set(map(repr, dom[v])), "wrong-domain", f"{what}: states of {v}")
    a = R.factor_array(f, list(variables), dom)
    d = R.diff(a, expected)
    ctx.check(d <= tol, kind, f"{what}: off by {d:.3g}: got {a.tolist()} expected {expected.tolist()}")
    return a


def pick_subset(rng, items, lo, hi):
    items = list(items)
    k = rng.randint(min(lo, len(items)), min(hi, len(items)))
    return rng.sample(items, k)


def rnd_arr(a, nd=7):
    import numpy as np
    return np.round(np.asarray(a, dtype=float), nd).tolist()


def gap(rng):
    """mean distance between voluntary switches"""
    return rng.choice([3, 10, 30, 100, 300, 1000])


def gen_call(rng, scales):
    """where an exception strikes: after a number of bcause calls, or at the n-th call made at one of a pseudo-random
    selection of call sites"""
    if rng.random() < 0.4:
        return int(rng.choice(scales) * rng.random()) + 1
    return [rng.choice([1, 1, 1, 2, 2, 3, int(2 ** (rng.random() * 9))]), rng.randrange(1 << 20), rng.choice([10, 40, 120, 400]), rng.choice([0, 0, 1, 2, 4])]


def gen_sched(rng, est=20000):
    r = rng.random()
    s = rng.randrange(1 << 30)
    if r < 0.65:
        return {"mode": "random", "seed": s, "gap": gap(rng)}
    if r < 0.95:
        return {"mode": "pct", "seed": s, "depth": rng.randint(1, 6), "est": est}
    return {"mode": "none"}


def shrink_spec_rows(sc):
    return sc
